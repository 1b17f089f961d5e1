// Hierarchical real-time solver under the simulated scheduler, clock and allocator.
#pragma once
#include "../sim/sim.hpp"
#include "oracle.hpp"
#include <memory>
#include <sstream>
#include <iostream>
#include <yaml-cpp/yaml.h>
#include <solver/interface/Solver.hpp>
using namespace rt_solver;

struct Row { int rank; bool eq; std::vector<double> c; double rhs; int sense; bool viaCost; };   // sense: 0 '=', 1 '<', 2 '>'
struct Problem { std::vector<Row> rows; std::vector<int> removed; bool poison = false; bool wellposed = true; double relax = 1e-6; std::string str() const; };
struct Outcome { bool valid; double nsolved; std::vector<double> x; bool threw = false; };

inline std::string Problem::str() const {
  std::ostringstream o;
  for (auto& r : rows) { o << "rank" << r.rank << " ["; for (double c : r.c) o << c << " "; o << "]" << (r.eq ? "=" : r.sense == 1 ? "<" : ">") << r.rhs << (r.viaCost ? "c" : "") << "; "; }
  if (!removed.empty()) { o << "fixed:"; for (int r : removed) o << r << " "; }
  return o.str();
}

template <int NI, int NE, int NV> struct Api {
  typedef RtModel<NI, NE, NV> Mod;
  struct Cost : public RtHQPCost {
    Mod* m; int maxr = -1; mutable int asked = 0; int updates = 0;
    Eigen::MatrixXd A, G; Eigen::VectorXd b, g; Eigen::VectorXi ra, rg;
    int maxRank() const override { return maxr; }
    void updateAfterSolutionFound() override { updates++; }
    void addCostToHierarchy(int rank) const override {
      asked++;
      if (A.rows()) { typename RtVector<160>::i r = ra; m->template appendRowsOfRank<160>(rank, r, A, b, true, 0); }
      if (G.rows()) { typename RtVector<160>::i r = rg; m->template appendRowsOfRank<160>(rank, r, G, g, false, 0); }
    }
  };
  struct Obj { std::unique_ptr<Mod> m; std::unique_ptr<Cost> c; bool inited = false; double relax = 1e-6; };

  static void make(Obj& o, double relax) {
    YAML::Node p;
    { sim::NoSched ns; if (relax != 1e-6) p["ineq_relax"] = relax; }
    o.relax = relax;
    o.m.reset(new Mod(p));
    o.inited = false;
  }
  static void load(Obj& o, const Problem& P) {
    sim::NoSched ns;
    o.m->clean();
    o.m->subCostComposers().clear();
    o.c.reset(new Cost); o.c->m = o.m.get();
    int ne = 0, ng = 0;
    for (auto& r : P.rows) if (r.viaCost) (r.eq ? ne : ng)++;
    o.c->A.setZero(ne, NV); o.c->b.setZero(ne); o.c->ra.setZero(ne);
    o.c->G.setZero(ng, NV); o.c->g.setZero(ng); o.c->rg.setZero(ng);
    ne = ng = 0;
    for (auto& r : P.rows) {
      if (r.viaCost) {
        double s = r.sense == 2 ? -1 : 1;
        if (r.eq) { for (int i = 0; i < NV; i++) o.c->A(ne, i) = r.c[i]; o.c->b[ne] = -r.rhs; o.c->ra[ne] = r.rank; ne++; }
        else { for (int i = 0; i < NV; i++) o.c->G(ng, i) = s * r.c[i]; o.c->g[ng] = -s * r.rhs; o.c->rg[ng] = r.rank; ng++; }
        if (r.rank > o.c->maxr) o.c->maxr = r.rank;
      } else {
        solver::LinExpr e;
        for (int i = 0; i < NV; i++) if (r.c[i] != 0) e += solver::LinExpr(o.m->getVar(i)) * r.c[i];
        o.m->addLinConstr(e, r.sense == 0 ? "=" : r.sense == 1 ? "<" : ">", r.rhs, r.rank);
      }
    }
    if (ne + ng) o.m->subCostComposers().push_back(o.c.get());
    int k = 0;
    for (int i = 0; i < NV; i++) {
      bool rem = false; for (int q : P.removed) if (q == i) rem = true;
      o.m->full_to_opt_variable_index_[i] = rem ? -1 : k; if (!rem) k++;
    }
    o.m->num_variables_optimized_ = k;
  }
  static Outcome solve(Obj& o) {
    Outcome r;
    r.valid = o.m->solve();
    sim::NoSched ns;
    if (r.valid != o.m->is_solution_valid_) sim::violate("verdict-mismatch", "solve() returned %d but is_solution_valid_ is %d", r.valid, o.m->is_solution_valid_);
    r.nsolved = o.m->n_solved_ranks_;
    const auto& x = o.m->hqp_solver_.solution();
    for (int i = 0; i < x.size(); i++) r.x.push_back(x[i]);
    return r;
  }
  static void prioritycheck(const Problem& P, const Outcome& r);
  static void run();
};

static Problem gen_problem(int NV, int NI, int NE, bool deep) {
  using namespace sim;
  Problem P;
  int levels = 1 + (int)pick_log(deep ? 11 : 4, "levels");
  int style = (int)pick(4, "style");   // 0 mixed, 1 equality heavy, 2 conflicting bounds, 3 redundant rows
  int ineqs = 0;
  std::vector<Row> all;
  for (int k = 0; k < levels; k++) {
    if (k && chance(0.08, "gap")) continue;                 // empty level
    int ne = 0, ng = 0;
    int rows = 1 + (int)pick_log(3, "rows");
    for (int q = 0; q < rows; q++) {
      bool eq = style == 1 ? true : style == 2 ? chance(0.4, "eq") : chance(0.6, "eq");
      if (eq && ne >= NE) continue;
      if (!eq && ineqs + ng >= NI) continue;
      Row r; r.rank = k; r.eq = eq; r.c.assign(NV, 0.0);
      bool dup = !all.empty() && chance(style == 3 ? 0.5 : style == 2 ? 0.4 : 0.08, "reuse-row");
      if (dup) { r.c = all[pick(all.size(), "which")].c; if (chance(0.2, "scale")) for (auto& c : r.c) c *= -2; }
      else { int nz = 1 + (int)pick(style == 2 ? 2 : NV, "nonzeros"); for (int z = 0; z < nz; z++) { int v = (int)pick(NV, "var"); double c = grid(3, 1.0, "coef"); r.c[v] = c == 0 ? 1.0 : c; } }
      r.rhs = grid(4, 1.0, "rhs");
      r.sense = eq ? 0 : 1 + (int)pick(2, "sense");
      r.viaCost = chance(0.2, "via-cost");
      (eq ? ne : ng)++;
      P.rows.push_back(r); all.push_back(r);
    }
    ineqs += ng;
  }
  if (chance(0.1, "reduce")) {
    int n = 1 + (int)pick(NV - 1, "nremoved");
    for (int i = 0; i < n && i < NV - 1; i++) { int v = (int)pick(NV, "removed"); bool have = false; for (int q : P.removed) have |= q == v; if (!have && (int)P.removed.size() < NV - 1) P.removed.push_back(v); }
  }
  return P;
}
static void poison(Problem& P) {
  using namespace sim;
  if (P.rows.empty()) return;
  Row& r = P.rows[pick(P.rows.size(), "bad-row")];
  static const double bad[3] = {NAN, INFINITY, -INFINITY};
  double b = bad[pick(3, "bad-value")];
  if (chance(0.5, "bad-rhs")) r.rhs = b; else r.c[pick(r.c.size(), "bad-col")] = b;
  r.viaCost = true;       // expressions would multiply the bad value away
  P.poison = true; P.wellposed = false;
  count("fault.non_finite_data");
}

template <int NI, int NE, int NV> void Api<NI, NE, NV>::prioritycheck(const Problem& P, const Outcome& r) {
  sim::NoSched ns;
  if (P.poison) { if (r.valid) sim::violate("bad-data-accepted", "a problem with non-finite data was reported as solved"); return; }
  if (!r.valid) sim::violate("well-posed-not-solved", "finite problem reported as unsolved: %s", P.str().c_str());
  std::vector<int> keep; for (int i = 0; i < NV; i++) { bool rem = false; for (int q : P.removed) rem |= q == i; if (!rem) keep.push_back(i); }
  int n = keep.size();
  if ((int)r.x.size() != n) sim::violate("solution-size", "solution has %zu entries, expected %d", r.x.size(), n);
  orc::V x(n); for (int i = 0; i < n; i++) { x[i] = r.x[i]; if (!std::isfinite(x[i])) sim::violate("solution-not-finite", "valid solution contains %g: %s", x[i], P.str().c_str()); }
  int maxrank = 0; for (auto& q : P.rows) if (q.rank > maxrank) maxrank = q.rank;
  const double tol = 1e-3 + 20 * P.relax;
  orc::M F(n, 0), A(n, 0);
  for (int k = 0; k <= maxrank; k++) {
    orc::V grad = orc::V::Zero(n); double scale = 1;
    orc::M nf(n, 0), na(n, 0);
    for (auto& q : P.rows) if (q.rank == k) {
      orc::V c(n); double s = q.sense == 2 ? -1 : 1;
      for (int i = 0; i < n; i++) c[i] = s * q.c[keep[i]];
      if (c.norm() == 0) continue;
      double v = c.dot(x) - s * q.rhs;
      if (q.eq) { grad += c * v; nf.conservativeResize(n, nf.cols() + 1); nf.col(nf.cols() - 1) = c; scale += std::abs(v) * c.norm(); }
      else {
        if (v > 0) { grad += c * v; scale += v * c.norm(); }
        if (v > -tol) { na.conservativeResize(n, na.cols() + 1); na.col(na.cols() - 1) = c; }
      }
    }
    double res = orc::nnls_residual(grad, F, A);
    if (!(res <= tol * scale)) {
      std::ostringstream o; for (int i = 0; i < n; i++) o << x[i] << " ";
      sim::violate("priority-broken", "level %d is not optimal given the levels above it (stationarity residual %g, scale %g) at x = %s; problem %s", k, res, scale, o.str().c_str(), P.str().c_str());
    }
    orc::M f2(n, F.cols() + nf.cols()); f2 << F, nf; F = f2;
    orc::M a2(n, A.cols() + na.cols()); a2 << A, na; A = a2;
  }
  sim::count("oracle.levels_checked", maxrank + 1);
}

extern int g_max_live_threads;

template <int NI, int NE, int NV> void Api<NI, NE, NV>::run() {
  using namespace sim;
  const std::string p = prop();
  const bool deep = chance(p == "C04" || p == "C01" ? 0.5 : 0.25, "deep");
  // ---- the problems of this run and their reference results
  int np = 1 + (int)pick_log(3, "problems");
  std::vector<Problem> probs;
  std::vector<double> relaxes = {1e-6, 1e-6, 1e-6, 1e-5, 1e-8};
  double relax = relaxes[pick(5, "relax")];
  for (int i = 0; i < np; i++) { probs.push_back(gen_problem(NV, NI, NE, deep)); probs.back().relax = relax; if (p != "C03" && chance(0.15, "bad-data")) poison(probs.back()); }
  sample("%dx vars=%d %s", np, NV, probs[0].str().substr(0, 400).c_str());
  SchedCfg quiet; quiet.p_switch_sync = 0;
  SchedCfg wild;
  clock_begin(chance(0.5, "clock-jumps"));
  static const int fills[3] = {-1, 0x7f, 0xff};
  threads_begin(quiet); if (p == "C04") race_begin(); mem_begin();
  std::vector<Outcome> ref;
  const bool needref = (p == "C02" || p == "C03");
  if (needref) for (auto& P : probs) {
    set_budget(200000000);
    g_max_live_threads = 1;
    Obj o; make(o, relax); load(o, P); o.m->initialize(); o.inited = true;
    ref.push_back(solve(o));
  }
  mem_fill(fills[pick(3, "memory-fill")]);
  static const double psw[4] = {0.1, 0.3, 0.5, 0.9};
  wild.p_switch_sync = chance(0.9, "switching") ? psw[pick(4, "switch-rate")] : 0.0;
  wild.p_spurious = chance(0.5, "spurious") ? 0.15 : 0.0;
  if (chance(0.8, "preempting")) { static const uint32_t pm[4] = {50, 500, 5000, 50000}; wild.preempt_max = pm[pick(4, "preempt-scale")]; wild.preempt_count = 400; }
  threads_set(wild);
  double pfail = (p == "C01" && chance(0.3, "create-failures")) ? 0.3 : 0.0;
  // ---- the scenario
  const int nobj = 2;
  Obj obj[nobj];
  int inited = 0;
  int nops = 2 + (int)pick_log(8, "ops");
  g_max_live_threads = 0;
  int solves = 0;
  auto expect_live = [&](const char* when) {
    if (live_threads() != inited) violate("thread-leak", "%d background threads alive after %s, expected %d", live_threads(), when, inited);
  };
  auto doinit = [&](Obj& o) {
    set_budget(50000000);
    g_max_live_threads = inited + (o.inited ? 0 : 1);
    if (o.inited) { inited--; o.inited = false; }
    sched().p_create_fail = pfail;
    bool ok = true;
    try { o.m->initialize(); } catch (const std::exception& e) { ok = false; NoSched ns; event("initialize failed: %s", e.what()); }
    sched().p_create_fail = 0;
    if (ok) { o.inited = true; inited++; }
    expect_live("initialize");
    event("initialize %d", ok);
  };
  for (int op = 0; op < nops; op++) {
    int k = (int)pick(nobj, "object");
    if (k && !chance(0.4, "second-object")) k = 0;
    Obj& o = obj[k];
    if (!o.m) { make(o, relax); event("new solver %d", k); }
    switch (pick(6, "op")) {
      case 4: doinit(o); break;
      case 5: if (o.m) {
        event("destroy %d", k);
        set_budget(50000000);
        if (o.inited) { inited--; o.inited = false; }
        o.m.reset(); o.c.reset();
        expect_live("destruction");
        break;
      }
      // fallthrough
      default: {
        int pi = (int)pick(probs.size(), "problem");
        load(o, probs[pi]);
        if (!o.inited) doinit(o);
        if (!o.inited) break;
        set_budget(200000000);
        event("solve problem %d on %d", pi, k);
        Outcome r = solve(o);
        solves++;
        NoSched ns;
        hash_bits(r.x.data(), r.x.size() * 8);
        event("solved valid=%d levels=%g", r.valid, r.nsolved);
        if (needref) {
          const Outcome& q = ref[pi];
          bool same = q.valid == r.valid && q.nsolved == r.nsolved && q.x.size() == r.x.size();
          if (same) for (size_t i = 0; i < r.x.size(); i++) { bool nn = std::isnan(q.x[i]) && std::isnan(r.x[i]); if (!nn && memcmp(&q.x[i], &r.x[i], 8)) same = false; }
          if (!same && p == "C02") { std::ostringstream os; for (double v : q.x) os << v << " "; os << "| "; for (double v : r.x) os << v << " ";
            violate("timing-dependent", "result differs from an undisturbed fresh solver: valid %d/%d levels %g/%g x %s problem %s", q.valid, r.valid, q.nsolved, r.nsolved, os.str().c_str(), probs[pi].str().c_str()); }
        }
        if (p == "C03") prioritycheck(probs[pi], r);
      }
    }
  }
  // restart in quick succession and shut down
  for (int k = 0; k < nobj; k++) if (obj[k].m) {
    set_budget(50000000);
    if (obj[k].inited) { inited--; obj[k].inited = false; }
    obj[k].m.reset();
    expect_live("destruction");
  }
  if (solves && switches() > 2) nontrivial();
  count("probe.solves", solves);
  count("probe.switches", switches());
  count("probe.background_threads", created_threads());
  count("probe.clock_reads", clock_reads());
  race_end();
  threads_end();
}
