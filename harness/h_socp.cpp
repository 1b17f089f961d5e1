// Conic and mixed-binary models: verdicts (C09) and histories with failures (C10).
#include "socp_gen.hpp"
#include <iostream>
#include <sstream>
#include <new>
#include <stdexcept>
using namespace socp; using namespace solver;

namespace {
const SolverSetting& base() { static SolverSetting* s = [] { auto* q = new SolverSetting(); q->initialize(std::string(VF_REPO_DIR) + "/solver/tests/yaml_config_files/default_stgs.yaml", "solver_variables"); q->set(SolverBoolParam_Verbose, false); return q; }(); return *s; }
struct Set { int equil = -1, iters = -1, bnb = -1; bool verbose = false; void apply(SolverSetting& s) const { s = base(); if (equil >= 0) s.set(SolverIntParam_EquilibrationIters, equil); if (iters >= 0) s.set(SolverIntParam_SolverMaxIters, iters); if (bnb >= 0) s.set(SolverIntParam_BnBMaxIters, bnb); s.set(SolverBoolParam_Verbose, verbose); } };
const char* name(ExitCode c) { switch (c) { case ExitCode::Optimal: return "Optimal"; case ExitCode::OptimalInacc: return "OptimalInacc"; case ExitCode::PrimalInf: return "PrimalInf"; case ExitCode::PrimalInfInacc: return "PrimalInfInacc"; case ExitCode::DualInf: return "DualInf"; case ExitCode::DualInfInacc: return "DualInfInacc"; case ExitCode::ReachMaxIters: return "ReachMaxIters"; case ExitCode::NotConverged: return "NotConverged"; case ExitCode::PrSearchDirection: return "PrSearchDirection"; case ExitCode::PrSlacksLeaveCone: return "PrSlacksLeaveCone"; default: return "Indeterminate"; } }
struct Out { ExitCode st; Vec x; };
bool operator==(const Out& a, const Out& b) { return a.st == b.st && a.x.size() == b.x.size() && (a.x.empty() || !memcmp(a.x.data(), b.x.data(), a.x.size() * 8)); }
std::string show(const Vec& x) { std::ostringstream o; for (double v : x) o << " " << v; return o.str(); }
std::string describe(const Prob& p) {
  std::ostringstream o; auto L = [&](const Lin& l) { o << "("; for (double a : l.a) o << a << " "; o << "| " << l.c << ")"; };
  o << "n=" << p.n << " bin="; for (char b : p.bin) o << (int)b; o << " min"; for (size_t i = 0; i < p.oq.size(); i++) { o << " " << p.ow[i] << "*"; L(p.oq[i]); o << "^2"; } o << " lin "; L(p.ol);
  for (auto& c : p.con) { o << " ; " << (c.k == EQ ? "eq" : c.k == LE ? "le" : c.k == QUAD ? "quad" : "soc"); if (c.approx) o << "~" << c.approx; for (size_t i = 0; i < c.q.size(); i++) { o << " " << c.w[i] << "*"; L(c.q[i]); } o << " lin "; L(c.l); }
  return o.str();
}
Out solve(Model& m, const std::vector<Var>& v) {
  Out o; o.st = m.optimize();
  for (auto& x : v) o.x.push_back(x.get(SolverDoubleParam_X));
  event("solve: %s%s", name(o.st), show(o.x).c_str()); count((std::string("probe.status.") + name(o.st)).c_str());
  return o;
}
void verdict(const Prob& p, const Out& o, const Set& set) {
  MemOff off; NoSched ns;
  const bool inacc = o.st == ExitCode::OptimalInacc || o.st == ExitCode::PrimalInfInacc || o.st == ExitCode::DualInfInacc;
  const int nb = p.nbin();
  Truth t; { t = truth(p); }
  count(t.feasible ? "probe.truth_feasible" : t.decided ? "probe.truth_infeasible" : "probe.truth_undecided");
  // no finite optimum: recorded as a finding of its own (known_findings.txt)
  double big = 0; for (double x : o.x) big = std::max(big, std::fabs(x));
  const bool unb = !p.boxed && (t.feasible ? t.at_r : !t.decided || big > 1e6); if (unb) count("probe.unbounded_problem");
  const bool bnb_limit = nb > 0 && inacc;          // the tree search was cut: no promise on the gap
  switch (o.st) {
    case ExitCode::Optimal: case ExitCode::OptimalInacc: {
      double tol = o.st == ExitCode::Optimal ? 1e-5 : 2e-2;
      for (size_t i = 0; i < o.x.size(); i++) if (!std::isfinite(o.x[i])) violate(unb ? "verdict-on-unbounded-problem" : "non-finite-solution", "%s with variable %zu = %g; %s", name(o.st), i, o.x[i], describe(p).c_str());
      for (size_t k = 0; k < p.con.size(); k++) { double v = p.con[k].viol(o.x); if (v > tol * p.con[k].mag(o.x)) violate(unb ? "verdict-on-unbounded-problem" : "constraint-violated", "%s but constraint %zu is violated by %g; x =%s (reference: %s %.9g at%s); %s", name(o.st), k, v, show(o.x).c_str(), t.feasible ? "optimum" : t.decided ? "infeasible" : "undecided", t.f, show(t.x).c_str(), describe(p).c_str()); }
      for (int i = 0; i < p.n; i++) if (double it = inacc ? 2e-2 : 1.01e-4; p.bin[i] && !(std::fabs(o.x[i]) <= it || std::fabs(o.x[i] - 1) <= it)) violate(unb ? "verdict-on-unbounded-problem" : "not-integral", "%s with binary variable %d = %.9g; %s", name(o.st), i, o.x[i], describe(p).c_str());
      if (t.feasible && !bnb_limit) {
        double f = p.obj(o.x), gap = (nb ? 2e-3 : 0) + (inacc ? 2e-2 : 1e-5) * (p.objmag(o.x) + (inacc ? std::fabs(t.f) : 0));
        if (f > t.f + gap) violate(unb ? "verdict-on-unbounded-problem" : "not-optimal", "%s with objective %.9g at%s, but the feasible point%s has %.9g; %s", name(o.st), f, show(o.x).c_str(), show(t.x).c_str(), t.f, describe(p).c_str());
      }
      nontrivial(); break;
    }
    case ExitCode::PrimalInf:
      if (t.feasible && t.depth < (inacc ? -0.05 : -1e-3) && !bnb_limit) violate(unb ? "verdict-on-unbounded-problem" : "false-infeasible", "%s reported, but%s satisfies every constraint with margin %g; %s", name(o.st), show(t.x).c_str(), -t.depth, describe(p).c_str());
      nontrivial(); break;
    case ExitCode::DualInf:
      if (p.boxed && t.feasible && t.depth < (inacc ? -0.05 : -1e-3)) violate("false-unbounded", "%s reported, but%s is feasible and the feasible set is bounded; %s", name(o.st), show(t.x).c_str(), describe(p).c_str());
      nontrivial(); break;
    default:
      count("probe.no_verdict"); if (set.iters < 0 && t.feasible && t.depth < -0.1) { count("probe.no_verdict_on_nice"); }
  }
}
Set gen_set() { Set s; if (chance(0.2, "other-settings")) { if (pick(2, "equilibration")) s.equil = (int)pick(4, "equilibration"); if (pick(2, "iteration-limit")) s.iters = 1 + (int)pick_log(60, "iteration-limit"); if (pick(2, "node-limit")) s.bnb = 2 + (int)pick(20, "node-limit"); } return s; }
void build(Model& m, const Prob& p, std::vector<Var>& v, int style) { state_vars(m, p, v); for (size_t k = 0; k < p.con.size(); k++) state_con(m, p.con[k], v, style + (int)k); state_obj(m, p, v, style); }
void malformed(Model& m, const std::vector<Var>& v) {
  if (v.empty()) return;
  int w = (int)pick(4, "malformed"); bool threw = false; DCPQuadExpr q; q.addQuaTerm(1.0, v[0]);
  try { switch (w) { case 0: m.addVar(VarType::Continuous, 1, 0); break; case 1: m.addLinConstr(v[0], "?", 1.0); break; case 2: m.addQuaConstr(q, ">", LinExpr(1.0)); break; default: m.addSocConstr(q, "=", LinExpr(1.0)); } } catch (std::runtime_error&) { threw = true; }
  count("fault.malformed_call"); if (!threw) violate("malformed-accepted", "malformed call %d was accepted", w);
}

void verdicts() {
  Set set = gen_set(); Model m; set.apply(m.getSetting());
  std::vector<Var> v; Prob p; bool have = false;
  int ops = 1 + (int)pick_log(7, "operations");
  std::string hist;
  for (int k = 0; k < ops; k++) {
    int op = have ? (int)pick(8, "operation") : 0;
    int style = (int)pick(16, "style");
    Vec x0;
    switch (op) {
      case 0: case 1: case 2: if (have) m.clean(); p = gen(pick(5, "mixed-binary") >= 3); build(m, p, v, style); have = true; hist += " build"; break;
      case 3: { Vec c(p.n); for (auto& e : c) e = grid(2, 1, "inside"); Con n = gen_con(p, c, pick(4, "cut-off") > 0, false); p.con.push_back(n); state_con(m, n, v, style); hist += " add-constraint"; break; }
      case 4: { p.ol = gen_lin(p.n, -4, 4, 0.8, "cost"); p.oq.clear(); p.ow.clear(); int nq = (int)pick(4, "cost-terms"); for (int i = 0; i < nq; i++) { Lin q = gen_lin(p.n, -2, 2, 0.5, "cost-term"); q.c = (int)pick(7, "cost-term") - 3; p.oq.push_back(q); p.ow.push_back(0.5 * (1 + pick(6, "cost-weight"))); } state_obj(m, p, v, style); hist += " new-objective"; break; }
      case 5: if (p.n < 8) { // another variable, boxed, entering one new constraint
          bool b = pick(3, "binary") == 0 && p.nbin() < 4; p.n++; p.bin.push_back(b);
          for (auto& c : p.con) { c.l.a.push_back(0); for (auto& q : c.q) q.a.push_back(0); } for (auto& q : p.oq) q.a.push_back(0); p.ol.a.push_back(0);
          v.push_back(m.addVar(b ? VarType::Binary : VarType::Continuous, 0, 1));
          if (!b) for (int s = -1; s <= 1; s += 2) { Con c; c.k = LE; c.l.a.assign(p.n, 0); c.l.a[p.n - 1] = s; c.l.c = -3; p.con.push_back(c); state_con(m, c, v, style); }
          Vec c(p.n, 0.0); Con n = gen_con(p, c, true, false); p.con.push_back(n); state_con(m, n, v, style + 1); hist += " add-variable"; } break;
      case 6: malformed(m, v); hist += " malformed"; break;
      default: hist += " again";
    }
    set_budget(400000000);
    Out o = solve(m, v); hist += "="; hist += name(o.st);
    verdict(p, o, set);
  }
  sample("one model:%s; last problem %d variables (%d binary), %zu constraints, %zu quadratic cost terms", hist.c_str(), p.n, p.nbin(), p.con.size(), p.oq.size());
}

struct Case { Prob p; int style; Set set; bool approx; };
Out fresh(const Case& c) { Model m; c.set.apply(m.getSetting()); std::vector<Var> v; build(m, c.p, v, c.style); return solve(m, v); }
void histories() {
  Case c; c.approx = chance(0.2, "non-convex"); c.p = gen(pick(5, "mixed-binary") >= 3, c.approx); c.style = (int)pick(16, "style"); c.set = gen_set();
  if (c.approx) { c.set.bnb = 8; }
  bool ap = false; for (auto& q : c.p.con) ap |= q.approx != 0;
  set_budget(400000000);
  Out ref = fresh(c);
  { mem_fill(0x7f); set_budget(400000000); Case d = c; d.set.verbose = chance(0.1, "verbose"); Out o = fresh(d); if (!(o == ref)) violate("not-reproducible", "a new model of the same problem gives %s%s instead of %s%s; %s", name(o.st), show(o.x).c_str(), name(ref.st), show(ref.x).c_str(), describe(c.p).c_str()); }
  long live0 = mem_live(); std::string hist;
  {
    MemOn on; Model m; std::vector<Var> v;  { MemOff off; c.set.apply(m.getSetting()); }
    int ops = 1 + (int)pick_log(4, "earlier"); long allocs = 400;
    for (int k = 0; k < ops; k++) {
      Case h; { MemOff off; h.p = gen(pick(5, "mixed-binary") >= 3, chance(0.1, "non-convex")); } h.style = (int)pick(16, "style"); h.set = c.set; if (chance(0.3, "same-problem")) { MemOff off; h.p = c.p; }
      bool hap = false; for (auto& q : h.p.con) hap |= q.approx != 0;
      int fault = (int)pick(4, "fault"); set_budget(400000000);
      mem_reset_counter();
      if (fault == 1) mem_fail_at(1 + pick((uint32_t)allocs, "which-allocation"), chance(0.3, "stays-failing"));
      if (fault == 2) mem_fail_rate(0.01);
      bool oom = false; int solves = 1 + (int)pick(2, "solves"); Out first; bool have = false;
      try {
        build(m, h.p, v, h.style);
        for (int s = 0; s < solves; s++) { Out o; o.st = m.optimize(); { MemOff off; for (auto& x : v) o.x.push_back(x.get(SolverDoubleParam_X)); }
          MemOff off; event("earlier solve %s%s", name(o.st), show(o.x).c_str());
          if (have && !hap && !(o == first)) violate("resolve-differs", "solving again gives %s%s instead of %s%s; %s", name(o.st), show(o.x).c_str(), name(first.st), show(first.x).c_str(), describe(h.p).c_str());
          if (!have) { first = o; have = true; } }
        { MemOff off; hist += " solved"; }
      } catch (std::bad_alloc&) { oom = true; MemOff off; hist += " out-of-memory"; }
      if (!oom && !fault) allocs = std::max(1L, mem_allocs());
      if (oom && !fault) violate("harness", "out of memory without a fault");
      mem_fail_at(-1, false);
      if (fault == 3) { MemOff off; malformed(m, v); }
      if (oom || fault) nontrivial();
      m.clean(); v.clear();
    }
    { MemOff off; c.set.apply(m.getSetting()); }
    build(m, c.p, v, c.style);
    set_budget(400000000);
    Out o; { o.st = m.optimize(); MemOff off; for (auto& x : v) o.x.push_back(x.get(SolverDoubleParam_X)); event("after history: %s%s", name(o.st), show(o.x).c_str());
      if (!(o == ref)) violate("history-dependent", "after%s the cleaned and rebuilt model gives %s%s instead of %s%s; %s", hist.c_str(), name(o.st), show(o.x).c_str(), name(ref.st), show(ref.x).c_str(), describe(c.p).c_str()); }
    if (!ap) { Out q; q.st = m.optimize(); MemOff off; for (auto& x : v) q.x.push_back(x.get(SolverDoubleParam_X)); if (!(q == ref)) violate("resolve-differs", "solving again gives %s%s instead of %s%s; %s", name(q.st), show(q.x).c_str(), name(ref.st), show(ref.x).c_str(), describe(c.p).c_str()); }
    { MemOff off; o.x.clear(); o.x.shrink_to_fit(); }
  }
  if (mem_live() > live0) { long extra = mem_live() - live0; violate("leak", "%ld blocks (%zu bytes) still allocated after the model was destroyed", extra, mem_live_bytes()); }
  sample("history%s then %d variables (%d binary), %zu constraints -> %s", hist.c_str(), c.p.n, c.p.nbin(), c.p.con.size(), name(ref.st));
}
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nullbuf;
}
static void run() {
  static bool once = [] { std::cout.rdbuf(&nullbuf); base(); return true; }(); (void)once;
  mem_begin(); mem_fill(pick(2, "memory-fill") ? 0x7f : -1);
  if (prop() == "C09") verdicts(); else histories();
  state(trace_hash());
}
int main(int argc, char** argv) { return sim::main(argc, argv, run); }
