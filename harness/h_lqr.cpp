// C12: differential dynamic programming under misbehaving user models.
// C13: its result file under a faulty disk.
#include "../sim/sim.hpp"
#include "../sim/sim_fs.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/SolverLqr.hpp>
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
using namespace sim;
using namespace solverlqr;
typedef std::vector<double> Vec;

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nullbuf;
struct UserError : std::runtime_error { using std::runtime_error::runtime_error; };
const char* FAULT[] = {"none", "dynamics_nan", "dynamics_inf", "dynamics_huge", "dynamics_jump", "cost_nan", "cost_inf", "cost_minus_inf", "cost_huge", "cost_low", "cost_up", "throw"};
enum { F_NONE, F_DNAN, F_DINF, F_DHUGE, F_DJUMP, F_CNAN, F_CINF, F_CMINF, F_CHUGE, F_CLOW, F_CUP, F_THROW, NF };

// ---- the user's problem (what it says when nothing goes wrong) ----------------------
struct Problem {
  int dyn, cost, x, u, T; Eigen::MatrixXd A, B; Vec goal, q, r, qf, x0; double wall = 0; int wall_what = 0;   // beyond |x0| > wall the model misbehaves (deterministically)
  Vec delta(const double* s, const double* c, int t) const {
    Vec d(x);
    for (int i = 0; i < x; i++) {
      double lin = 0; for (int j = 0; j < x; j++) lin += A(i, j) * s[j]; for (int j = 0; j < u; j++) lin += B(i, j) * c[j];
      switch (dyn) {
        case 0: d[i] = 0.1 * lin; break;                                    // linear
        case 1: d[i] = 0.1 * (lin + std::sin(s[(i + 1) % x])); break;        // smooth
        case 2: d[i] = 0.1 * (lin + s[i] * std::fabs(s[i])); break;          // blows up
        case 3: d[i] = 0.1 * (lin + (s[i] > 0 ? 0.5 : -0.5)); break;         // jumps
        case 4: d[i] = 0.1 * lin * (1 + 0.2 * (t % 3)); break;               // time varying
        default: d[i] = 0.1 * (lin + std::sqrt(2 + s[i])); break;            // undefined below -2
      }
    }
    if (wall > 0 && std::fabs(s[0]) > wall) { if (wall_what == 0) d[0] = NAN; else if (wall_what == 1) d[x - 1] = INFINITY; }
    return d;
  }
  double stage(const double* s, const double* c, int t, bool fin) const {
    double v = 0;
    for (int i = 0; i < x; i++) { double e = s[i] - goal[i], w = fin ? qf[i] : q[i];
      switch (cost) { case 0: v += w * e * e; break; case 1: v += w * (std::sqrt(1 + e * e) - 1); break; case 2: v += w * (1 - std::cos(e)) + 0.01 * w * e * e; break;
        case 3: { double h = std::fabs(e) > 0.5 ? std::fabs(e) - 0.5 : 0; v += w * h * h; break; }     // hides a NaN
        case 4: v += w * e; break;                                                                      // no minimum
        default: v += w * (e * e) - 0.1 * std::log(4 + s[i]); break; } }
    if (!fin) for (int j = 0; j < u; j++) { if (cost == 3) { double h = std::fabs(c[j]) > 0.1 ? std::fabs(c[j]) - 0.1 : 0; v += r[j] * h * h; } else if (cost != 4 || dyn % 2) v += r[j] * c[j] * c[j]; }
    if (wall > 0 && std::fabs(s[0]) > wall) { if (wall_what == 2) v = NAN; else if (wall_what == 3) v = -INFINITY; else if (wall_what == 4) v = INFINITY; else if (wall_what == 5) v = 1e18; }
    return v;
  }
};

struct Held { std::vector<Vec> x, u; std::vector<Vec> K; };
bool bits(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
bool bits(const std::vector<Vec>& a, const std::vector<Vec>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!bits(a[i], b[i])) return false; return true; }
bool bits(const Held& a, const Held& b) { return bits(a.x, b.x) && bits(a.u, b.u) && bits(a.K, b.K); }
template <class M> Vec vec(const M& m) { return Vec(m.data(), m.data() + m.size()); }
bool close(double a, double b, double scale) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-11 * (scale + std::fabs(a) + std::fabs(b)); }

struct Monitor;
struct Ocp : OcpBase {
  const Problem* p = nullptr; Monitor* mon = nullptr;
  void configure(const YAML::Node&) override {}
  StateBase dynamics(const StateBase& s, const ControlBase& c, int t) override;
  double objective(const StateBase& s, const ControlBase& c, int t, bool fin) override;
};
Held held(const OcpBase& o) {
  Held h; for (int i = 0; i < o.stateSeq().size(); i++) h.x.push_back(vec(o.stateSeq().state(i).stateVector()));
  for (int i = 0; i < o.controlSeq().size(); i++) { h.u.push_back(vec(o.controlSeq().control(i).feedforward())); h.K.push_back(vec(o.controlSeq().control(i).feedback())); }
  return h;
}
std::string show(const Vec& v) { std::ostringstream o; o.precision(10); for (double d : v) o << " " << d; return o.str(); }

struct Key { int t; Vec v; bool operator<(const Key& o) const { if (t != o.t) return t < o.t; if (v.size() != o.v.size()) return v.size() < o.v.size(); return memcmp(v.data(), o.v.data(), v.size() * 8) < 0; } };
struct Monitor {
  const Problem* p; Ocp* ocp; bool rk = false, lim = false; Vec lo, hi;
  std::vector<int> plan; long calls = 0, limit = 0; int sticky_from = -1, sticky = 0; bool threw = false, faulted = false;
  std::map<Key, std::vector<Vec>> dyn; std::map<Key, Vec> cost;
  Held last; bool inited = false, have = false; double clo = 0, chi = 0; Vec x0; int accepted = 0;
  double first_max = INFINITY;              // the first trajectory must not cost more than this
  void begin(const Held& h) { last = h; x0 = h.x.empty() ? Vec() : h.x[0]; inited = true; have = false; accepted = 0; calls = 0; dyn.clear(); cost.clear(); threw = false; faulted = false; }

  // what the model may have answered to a step from s under c
  void steps(const Vec& s, const Vec& c, int t, std::vector<Vec>& out) {
    auto look = [&](const Vec& q) -> const std::vector<Vec>* { Key k{t, q}; k.v.insert(k.v.end(), c.begin(), c.end()); auto i = dyn.find(k); return i == dyn.end() ? nullptr : &i->second; };
    const std::vector<Vec>* k1 = look(s); if (!k1) return;
    auto add = [&](double f, const Vec& d) { Vec r(s); for (size_t i = 0; i < r.size(); i++) r[i] = s[i] + f * d[i]; return r; };
    for (const Vec& a : *k1) {
      if (!rk) { out.push_back(add(1, a)); continue; }
      const std::vector<Vec>* k2 = look(add(0.5, a)); if (!k2) continue;
      for (const Vec& b : *k2) { const std::vector<Vec>* k3 = look(add(0.5, b)); if (!k3) continue;
        for (const Vec& g : *k3) { const std::vector<Vec>* k4 = look(add(1, g)); if (!k4) continue;
          for (const Vec& h : *k4) { Vec d(s.size()); for (size_t i = 0; i < d.size(); i++) d[i] = (a[i] + h[i]) / 6.0 + (b[i] + g[i]) / 3.0; out.push_back(add(1, d)); } } }
    }
  }
  bool changed() const {
    const OcpBase& o = *ocp;
    if (o.stateSeq().size() != (int)last.x.size() || o.controlSeq().size() != (int)last.u.size()) return true;
    auto diff = [](const Vec& a, const double* b, long n) { return (long)a.size() != n || (n && memcmp(a.data(), b, n * 8)); };
    for (size_t t = 0; t < last.x.size(); t++) { auto& v = o.stateSeq().state(t).stateVector(); if (diff(last.x[t], v.data(), v.size())) return true; }
    for (size_t t = 0; t < last.u.size(); t++) { auto& c = o.controlSeq().control(t); if (diff(last.u[t], c.feedforward().data(), c.feedforward().size()) || diff(last.K[t], c.feedback().data(), c.feedback().size())) return true; }
    return false;
  }
  void observe(const char* when) {
    if (!inited || !changed()) return;
    Held h = held(*ocp);
    bool traj = !(bits(h.x, last.x) && bits(h.u, last.u));
    if ((int)h.x.size() < p->T + 1 || (int)h.u.size() != p->T) violate("inconsistent-trajectory", "%zu states and %zu controls for %d steps (%s)", h.x.size(), h.u.size(), p->T, when);
    for (int t = 0; t <= p->T; t++) if ((int)h.x[t].size() != p->x) violate("inconsistent-trajectory", "state %d has %zu elements (%s)", t, h.x[t].size(), when);
    for (int t = 0; t < p->T; t++) if ((int)h.u[t].size() != p->u || (int)h.K[t].size() != p->u * p->x) violate("inconsistent-trajectory", "control %d has %zu elements and %zu feedback terms (%s)", t, h.u[t].size(), h.K[t].size(), when);
    last = h; accepted++;
    if (!bits(h.x[0], x0)) violate("inconsistent-trajectory", "the initial state changed from%s to%s (%s)", show(x0).c_str(), show(h.x[0]).c_str(), when);
    double nlo = 0, nhi = 0, mag = 0; bool nan_lo = false, nan_hi = false;
    for (int t = 0; t <= p->T; t++) {
      Key k{t, h.x[t]}; if (t < p->T) k.v.insert(k.v.end(), h.u[t].begin(), h.u[t].end()); else k.v.insert(k.v.end(), p->u, 0.0);
      if (t == p->T) k.t = -1;
      if (t < p->T) {
        if (lim) for (int j = 0; j < p->u; j++) if (!(h.u[t][j] >= lo[j] && h.u[t][j] <= hi[j])) violate("control-limit", "control %d of step %d is %.17g, limits %g %g (%s, iterate %d)", j, t, h.u[t][j], lo[j], hi[j], when, accepted);
        std::vector<Vec> s; steps(h.x[t], h.u[t], t, s);
        if (s.empty()) violate("inconsistent-trajectory", "the model was never asked for the step from the held state %d (%s) under the held control (%s) (%s, iterate %d)", t, show(h.x[t]).c_str(), show(h.u[t]).c_str(), when, accepted);
        bool ok = false; for (const Vec& n : s) { bool m = true; for (int i = 0; i < p->x && m; i++) m = close(n[i], h.x[t + 1][i], std::fabs(h.x[t][i])); if (m) { ok = true; break; } }
        if (!ok) violate("inconsistent-trajectory", "state %d is%s, the model gives%s (%s, iterate %d)", t + 1, show(h.x[t + 1]).c_str(), show(s[0]).c_str(), when, accepted);
      }
      auto c = cost.find(k);
      if (c == cost.end()) { nan_lo = true; continue; }          // cost of this step never asked: nothing to say about the total
      double a = INFINITY, b = -INFINITY; bool alln = true; for (double v : c->second) { if (v != v) { nan_lo = true; continue; } alln = false; a = std::min(a, v); b = std::max(b, v); }
      if (alln) { nan_hi = nan_lo = true; continue; }
      nlo += a; nhi += b; mag += std::max(std::fabs(a), std::fabs(b));
    }
    // [nlo, nhi]: what the trajectory can have cost; nan_hi: its cost was surely not a number
    double tol = 1e-11 * mag; if (!(tol < INFINITY)) tol = 0;
    event("iterate %d %s: cost %.17g..%.17g%s", accepted, traj ? "" : "(feedback only)", nlo, nhi, nan_hi ? " nan" : "");
    if (have) {
      if (nan_hi && chi == chi) violate("worse-trajectory", "a trajectory of cost not-a-number replaced one of cost %.17g (%s, iterate %d)", chi, when, accepted);
      if (!nan_lo && nlo == nlo && chi == chi && nlo > chi + tol) violate("worse-trajectory", "a trajectory of cost %.17g replaced one of cost %.17g (%s, iterate %d)", nlo, chi, when, accepted);
    } else if (!nan_lo && !faulted && nlo > first_max + tol) violate("worse-trajectory", "optimising again from a trajectory of cost %.17g starts with one of cost %.17g (%s)", first_max, nlo, when);
    have = true; clo = nan_lo ? NAN : nlo; chi = nan_lo ? NAN : nhi;
  }
  int fault() {
    tick();
    if (limit && calls > limit) violate("no-termination", "%ld model calls in one optimisation, at most %ld are needed for the iteration limit", calls, limit);
    long k = calls++;
    if (sticky_from >= 0 && k >= sticky_from) return sticky;
    return k < (long)plan.size() ? plan[k] : 0;
  }
  void fired(int f) { faulted = true; static std::map<int, std::string> n; std::string& s = n[f]; if (s.empty()) s = std::string("fault.model.") + FAULT[f]; count(s.c_str()); if (f == F_THROW) { threw = true; event("model call %ld throws", calls - 1); throw UserError("user model"); } }
};
StateBase Ocp::dynamics(const StateBase& s, const ControlBase& c, int t) {
  MemOff off; Monitor& m = *mon; m.observe("model call");
  if (t < 0 || t >= p->T || s.stateVector().size() != p->x || c.feedforward().size() != p->u) violate("bad-model-call", "dynamics called for step %d with %d states and %d controls", t, (int)s.stateVector().size(), (int)c.feedforward().size());
  Vec d = p->delta(s.stateVector().data(), c.feedforward().data(), t);
  int f = m.fault();
  if ((f >= F_DNAN && f <= F_DJUMP) || f == F_THROW) { m.fired(f); if (f == F_DNAN) d[m.calls % p->x] = NAN; else if (f == F_DINF) d[m.calls % p->x] = INFINITY; else if (f == F_DHUGE) for (double& v : d) v *= 1e200; else for (double& v : d) v += 3; }
  Key k{t, vec(s.stateVector())}; Vec cv = vec(c.feedforward()); k.v.insert(k.v.end(), cv.begin(), cv.end());
  auto& set = m.dyn[k]; bool have = false; for (auto& e : set) if (bits(e, d)) have = true; if (!have) set.push_back(d);
  StateBase r(p->x); for (int i = 0; i < p->x; i++) r.stateVector()[i] = d[i];
  return r;
}
double Ocp::objective(const StateBase& s, const ControlBase& c, int t, bool fin) {
  MemOff off; Monitor& m = *mon; m.observe("cost call");
  if (t < 0 || t > p->T || fin != (t == p->T) || s.stateVector().size() != p->x || c.feedforward().size() != p->u) violate("bad-model-call", "cost called for step %d (final: %d) with %d states and %d controls", t, (int)fin, (int)s.stateVector().size(), (int)c.feedforward().size());
  double v = p->stage(s.stateVector().data(), c.feedforward().data(), t, fin);
  int f = m.fault();
  if (f >= F_CNAN) { m.fired(f); if (f == F_CNAN) v = NAN; else if (f == F_CINF) v = INFINITY; else if (f == F_CMINF) v = -INFINITY; else if (f == F_CHUGE) v = 1e150; else if (f == F_CLOW) v -= 50; else if (f == F_CUP) v += 50; }
  Key k{fin ? -1 : t, vec(s.stateVector())}; Vec cv = fin ? Vec(p->u, 0.0) : vec(c.feedforward()); k.v.insert(k.v.end(), cv.begin(), cv.end());
  Vec& set = m.cost[k]; bool have = false; for (double e : set) if (!memcmp(&e, &v, 8)) have = true; if (!have) set.push_back(v);
  return v;
}

// ---- one problem, its settings and its solver ---------------------------------------
struct Settings { int iters, ncoef, verbosity = 0; double coef, cost_tol, grad_tol, diverge, reg0, incr; bool limits, store = false, rk = false; Vec lo, hi; };
std::string vecs(const Vec& v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i]; o << "]"; return o.str(); }
std::string config(const Problem& p, const Settings& s) {
  std::ostringstream o; o.precision(17);
  o << "solverlqr_variables:\n  verbosity: " << s.verbosity << "\n  decimal_digits: 4\n  lqr_max_iters: " << s.iters << "\n  linesearch_coeff: " << s.coef << "\n  linesearch_num_coeffs: " << s.ncoef
    << "\n  cost_change_tolerance: " << s.cost_tol << "\n  divergence_limit_check: " << s.diverge << "\n  bpass_regularization_type: 2\n  bpass_min_regularization: 1e-6\n  bpass_max_regularization: 1e10\n  control_gradient_tolerance: " << s.grad_tol
    << "\n  bpass_initial_regularization: " << s.reg0 << "\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: " << s.incr << "\n  bpass_initial_mult_regularization_incr: 1.0\n"
    << "  time_step: 0.5\n  time_horizon: " << p.T / 2 << (p.T % 2 ? ".5" : ".0") << "\n  state_dimension: " << p.x << "\n  control_dimension: " << p.u << "\n  initial_state: " << vecs(p.x0) << "\n  has_control_limits: " << (s.limits ? "True" : "False") << "\n";
  if (s.limits) o << "  min_control_limits: " << vecs(s.lo) << "\n  max_control_limits: " << vecs(s.hi) << "\n";
  o << "  store_data: " << (s.store ? "True" : "False") << "\n  user_parameters:\n    name: user\n";
  return o.str();
}
Problem gen_problem(bool calm) {
  Problem p; p.x = 1 + (int)pick(4, "states"); p.u = 1 + (int)pick(3, "controls"); p.T = 1 + (int)pick(10, "steps");
  p.dyn = calm ? (int)pick(2, "dynamics") : (int)pick(6, "dynamics"); p.cost = calm ? (int)pick(2, "cost") : (int)pick(6, "cost");
  p.A.resize(p.x, p.x); p.B.resize(p.x, p.u);
  for (int i = 0; i < p.x; i++) for (int j = 0; j < p.x; j++) p.A(i, j) = grid(4, 0.5, "model");
  for (int i = 0; i < p.x; i++) for (int j = 0; j < p.u; j++) p.B(i, j) = grid(4, 0.5, "model");
  for (int i = 0; i < p.x; i++) { p.goal.push_back(grid(6, 0.5, "goal")); p.q.push_back((1 + pick(5, "weight")) * 0.5); p.qf.push_back((1 + pick(5, "weight")) * 5); p.x0.push_back(grid(6, 0.5, "start")); }
  for (int j = 0; j < p.u; j++) p.r.push_back(std::pow(10.0, -(double)pick(4, "weight")));
  if (!calm && pick(3, "wall") == 2) { p.wall = 0.5 + pick(8, "wall") * 0.5; p.wall_what = (int)pick(6, "wall-kind"); static const char* w[] = {"dynamics_nan", "dynamics_inf", "cost_nan", "cost_minus_inf", "cost_inf", "cost_huge"}; static char k[64]; snprintf(k, sizeof k, "fault.region.%s", w[p.wall_what]); count(k); }
  return p;
}
Settings gen_settings(const Problem& p, bool calm) {
  Settings s; s.iters = calm ? 60 : 1 + (int)pick(25, "iterations"); s.ncoef = calm ? 10 : 1 + (int)pick(10, "line-search"); s.coef = pick(3, "line-search") == 2 ? 2.0 : 1.1;
  static const double ct[] = {1e-9, 1e-4, 0}; s.cost_tol = calm ? 1e-12 : ct[pick(3, "tolerance")]; s.grad_tol = calm ? 1e-9 : pick(2, "tolerance") ? 1e-6 : 0;
  static const double dv[] = {1e6, 1e3, 1e12, 5}; s.diverge = calm ? 1e8 : dv[pick(4, "divergence-limit")]; s.reg0 = pick(3, "regularisation") == 2 ? 1.0 : 0.1; s.incr = pick(2, "regularisation") ? 1.6 : 1.2;
  s.limits = pick(3, "limits") == 2; s.rk = pick(4, "runge-kutta") == 3; s.verbosity = (int)pick(3, "verbosity");
  for (int j = 0; j < p.u; j++) { double m = grid(4, 0.25, "limit"); s.lo.push_back(m - 0.25 * (1 + pick(4, "limit"))); s.hi.push_back(m + 0.25 * (1 + pick(4, "limit"))); }
  return s;
}
const char* CFG = "/simdisk/lqr.yaml";
const char* RES = "/simdisk/lqr_lqr_results.yaml";
struct Rig {
  Problem p; Settings s; SolverLqrSetting set; Ocp ocp; Monitor mon;
  void setup(const Problem& pp, const Settings& ss) {
    p = pp; s = ss; fs_put(CFG, config(p, s));
    { FsCfg keep = fs_cfg(); fs_cfg() = FsCfg(); set.initialize(CFG); fs_cfg() = keep; }
    set.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = s.rk;
    ocp.p = &p; ocp.mon = &mon; mon.p = &p; mon.ocp = &ocp; mon.rk = s.rk; mon.lim = s.limits; mon.lo = s.lo; mon.hi = s.hi; mon.inited = false;
    ocp.initialize(set);
  }
  void start() {   // the user's first guess
    for (int i = 0; i < p.x; i++) ocp.stateSeq().state(0).stateVector()[i] = p.x0[i];
    int how = (int)pick(3, "guess");
    for (int t = 0; t < p.T; t++) for (int j = 0; j < p.u; j++) ocp.controlSeq().control(t).feedforward()[j] = how == 0 ? 0 : grid(8, how == 1 ? 0.25 : 4, "guess");
  }
  long call_limit() const {
    long roll = (2L * p.T + 1) * (s.rk ? 4 : 1), fd = (s.rk ? 4 : 1) * 2L * p.T * (p.x + p.u) + (p.T + 1) * (2L * (p.x + p.u) + 4L * (p.x * p.x + p.x * p.u + p.u * p.u));
    return 4 * (s.ncoef * roll + (s.iters + 1) * (fd + s.ncoef * roll)) + 1000;
  }
};
// exact optimum of a linear-quadratic problem, by least squares over all controls
double lq_optimum(const Problem& p, bool rk) {
  int n = p.T * p.u; std::vector<Vec> res; 
  auto roll = [&](const Vec& c) { std::vector<double> e; Vec s = p.x0; auto d = [&](const Vec& x, const double* u, int t) { return p.delta(x.data(), u, t); };
    for (int t = 0; t < p.T; t++) { const double* u = c.data() + t * p.u; for (int i = 0; i < p.x; i++) e.push_back(std::sqrt(p.q[i]) * (s[i] - p.goal[i])); for (int j = 0; j < p.u; j++) e.push_back(std::sqrt(p.r[j]) * u[j]);
      Vec k1 = d(s, u, t), st(k1);
      if (rk) { auto ad = [&](double f, const Vec& k) { Vec r(s); for (size_t i = 0; i < r.size(); i++) r[i] += f * k[i]; return r; }; Vec k2 = d(ad(0.5, k1), u, t), k3 = d(ad(0.5, k2), u, t), k4 = d(ad(1, k3), u, t); for (int i = 0; i < p.x; i++) st[i] = (k1[i] + k4[i]) / 6 + (k2[i] + k3[i]) / 3; }
      for (int i = 0; i < p.x; i++) s[i] += st[i]; }
    for (int i = 0; i < p.x; i++) e.push_back(std::sqrt(p.qf[i]) * (s[i] - p.goal[i])); return e; };
  Vec z(n, 0.0), e0 = roll(z); Eigen::MatrixXd J(e0.size(), n); Eigen::VectorXd b = Eigen::Map<Eigen::VectorXd>(e0.data(), e0.size());
  for (int k = 0; k < n; k++) { z[k] = 1; Vec e = roll(z); z[k] = 0; for (size_t i = 0; i < e.size(); i++) J(i, k) = e[i] - e0[i]; }
  Eigen::VectorXd c = J.colPivHouseholderQr().solve(-b);
  return (b + J * c).squaredNorm();
}

void run_c12() {
  std::vector<std::unique_ptr<Rig>> rigs; SolverLqr* solver = new SolverLqr(); std::unique_ptr<SolverLqr> own(solver);
  int ops = 1 + (int)pick_log(4, "operations"); Rig* r = nullptr; std::string hist; bool det_before = false; double cost_before = INFINITY; bool calm = false;
  for (int op = 0; op < ops; op++) {
    int kind = r ? (int)pick(6, "operation") : 0;
    if (kind == 0 || !r) {            // another problem, same solver object (or a new one)
      if (r && pick(2, "new-solver")) { own.reset(new SolverLqr()); solver = own.get(); }
      calm = pick(4, "calm") == 3; Problem p = gen_problem(calm); Settings s = gen_settings(p, calm);
      if (r && pick(2, "reuse-description")) { r->setup(p, s); } else { if (pick(2, "forget")) { MemOff off; rigs.clear(); } rigs.emplace_back(new Rig()); r = rigs.back().get(); r->setup(p, s); }
      solver->initialize(&r->ocp, r->set); r->start(); det_before = false;
      hist += " problem";
    } else if (kind == 1) { solver->initialize(&r->ocp, r->set); hist += " initialize"; }
    else if (kind == 2) { r->start(); det_before = false; hist += " guess"; }
    else if (kind == 3) { for (int i = 0; i < r->p.x; i++) { r->p.x0[i] += grid(2, 0.5, "start"); r->ocp.stateSeq().state(0).stateVector()[i] = r->p.x0[i]; } det_before = false; calm = false; hist += " start"; }
    Monitor& m = r->mon; m.begin(held(r->ocp)); m.limit = r->call_limit(); m.first_max = det_before && !(r->p.wall > 0) ? cost_before : INFINITY;
    m.plan.clear(); m.sticky_from = -1;
    int nf = calm ? 0 : (int)pick(4, "fault-plan"); long span = r->call_limit() / 4; bool once = false;
    if (nf == 1 || nf == 2) { int n = 1 + (int)pick_log(nf == 1 ? 3 : 40, "faults"); long lim = pick(2, "where") ? (2L * r->p.T + 1) * 3 : std::min(span, 20000L); m.plan.assign(lim, 0); int kindf = nf == 2 ? 1 + (int)pick(NF - 1, "fault") : 0; for (int i = 0; i < n; i++) m.plan[pick((uint32_t)lim, "call")] = kindf ? kindf : 1 + (int)pick(NF - 1, "fault"); once = true; }
    if (nf == 3) { m.sticky = 1 + (int)pick(NF - 1, "fault"); m.sticky_from = (int)pick((uint32_t)std::min(span, 20000L), "call"); once = true; }
    (void)once;
    bool threw = false; std::string what; set_budget(3000000000ull);
    try { MemOn on; solver->optimize(); } catch (std::exception& e) { threw = true; what = e.what(); }
    m.observe("end");
    if (m.threw && !threw) count("probe.user_exception_swallowed");
    if (!m.threw && threw) { count("probe.own_exception"); if (!m.faulted && calm) violate("unexpected-exception", "an undisturbed optimisation ends in: %s", what.c_str()); }
    if (m.accepted > 1 && (m.faulted || threw || r->p.wall > 0 || op)) nontrivial();
    if (m.accepted > 1) count("probe.improved"); if (threw) count("probe.exception");
    event("optimised: %d iterates, %ld calls%s", m.accepted, m.calls, threw ? ", exception" : "");
    if (calm && !threw && r->p.dyn == 0 && r->p.cost == 0 && !r->s.limits && m.have && m.chi == m.chi && kind != 4) {
      double opt = lq_optimum(r->p, r->s.rk);
      if (m.chi > opt + 1e-3 * (1 + opt)) violate("not-optimal", "linear-quadratic problem (%d states, %d controls, %d steps): ends at cost %.10g, the optimum is %.10g", r->p.x, r->p.u, r->p.T, m.chi, opt);
      count("probe.lq_optimum");
    }
    det_before = m.have && !m.faulted && !(r->p.wall > 0) && m.chi == m.chi; cost_before = m.chi;
    if (det_before) for (auto& k : m.last.K) for (double v : k) if (!std::isfinite(v)) det_before = false;
    hist += threw ? " optimize->exception" : " optimize";
    state(trace_hash());
  }
  sample("%d states, %d controls, %d steps, dynamics %d, cost %d%s%s%s:%s", r->p.x, r->p.u, r->p.T, r->p.dyn, r->p.cost, r->s.limits ? ", limits" : "", r->s.rk ? ", Runge-Kutta" : "", r->p.wall > 0 ? ", faulty region" : "", hist.c_str());
}

// ---- C13 -----------------------------------------------------------------------------
struct Result { int T, x, u; double dt; std::vector<Vec> states, ff, K; };   // K row-major
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
Vec row(const YAML::Node& n, int len, const std::string& what) { if (!n.IsSequence() || (int)n.size() != len) throw Bad(what); Vec o; for (size_t i = 0; i < n.size(); i++) o.push_back(n[i].as<double>()); return o; }
std::vector<Vec> mat(const YAML::Node& g, const std::string& key, int r, int c) { YAML::Node n = g[key]; if (!n || !n.IsSequence() || (int)n.size() != r) throw Bad(key); std::vector<Vec> o; for (size_t i = 0; i < n.size(); i++) o.push_back(row(n[i], c, key)); return o; }
std::vector<Vec> feedback(const std::string& bytes, int T, int x, int u) {
  YAML::Node root = YAML::Load(bytes); if (!root.IsMap()) throw Bad("no map"); YAML::Node g = root["solverlqr_variables"]; if (!g || !g.IsMap()) throw Bad("no group");
  std::vector<Vec> K; for (int t = 0; t < T; t++) { Vec f; for (auto& v : mat(g, "control_fb_" + std::to_string(t), u, x)) f.insert(f.end(), v.begin(), v.end()); K.push_back(f); }
  return K;
}
Vec rowmajor(const Eigen::MatrixXd& m) { Vec o; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.push_back(m(i, j)); return o; }
bool eq(double a, double b) { return (a != a && b != b) || a == b || std::fabs(a - b) <= 1e-14 * std::fabs(a); }
void compare(const std::string& bytes, const Ocp& o, const Problem& p) {
  std::string where;
  auto same = [&](double a, double b) { if (!eq(a, b)) violate("wrong-file", "the save returned normally; %s is %.17g in the file, %.17g in memory", where.c_str(), a, b); };
  try {
    YAML::Node g = YAML::Load(bytes)["solverlqr_variables"]; if (!g || !g.IsMap()) throw Bad("no group");
    if (g["tdim"].as<int>() != p.T || g["xdim"].as<int>() != p.x || g["udim"].as<int>() != p.u) throw Bad("dimensions");
    where = "dt"; same(g["dt"].as<double>(), o.dt());
    auto st = mat(g, "states", p.x, p.T + 1); auto ff = mat(g, "control_ff", p.u, p.T);
    for (int t = 0; t <= p.T; t++) for (int i = 0; i < p.x; i++) { where = "state " + std::to_string(t); same(st[i][t], o.stateSeq().state(t).stateVector()[i]); }
    for (int t = 0; t < p.T; t++) for (int j = 0; j < p.u; j++) { where = "control " + std::to_string(t); same(ff[j][t], o.controlSeq().control(t).feedforward()[j]); }
    auto K = feedback(bytes, p.T, p.x, p.u);
    for (int t = 0; t < p.T; t++) { Vec k = rowmajor(o.controlSeq().control(t).feedback()); for (size_t i = 0; i < k.size(); i++) { where = "feedback " + std::to_string(t); same(K[t][i], k[i]); } }
    // the settings the result was made with
    if (g["lqr_max_iters"].as<int>() != o.getLqrSetting().get(SolverLqrIntParam_LqrMaxIterations)) throw Bad("settings");
  } catch (std::exception& e) { violate("incomplete-file", "the save returned normally, the file of %zu bytes is not a complete result: %s", bytes.size(), e.what()); }
}
void run_c13() {
  std::string hist; std::vector<std::unique_ptr<Rig>> rigs; std::unique_ptr<SolverLqr> solver(new SolverLqr());
  rigs.emplace_back(new Rig()); Rig* r = rigs.back().get(); Problem p = gen_problem(true); Settings s = gen_settings(p, true); s.iters = 1 + (int)pick(4, "iterations"); s.store = true; s.verbosity = 0;
  r->setup(p, s); solver->initialize(&r->ocp, r->set); r->start(); r->mon.limit = 0;
  int ops = 1 + (int)pick_log(3, "operations"); std::vector<std::string> images;      // files a reader may meet
  if (pick(3, "old-file") == 2) { fs_put(RES, "solverlqr_variables:\n  old: true\n"); }
  for (int op = 0; op < ops; op++) {
    int kind = op == 0 ? 0 : (int)pick(3, "operation");
    if (kind == 0) {                     // optimise and save
      if (op) r->start();
      FsCfg& c = fs_cfg(); c = FsCfg(); int f = (int)pick(8, "disk"); const char* d = "good disk";
      switch (f) { case 1: c.p_short_write = 0.7; c.p_eintr = 0.2; d = "short writes"; break; case 2: c.space = (long)pick(4000, "space"); c.space_once = pick(3, "space-comes-back") == 2; d = "full disk"; break; case 3: c.write_err_after = (long)pick(4000, "bad-write"); c.write_err_sticky = pick(2, "sticky"); d = "write error"; break;
        case 4: c.p_close = 1; d = "close fails"; break; case 5: c.p_open = 0.5; d = "open fails"; break; case 6: c.read_err_at = (long)pick(900, "bad-sector"); d = "settings file unreadable"; break; case 7: c.p_short_read = 0.5; c.p_short_write = 0.5; d = "short reads and writes"; break; }
      bool cfg_lost = pick(8, "settings-lost") == 7; if (cfg_lost) fs_remove(CFG);
      FsStat b = fs_stat(); fs_log_clear(); bool threw = false; std::string what; r->mon.inited = false; Held held0 = held(r->ocp);
      try { solver->optimize(); } catch (std::exception& e) { threw = true; what = e.what(); }
      c = FsCfg(); FsStat a = fs_stat();
      bool trouble = a.open_failed > b.open_failed || a.write_failed > b.write_failed || a.close_failed > b.close_failed || a.read_failed > b.read_failed || cfg_lost;
      std::string bytes; bool have = fs_get(RES, bytes);
      event("save on %s: %s, %zu bytes", d, threw ? "exception" : "normal", have ? bytes.size() : 0); count(threw ? "probe.save_reported" : "probe.saved"); if (trouble) { count("probe.disk_trouble"); nontrivial(); }
      if (fs_open_files()) violate("file-left-open", "%d files open after the save", fs_open_files());
      if (threw && !trouble) violate("good-disk-refused", "optimize() with store_data ends in '%s' although no disk operation failed (%s)", what.c_str(), d);
      bool touched = false; for (const auto& w : fs_log()) if (w.path == RES) touched = true;
      // the first simulation diverged: no solution, nothing saved
      if (cfg_lost) fs_put(CFG, config(r->p, r->s));
      if (!threw && !touched && a.open_failed == b.open_failed && have && bits(held0, held(r->ocp))) { count("probe.diverged"); hist += " diverged"; continue; }
      if (!threw) { if (!have) violate("incomplete-file", "the save returned normally, there is no file (%s)", d); compare(bytes, r->ocp, r->p); }
      if (have) { images.push_back(bytes); for (const auto& w : fs_log()) (void)w; std::string part; for (const auto& w : fs_log()) if (w.path == RES) { if (w.truncate) part.clear(); part += w.data; if (part.size() < bytes.size()) images.push_back(part); } }
      hist += std::string(" save(") + d + (threw ? ")->exception" : ")");
    } else {                             // load into a description, possibly of another size, from a possibly damaged file
      std::string disk; const char* from = "saved file"; bool present = !images.empty(); if (present) disk = images[pick((uint32_t)images.size(), "image")];
      Rig* t = r; if (pick(3, "target") == 2) { rigs.emplace_back(new Rig()); t = rigs.back().get(); Problem q = gen_problem(true); if (pick(2, "same-size")) { q = r->p; } Settings ss = r->s; while ((int)ss.lo.size() < q.u) { ss.lo.push_back(-1); ss.hi.push_back(1); } t->setup(q, ss); t->start(); for (int k = 0; k < q.T; k++) for (int i = 0; i < q.u; i++) for (int j = 0; j < q.x; j++) t->ocp.controlSeq().control(k).feedback()(i, j) = 100 + k; }
      SolverLqr* sv = solver.get(); std::unique_ptr<SolverLqr> other; if (t != r) { other.reset(new SolverLqr()); sv = other.get(); sv->initialize(&t->ocp, t->set); }
      int dmg = (int)pick(6, "damage");
      if (present && !disk.empty()) switch (dmg) {
        case 1: disk.resize(pick((uint32_t)disk.size(), "cut-at")); from = "cut file"; count("fault.file_truncated"); break;
        case 2: { size_t q = pick((uint32_t)disk.size(), "byte"); static const char set[] = "0:-[],# x\n\t'\"{}&*e9.\x01"; disk[q] = set[pick(sizeof set - 1, "new-byte")]; from = "damaged file"; count("fault.file_corrupted"); break; }
        case 3: { size_t q = pick((uint32_t)disk.size(), "hole"), n = 1 + pick(200, "hole-length"); for (size_t i = q; i < disk.size() && i < q + n; i++) disk[i] = 0; from = "torn file"; count("fault.file_torn"); break; }
        case 4: { size_t q = disk.find("control_fb_", pick((uint32_t)disk.size(), "entry")); if (q != std::string::npos) { size_t e = disk.find('\n', q); disk.erase(q, e == std::string::npos ? e : e - q); from = "entry lost"; count("fault.entry_missing"); } break; }
        case 5: present = false; from = "missing file"; count("fault.file_missing"); break; }
      std::string path = "/simdisk/load.yaml"; fs_remove(path); if (present) fs_put(path, disk);
      FsCfg& c = fs_cfg(); c = FsCfg(); int io = (int)pick(5, "disk"); if (io == 1) { c.p_short_read = 0.7; c.p_eintr = 0.3; } else if (io == 2) c.read_err_at = (long)pick((uint32_t)disk.size() + 1, "bad-sector"); else if (io == 3) c.p_open = 1;
      bool ok = present; std::vector<Vec> want; std::string why = "missing"; if (present) try { want = feedback(disk, t->p.T, t->p.x, t->p.u); } catch (std::exception& e) { ok = false; why = e.what(); }
      Held before = held(t->ocp); FsStat b = fs_stat(); bool threw = false; std::string what;
      try { sv->loadSolution(path); } catch (std::exception& e) { threw = true; what = e.what(); }
      c = FsCfg(); FsStat a = fs_stat(); bool io_failed = a.open_failed > b.open_failed || a.read_failed > b.read_failed; Held after = held(t->ocp);
      event("load of %s: %s, %s", from, ok ? "good" : "not good", threw ? "exception" : "normal"); count(threw ? "probe.load_reported" : "probe.loaded"); if (!ok || io) nontrivial();
      if (fs_open_files()) violate("file-left-open", "%d files open after the load", fs_open_files());
      if (threw) {
        if (ok && !io_failed) violate("good-file-refused", "a complete result file is refused: %s (%s)", what.c_str(), from);
        if (!bits(before, after)) violate("half-loaded", "the load failed (%s) and left a changed trajectory or feedback behind", what.c_str());
      } else {
        if (!ok) violate("bad-file-accepted", "a %s (%s) is loaded without an error%s", from, why.c_str(), bits(before, after) ? "" : ", the feedback was changed");
        if (io_failed) violate("read-error-accepted", "the file could not be read and the load returned normally");
        for (int k = 0; k < t->p.T; k++) { Vec g = rowmajor(t->ocp.controlSeq().control(k).feedback()); if (g.size() != want[k].size()) violate("wrong-value", "feedback %d has %zu elements", k, g.size()); for (size_t i = 0; i < g.size(); i++) if (!eq(g[i], want[k][i])) violate("wrong-value", "feedback %d: %.17g loaded, %.17g in the file", k, g[i], want[k][i]); }
      }
      hist += std::string(" load(") + from + (threw ? ")->exception" : ")");
    }
    state(trace_hash());
  }
  sample("%d states, %d controls, %d steps:%s", p.x, p.u, p.T, hist.c_str());
}
}
static void run() {
  static bool once = [] { std::cout.rdbuf(&nullbuf); return true; }(); (void)once;
  mem_begin(); mem_fill(pick(2, "memory-fill") ? 0x7f : 0x01);
  fs_begin();
  if (prop() == "C13") run_c13(); else run_c12();
  state(trace_hash());
}
int main(int argc, char** argv) { return sim::main(argc, argv, run); }
