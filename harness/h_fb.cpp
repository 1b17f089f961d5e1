// C19: feedback on momentum plans, over histories of one object, failing memory
// and damaged configuration files.
#include "../sim/sim.hpp"
#include "../sim/sim_fs.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
using namespace sim;
using namespace solverlqr;
using namespace momentumopt;
typedef std::vector<double> Vec;
typedef Eigen::Vector3d V3;
typedef long double R;
typedef Eigen::Matrix<R, Eigen::Dynamic, 1> RV;
typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> RM;
typedef Eigen::Matrix<R, 3, 1> R3;

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nullbuf;
const char* CFG = "/simdisk/robot.yaml";
const char* SECTION = "solverlqr_dynamics";
std::string g_shipped;      // a configuration of the repository, without its feedback section

// ---- what the user asks for -------------------------------------------------------------
struct Step { double dt; V3 com, lmom, amom; bool on[4]; V3 frc[4], pos[4]; };
struct Plan { V3 com, lmom, amom; std::vector<Step> s; };
struct Setup { int T, udim, nact, iters, ncoef; double coef, diverge, reg0, gtol, mass, mg; V3 grav; V3 w[7]; bool rk; double dt; };
const char* W[] = {"control_cost", "com_tracking", "lmom_tracking", "amom_tracking", "com_final_tracking", "lmom_final_tracking", "amom_final_tracking"};
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string v3(const V3& v) { return "[" + num(v.x()) + ", " + num(v.y()) + ", " + num(v.z()) + "]"; }
// how: what is wrong with the file (0: nothing)
std::string yaml(const Setup& s, int how, int which) {
  std::ostringstream o; std::vector<std::string> l;
  auto add = [&](const std::string& k, const std::string& v) { l.push_back("  " + k + ": " + v); };
  add("verbosity", "0"); add("decimal_digits", "4"); add("lqr_max_iters", std::to_string(s.iters)); add("linesearch_coeff", num(s.coef)); add("linesearch_num_coeffs", std::to_string(s.ncoef)); add("cost_change_tolerance", "1e-9"); add("divergence_limit_check", num(s.diverge));
  add("bpass_regularization_type", "2"); add("bpass_min_regularization", "1e-6"); add("bpass_max_regularization", "1e10"); add("control_gradient_tolerance", num(s.gtol)); add("bpass_initial_regularization", num(s.reg0)); add("min_expected_cost_improvement", "0.2"); add("bpass_mult_regularization_incr", "1.2"); add("bpass_initial_mult_regularization_incr", "1.0");
  add("time_step", num(s.dt)); add("time_horizon", num((s.T + 0.5) * s.dt)); add("state_dimension", how == 5 ? (which % 2 ? "12" : "6") : "9"); add("control_dimension", std::to_string(how == 6 ? 3 * s.nact - 3 : s.udim)); add("initial_state", "[0, 0, 0, 0, 0, 0, 0, 0, 0]"); add("has_control_limits", "false"); add("store_data", "false");
  if (how == 3) l.erase(l.begin() + which % l.size());
  if (how == 4) { std::string& e = l[which % l.size()]; e = e.substr(0, e.find(':')) + ": many"; }
  l.push_back("  user_parameters:");
  for (int k = 0; k < 7; k++) { if (how == 1 && k == which % 7) continue; std::string v = v3(s.w[k]); if (how == 2 && k == which % 7) v = which % 3 == 0 ? "[1, 2]" : which % 3 == 1 ? "[1, 2, 3, 4]" : "1.0"; l.push_back(std::string("    ") + W[k] + ": " + v); }
  o << g_shipped << "\n" << SECTION << ":\n"; for (auto& e : l) o << e << "\n";
  return o.str();
}
V3 rnd3(int n, double s, const char* tag) { double a = grid(n, s, tag), b = grid(n, s, tag), c = grid(n, s, tag); return V3(a, b, c); }
V3 wvec(double unit, const char* tag) { static const double f[] = {1, 0, 10, 0.1}; double a = f[pick(4, tag)], b = f[pick(4, tag)], c = f[pick(4, tag)]; return V3(a, b, c) * unit; }
Setup gen_setup() {
  Setup s; s.T = 1 + (int)pick(14, "steps"); s.nact = 1 + (int)pick(4, "end-effectors"); s.udim = pick(3, "controls") == 2 ? 12 : 3 * s.nact;
  static const int it[] = {1, 1, 1, 2, 3, 4, 0}; s.iters = it[pick(7, "iterations")]; s.ncoef = 1 + (int)pick(10, "line-search"); s.coef = pick(3, "line-search") == 2 ? 2.0 : 1.1; static const double dv[] = {1e6, 1e6, 30}; s.diverge = dv[pick(3, "divergence-limit")];
  static const double r0[] = {0.1, 0.1, 1, 0.02}; s.reg0 = r0[pick(4, "regularisation")]; s.gtol = pick(3, "tolerance") == 2 ? 1e-3 : 1e-6; static const double dt[] = {0.01, 0.005, 0.1, 0.05}; s.dt = dt[pick(4, "time-step")];
  s.mass = 1 + pick(8, "mass") * 0.5; s.grav = V3(0, 0, -9.81); if (pick(4, "gravity") == 3) s.grav = rnd3(4, 2, "gravity"); s.mg = s.mass * 9.81; s.rk = pick(4, "runge-kutta") == 3;
  static const double cu[] = {1e-3, 1e-2, 1e-4, 0}; double u = cu[pick(4, "control-cost")]; s.w[0] = V3(u, u * (1 + pick(3, "control-cost")), u);
  for (int k = 1; k < 7; k++) s.w[k] = wvec(1, "tracking");
  return s;
}
Plan gen_plan(const Setup& s) {
  Plan p; bool exact = pick(3, "plan-kind") == 2, quiet = exact && pick(2, "plan-kind"); p.com = V3(0, 0, 0.25) + rnd3(3, 0.02, "start"); p.lmom = rnd3(3, 0.1, "start"); p.amom = rnd3(3, 0.05, "start");
  V3 c = p.com, l = p.lmom, a = p.amom; V3 home[4]; int stance[4];
  for (int e = 0; e < 4; e++) { home[e] = V3(e / 2 ? -0.2 : 0.2, e % 2 ? 0.15 : -0.15, 0) + rnd3(3, 0.02, "contact"); stance[e] = (int)pick(4, "contact-pattern"); }
  bool even = pick(3, "even-steps") != 2;
  for (int t = 0; t < s.T; t++) {
    Step k; k.dt = even ? s.dt : s.dt * (0.5 + 0.25 * pick(5, "step-length")); int n = 0;
    for (int e = 0; e < 4; e++) { k.on[e] = stance[e] == 0 || (stance[e] == 1 && t % 4 < 2) || (stance[e] == 2 && t >= s.T / 2) || (stance[e] == 3 && pick(2, "contact")); k.pos[e] = home[e] + (t / 3) * V3(0.02, 0, 0); if (e < s.nact && k.on[e]) n++; }
    V3 f = V3::Zero(); for (int e = 0; e < 4; e++) { k.frc[e] = n && !quiet ? V3(-s.grav / (9.81 * n)) : V3::Zero(); if (!quiet) k.frc[e] += rnd3(3, 0.05, "force"); if (!k.on[e] && pick(3, "stale-force") != 2) k.frc[e].setZero(); }
    {
      for (int e = 0; e < s.nact; e++) if (k.on[e]) f += s.mg * k.frc[e];
      l += k.dt * (s.mass * s.grav + f); c += k.dt / s.mass * l; for (int e = 0; e < s.nact; e++) if (k.on[e]) a += k.dt * (k.pos[e] - c).cross(s.mg * k.frc[e]);
    }
    k.com = c; k.lmom = l; k.amom = a; if (!exact) { k.com += rnd3(2, 0.005, "motion"); k.lmom += rnd3(2, 0.05, "motion"); k.amom += rnd3(2, 0.02, "motion"); } p.s.push_back(k);
  }
  if (pick(12, "bad-plan") == 11) { Step& k = p.s[pick((uint32_t)p.s.size(), "bad-step")]; int e = (int)pick(4, "bad-end-effector"); k.frc[e].y() = pick(2, "bad-value") ? NAN : 1e300; if (k.on[e] && e < s.nact) count("fault.plan_not_finite"); }
  return p;
}
void fill(const Plan& p, DynamicsState& ini, DynamicsSequence& seq) {
  ini.centerOfMass() = p.com; ini.linearMomentum() = p.lmom; ini.angularMomentum() = p.amom; seq.resize((int)p.s.size());
  for (size_t t = 0; t < p.s.size(); t++) { DynamicsState& d = seq.dynamicsState((int)t); const Step& k = p.s[t]; d.time() = k.dt; d.centerOfMass() = k.com; d.linearMomentum() = k.lmom; d.angularMomentum() = k.amom; for (int e = 0; e < 4; e++) { d.endeffectorActivation(e) = k.on[e]; d.endeffectorForce(e) = k.frc[e]; d.endeffectorPosition(e) = k.pos[e]; } }
}

// ---- independent model: momentum dynamics and costs ------------------------------------------
struct Ref {
  const Setup& s; const Plan& p; Ref(const Setup& ss, const Plan& pp) : s(ss), p(pp) {}
  bool on(int t, int e) const { return e < s.nact && p.s[t].on[e]; }
  RV delta(const RV& x, const RV& u, int t) const {
    const Step& k = p.s[t]; R dt = k.dt; R3 f = R(s.mass) * s.grav.cast<R>(); for (int e = 0; e < 4; e++) if (on(t, e)) f += u.segment<3>(3 * e);
    R3 dl = dt * f, dc = dt / R(s.mass) * (R3(x.segment<3>(3)) + dl), da = R3::Zero(); R3 c = R3(x.head<3>()) + dc;
    for (int e = 0; e < 4; e++) if (on(t, e)) da += dt * (R3(k.pos[e].cast<R>()) - c).cross(R3(u.segment<3>(3 * e)));
    RV d(9); d << dc, dl, da; return d;
  }
  RV step(const RV& x, const RV& u, int t) const {
    RV k1 = delta(x, u, t); if (!s.rk) return x + k1;
    RV k2 = delta(x + k1 / 2, u, t), k3 = delta(x + k2 / 2, u, t), k4 = delta(x + k3, u, t); return x + (k1 + k4) / 6 + (k2 + k3) / 3;
  }
  R3 weight(int what, bool fin) const { return (fin ? s.w[4 + what] : s.w[1 + what]).cast<R>(); }
  RV goal(int t) const { const Step& k = p.s[t > 0 ? t - 1 : 0]; RV g(9); g << k.com.cast<R>(), k.lmom.cast<R>(), k.amom.cast<R>(); return g; }
  RV wx(bool fin) const { RV w(9); w << weight(0, fin), weight(1, fin), weight(2, fin); return w; }
  RV wu(int t) const { RV w = RV::Zero(s.udim); for (int e = 0; e < 4; e++) if (on(t, e)) w.segment<3>(3 * e) = s.w[0].cast<R>(); return w; }
  R stage(const RV& x, const RV& u, int t) const { bool fin = t == s.T; RV e = x - goal(t); R v = e.cwiseAbs2().dot(wx(fin)); if (!fin) v += u.cwiseAbs2().dot(wu(t)); return v; }
  RV plan_u(int t) const { RV u = RV::Zero(s.udim); for (int e = 0; e < 4; e++) if (on(t, e)) u.segment<3>(3 * e) = (s.mg * p.s[t].frc[e]).cast<R>(); return u; }
  RV x0() const { RV x(9); x << p.com.cast<R>(), p.lmom.cast<R>(), p.amom.cast<R>(); return x; }
};
struct Held { std::vector<Vec> x, u, K; bool threw = false; std::string what; };
template <class M> Vec vec(const M& m) { return Vec(m.data(), m.data() + m.size()); }
bool bits(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
bool bits(const std::vector<Vec>& a, const std::vector<Vec>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!bits(a[i], b[i])) return false; return true; }
RV rv(const Vec& v) { RV r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
RM gain(const Vec& v, int u) { RM m(u, 9); for (int j = 0; j < 9; j++) for (int i = 0; i < u; i++) m(i, j) = v[j * u + i]; return m; }

// gains and steps of the Riccati recursion along a trajectory; false where it breaks down
struct Riccati { std::vector<RM> K; std::vector<RV> l; };
bool riccati(const Ref& r, const std::vector<RV>& X, const std::vector<RV>& U, R lambda, Riccati& out) {
  int T = r.s.T, n = 9, m = r.s.udim; out.K.assign(T, RM::Zero(m, n)); out.l.assign(T, RV::Zero(m));
  RM S = 2 * RM(r.wx(true).asDiagonal()); RV s = 2 * r.wx(true).cwiseProduct(X[T] - r.goal(T));
  for (int t = T - 1; t >= 0; t--) {
    RM A(n, n), B(n, m); const R h = 1e-4L;
    for (int i = 0; i < n; i++) { RV a = X[t], b = X[t]; a[i] += h; b[i] -= h; A.col(i) = (r.step(a, U[t], t) - r.step(b, U[t], t)) / (2 * h); }
    for (int i = 0; i < m; i++) { RV a = U[t], b = U[t]; a[i] += h; b[i] -= h; B.col(i) = (r.step(X[t], a, t) - r.step(X[t], b, t)) / (2 * h); }
    RM Q = 2 * RM(r.wx(false).asDiagonal()), Rm = 2 * RM(r.wu(t).asDiagonal()); RV q = 2 * r.wx(false).cwiseProduct(X[t] - r.goal(t)), ru = 2 * r.wu(t).cwiseProduct(U[t]);
    RM H = Rm + B.transpose() * S * B + lambda * RM::Identity(m, m), G = B.transpose() * S * A; RV g = ru + B.transpose() * s;
    Eigen::LDLT<RM> f(H); if (f.info() != Eigen::Success || !(f.vectorD().minCoeff() > 0)) return false;
    RM L = -f.solve(G); RV l = -f.solve(g); out.K[t] = L; out.l[t] = l;
    s = q + A.transpose() * s + L.transpose() * H * l + G.transpose() * l + L.transpose() * g;
    RM Sn = Q + A.transpose() * S * A + L.transpose() * H * L + L.transpose() * G + G.transpose() * L; S = (Sn + Sn.transpose().eval()) / 2;
  }
  return true;
}
R rollout(const Ref& r, const std::vector<RV>& U, const std::vector<RM>* K, const std::vector<RV>* nom, std::vector<RV>& X, std::vector<RV>& V, bool& div) {
  X = {r.x0()}; V.clear(); R c = 0; div = false;
  for (int t = 0; t < r.s.T; t++) { RV u = U[t]; if (K) u += (*K)[t] * (X[t] - (*nom)[t]); V.push_back(u); RV n = r.step(X[t], u, t); c += r.stage(X[t], u, t); for (int i = 0; i < 9; i++) if (!(std::fabs((double)n[i]) <= r.s.diverge)) div = true; for (int i = 0; i < u.size(); i++) if (u[i] != u[i]) div = true; X.push_back(n); }
  return c + r.stage(X[r.s.T], RV::Zero(r.s.udim), r.s.T);
}

// ---- the code under test -----------------------------------------------------------------------
struct Objects {
  Setup s; PlannerSetting plan; SolverLqrSetting lqr; bool wrap; std::unique_ptr<DynamicsFeedbackWrapper> w; std::unique_ptr<DynamicsFeedback> d; std::unique_ptr<SolverLqr> solver;
  DynamicsState ini; DynamicsSequence seq; int T = 0;
  void make(bool wrapper) { wrap = wrapper; if (wrap) { w.reset(new DynamicsFeedbackWrapper()); d.reset(); solver.reset(); } else { w.reset(); d.reset(new DynamicsFeedback()); solver.reset(new SolverLqr()); } }
  // reads the settings from the disk, as a user's programme does
  void setup(const Setup& ss) {
    s = ss; plan.initialize(CFG); lqr.initialize(CFG, SECTION);
    plan.get(PlannerDoubleParam_RobotMass) = s.mass; plan.get(PlannerDoubleParam_MassTimesGravity) = s.mg; plan.get(PlannerVectorParam_GravityVector) = s.grav; plan.get(PlannerIntParam_NumActiveEndeffectors) = s.nact; lqr.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = s.rk;
    if (wrap) w->initialize(lqr, plan); else { d->initialize(lqr); d->setPlannerSetting(plan); solver->initialize(d.get(), lqr); }
  }
  void optimize() { if (wrap) w->optimize(ini, seq); else { d->setStatesAndControls(ini, seq); solver->optimize(); } }
  Held held(int steps) {
    Held h; 
    if (wrap) { for (int t = 0; t < steps; t++) { Eigen::MatrixXd g = w->forceGain(t); if (g.rows() != s.udim || g.cols() != 9) violate("gain-size", "the gain of step %d is %dx%d for %d controls", t, (int)g.rows(), (int)g.cols(), s.udim); h.K.push_back(vec(g)); }
      if (steps) { Vec a = vec(w->forceGain(-1 - (int)pick(5, "early"))), b = vec(w->forceGain(steps + (int)pick(5, "late"))); if (!bits(a, h.K[0]) || !bits(b, h.K[steps - 1])) violate("gain-outside-plan", "the gain for a time before the start or after the end of the plan is not that of the first or last step"); } }
    else { if (d->controlSeq().size() != steps || d->stateSeq().size() != steps + 1) violate("inconsistent-trajectory", "%d states and %d controls for %d steps", d->stateSeq().size(), d->controlSeq().size(), steps);
      for (int t = 0; t < steps; t++) { h.u.push_back(vec(d->controlSeq().control(t).feedforward())); h.K.push_back(vec(d->controlSeq().control(t).feedback())); if ((int)h.u[t].size() != s.udim || (int)h.K[t].size() != 9 * s.udim) violate("gain-size", "step %d: %zu controls, %zu feedback terms", t, h.u[t].size(), h.K[t].size()); }
      for (int t = 0; t <= steps; t++) h.x.push_back(vec(d->stateSeq().state(t).stateVector())); }
    return h;
  }
};
// the same with objects that have no past
Held fresh(const Setup& s, const Plan& p, int iters) {
  std::string keep; bool had = fs_get(CFG, keep); FsCfg io = fs_cfg(); fs_cfg() = FsCfg();
  Setup q = s; q.iters = iters; fs_put(CFG, yaml(q, 0, 0)); std::unique_ptr<Objects> o(new Objects()); o->make(false); Held h;
  try { o->setup(q); fill(p, o->ini, o->seq); o->optimize(); h = o->held(s.T); } catch (std::exception& e) { h.threw = true; h.what = e.what(); }
  if (had) fs_put(CFG, keep); fs_cfg() = io; return h;
}
bool closev(const RV& a, const RV& b, R tol) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!(std::fabs((double)(a[i] - b[i])) <= tol * (1 + std::fabs((double)b[i])))) return false; return true; }
std::string show(const RV& v) { std::ostringstream o; o.precision(8); for (int i = 0; i < v.size(); i++) o << " " << (double)v[i]; return o.str(); }

// judges the results for 0, 1, ..., iters iterations of the undisturbed optimiser
void judge(const Setup& s, const Plan& p, const std::vector<Held>& h) {
  Ref r(s, p); int T = s.T; R lambda_last = s.reg0;
  // which share of the planned forces can be simulated at all
  std::vector<RV> U0, X, V; bool div = true; int j = 0;
  for (; j < s.ncoef; j++) { double a = std::pow(s.coef, -(double)(j * j)); U0.clear(); for (int t = 0; t < T; t++) U0.push_back(a * r.plan_u(t)); rollout(r, U0, nullptr, nullptr, X, V, div); if (!div) break; }
  if (div) {
    count("probe.plan_diverges");
    for (const Held& k : h) { if (k.threw) violate("unexpected-exception", "feedback on a plan that cannot be simulated ends in: %s", k.what.c_str()); for (auto& g : k.K) for (double v : g) if (v != 0) violate("gain-without-trajectory", "the plan cannot be simulated, still there are feedback gains (%g)", v); }
    return;
  }
  for (size_t k = 0; k < h.size(); k++) {
    const Held& o = h[k]; if (o.threw) violate("unexpected-exception", "undisturbed feedback optimisation ends in: %s", o.what.c_str());
    std::vector<RV> hx, hu; for (auto& v : o.x) hx.push_back(rv(v)); for (auto& v : o.u) hu.push_back(rv(v));
    for (auto& g : o.K) for (double v : g) if (!std::isfinite(v)) violate("gain-not-finite", "a feedback gain is %g", v);
    if (!closev(hx[0], r.x0(), 1e-12)) violate("inconsistent-trajectory", "the trajectory starts at%s, the given initial state is%s", show(hx[0]).c_str(), show(r.x0()).c_str());
    R cost = 0; for (int t = 0; t < T; t++) { RV n = r.step(hx[t], hu[t], t); if (!closev(hx[t + 1], n, 1e-9)) violate("inconsistent-trajectory", "state %d is%s, the momentum dynamics give%s (iteration %zu)", t + 1, show(hx[t + 1]).c_str(), show(n).c_str(), k); cost += r.stage(hx[t], hu[t], t); } cost += r.stage(hx[T], RV::Zero(s.udim), T);
    if (k == 0) {
      for (int t = 0; t < T; t++) { if (!closev(hu[t], U0[t], 1e-9)) violate("wrong-start", "the forces of step %d are%s, those of the plan%s (share %d)", t, show(hu[t]).c_str(), show(U0[t]).c_str(), j); for (double v : o.K[t]) if (v != 0) violate("wrong-gain", "there is a feedback gain before the first iteration"); }
      continue;
    }
    const Held& b = h[k - 1]; std::vector<RV> bx, bu; for (auto& v : b.x) bx.push_back(rv(v)); for (auto& v : b.u) bu.push_back(rv(v));
    R before = 0; for (int t = 0; t < T; t++) before += r.stage(bx[t], bu[t], t); before += r.stage(bx[T], RV::Zero(s.udim), T);
    if (!(cost <= before + 1e-9L * (1 + before))) violate("worse-trajectory", "iteration %zu: cost %.12Lg after %.12Lg", k, cost, before);
    bool same_traj = bits(o.x, b.x) && bits(o.u, b.u), same_gain = bits(o.K, b.K); Riccati ric;
    if (same_traj && same_gain) {
      // nothing was accepted: then neither was there something to accept, nor was the plan optimal already
      if (k > 1) { count("probe.stopped"); continue; }
      if (!riccati(r, bx, bu, s.reg0, ric)) continue;
      R grad = 0; for (int t = 0; t < T; t++) { R m = 0; for (int i = 0; i < s.udim; i++) m = std::max(m, std::fabs(ric.l[t][i]) / (std::fabs(bu[t][i]) + 1)); grad += m / T; }
      R big = 0; for (auto& K : ric.K) big = std::max(big, K.cwiseAbs().maxCoeff());
      if (grad < 0.5 * s.gtol && big > 1e-6) violate("no-gain", "the plan is optimal (gradient %.3Lg) and gets no feedback, gains of up to %.3Lg are due", grad, big);
      if (grad > 2 * s.gtol) for (int i = 0; i < s.ncoef; i++) { R a = std::pow(s.coef, -(double)(i * i)); std::vector<RV> U; for (int t = 0; t < T; t++) U.push_back(bu[t] + a * ric.l[t]); bool dv; R c = rollout(r, U, &ric.K, &bx, X, V, dv); if (!dv && c < before - 1e-4L * (1e-3L + before) && big > 1e-6) violate("no-gain", "the step of length %.3Lg improves the cost from %.8Lg to %.8Lg, none was taken and there is no feedback", a, before, c); }
      count("probe.nothing_to_improve"); continue;
    }
    // the regularisation in use: given for the first iteration, afterwards whatever explains the last gain
    // second differences with steps of 2^-17 of costs of this size are this inaccurate
    R top = 0; for (int t = 0; t < T; t++) top = std::max(top, r.stage(bx[t], bu[t], t)); top = std::max(top, r.stage(bx[T], RV::Zero(s.udim), T));
    if (top > 3) { count("probe.cost_too_large_to_judge_gains"); lambda_last = s.reg0; continue; }
    R noise = 4e-6L * (1 + top);
    auto fits = [&](R lambda, std::string* why) {
      if (!riccati(r, bx, bu, lambda, ric)) { if (why) *why = "not positive definite"; return false; }
      R big = 0; for (auto& K : ric.K) big = std::max(big, K.cwiseAbs().maxCoeff());
      for (int t = 0; t < T; t++) { RM K = gain(o.K[t], s.udim); for (int a = 0; a < K.rows(); a++) for (int c = 0; c < 9; c++) if (!(std::fabs((double)(K(a, c) - ric.K[t](a, c))) <= (1e-3L + 10 * noise / lambda) * (1 + big))) { if (why) { char m[200]; snprintf(m, sizeof m, "gain (%d, %d) of step %d is %.8g, the recursion gives %.8g (regularisation %.4g)", a, c, t, (double)K(a, c), (double)ric.K[t](a, c), (double)lambda); *why = m; } return false; } }
      return true;
    };
    std::string why; bool ok = fits(lambda_last, &why);
    if (!ok && k > 1) { R m = s.reg0, mult = 1; std::vector<R> cand; R l = s.reg0; (void)m; for (int i = 0; i < 6; i++) { mult = std::min(mult / 1.2L, 1 / 1.2L); l *= mult; cand.push_back(l); } l = s.reg0; mult = 1; for (int i = 0; i < 6; i++) { mult = std::max(mult * 1.2L, 1.2L); l *= mult; cand.push_back(l); }
      for (R a : {1.0L, 1 / 1.2L, 1 / 1.44L, 1.2L, 1.44L}) for (R b2 : {1.0L, 1 / 1.2L, 1 / 1.44L, 1 / 1.728L, 1.2L, 1.44L}) for (R c2 : {1.0L, 1 / 1.2L, 1 / 1.44L, 1 / 1.728L, 1.2L, 1.44L}) cand.push_back(s.reg0 * a * b2 * c2);
      for (R c : cand) if (fits(c, nullptr)) { ok = true; lambda_last = c; break; } }
    if (!ok) violate("wrong-gain", "iteration %zu: %s", k, why.c_str());
    for (int t = 0; t < T; t++) { RM K = gain(o.K[t], s.udim); for (int e = 0; e < s.udim / 3; e++) if (!r.on(t, e) && K.block(3 * e, 0, 3, 9).cwiseAbs().maxCoeff() > 1e-3 + 10 * noise / lambda_last) violate("gain-of-free-effector", "end effector %d is not in contact at step %d and has a gain of %.3g", e, t, (double)K.block(3 * e, 0, 3, 9).cwiseAbs().maxCoeff()); }
    count("probe.gains_judged");
  }
}

void run_fb() {
  std::unique_ptr<Objects> o(new Objects()); o->make(pick(2, "interface") == 0); std::string hist; bool ready = false; Setup s; int ops = 1 + (int)pick_log(4, "operations"); bool used = false; int bad = 0, which = 0;
  fs_cfg() = FsCfg();
  for (int op = 0; op < ops; op++) {
    int kind = ready ? (int)pick(5, "operation") : 0; set_budget(20000000000ull);
    if (kind == 0 || !ready) {
      s = gen_setup(); bad = pick(4, "settings") == 3 ? 1 + (int)pick(6, "damage") : 0; which = bad ? (int)pick(100, "entry") : 0; std::string text = yaml(s, bad, which); bool mangled = false;
      static const char* D[] = {"good settings", "weight missing", "weight of wrong size", "entry missing", "entry ill-typed", "wrong state dimension", "too few controls"};
      fs_put(CFG, text); FsCfg& c = fs_cfg(); c = FsCfg(); int io = (int)pick(8, "disk"); if (io == 5) { c.p_short_read = 0.6; c.p_eintr = 0.2; } else if (io == 6) c.read_err_at = (long)pick((uint32_t)text.size(), "bad-sector"); else if (io == 7) { c.p_open = 0.4; }
      long mf = mem_failures(); if (pick(6, "memory") == 5) mem_fail_at((long)pick_log(20000, "failing-allocation"), pick(3, "sticky") == 2);
      if (pick(4, "new-object") == 3) { MemOff off; o.reset(new Objects()); o->make(pick(2, "interface") == 0); used = false; }
      FsStat b = fs_stat(); bool threw = false; std::string what; try { MemOn on; o->setup(s); } catch (std::exception& e) { threw = true; what = e.what(); }
      mem_fail_at(-1, false); bool nomem = mem_failures() > mf; FsStat a = fs_stat(); c = FsCfg(); bool io_failed = a.open_failed > b.open_failed || a.read_failed > b.read_failed; (void)mangled;
      event("settings (%s): %s", D[bad], threw ? "exception" : "normal"); hist += std::string(" settings(") + D[bad] + (nomem ? ", no memory" : "") + (io_failed ? ", disk" : "") + (threw ? ")->exception" : ")"); if (bad) { static char k[64]; snprintf(k, sizeof k, "fault.settings_%s", D[bad]); for (char* q = k; *q; q++) if (*q == ' ' || *q == '-') *q = '_'; count(k); }
      if (fs_open_files()) violate("file-left-open", "%d files open after reading the settings", fs_open_files());
      if (threw && !bad && !nomem && !io_failed) violate("good-settings-refused", "complete settings are refused: %s", what.c_str());
      if (!threw && (io_failed || (bad >= 1 && bad <= 4))) violate("bad-settings-accepted", "initialisation returns normally although %s", io_failed ? "the settings could not be read" : D[bad]);
      if (!threw && nomem) count("probe.survived_no_memory");
      if (threw) { nontrivial(); fs_put(CFG, yaml(s, 0, 0)); }
      ready = !threw; continue;
    }
    Plan p = gen_plan(s); bool wrong_size = pick(10, "plan-length") == 9; if (wrong_size) { if (pick(2, "plan-length") && p.s.size() > 1) p.s.pop_back(); else p.s.push_back(p.s.back()); count("fault.plan_length"); }
    fill(p, o->ini, o->seq); bool reported_due = wrong_size || bad;
    long mf = mem_failures(); bool armed = pick(4, "memory") == 3; if (armed) mem_fail_at((long)pick_log(60000, "failing-allocation"), pick(3, "sticky") == 2);
    bool threw = false; std::string what; try { MemOn on; o->optimize(); } catch (std::exception& e) { threw = true; what = e.what(); }
    mem_fail_at(-1, false); bool nomem = mem_failures() > mf;
    event("optimise (%s%s): %s", wrong_size ? "plan of another length" : "plan", nomem ? ", no memory" : "", threw ? "exception" : "normal"); hist += std::string(" optimize(") + (wrong_size ? "other length" : "") + (nomem ? "no memory" : "") + (threw ? ")->exception" : ")");
    if (nomem) { nontrivial(); count(threw ? "probe.no_memory_reported" : "probe.no_memory_survived"); }
    if (reported_due) { if (!threw) violate("mismatch-accepted", "%s is not reported", wrong_size ? "a plan whose length is not that of the settings" : bad == 5 ? "a wrong state dimension" : "a control dimension too small for the end effectors"); nontrivial(); continue; }
    if (threw) { if (!nomem) violate("unexpected-exception", "undisturbed feedback optimisation ends in: %s", what.c_str()); used = true; continue; }
    if (nomem) { used = true; continue; }
    Held got = o->held(s.T); std::vector<Held> h; for (int k = 0; k <= s.iters; k++) h.push_back(fresh(s, p, k));
    if (h.back().threw) violate("unexpected-exception", "undisturbed feedback optimisation ends in: %s", h.back().what.c_str());
    if (!bits(got.K, h.back().K)) { int t = 0; while (bits(got.K[t], h.back().K[t])) t++; int i = 0; while (!memcmp(&got.K[t][i], &h.back().K[t][i], 8)) i++; violate("history", "the gain of step %d depends on what was computed before: %.17g, with new objects %.17g", t, got.K[t][i], h.back().K[t][i]); }
    if (!o->wrap && (!bits(got.x, h.back().x) || !bits(got.u, h.back().u))) violate("history", "the trajectory depends on what was computed before");
    judge(s, p, h); if (used) nontrivial(); used = true;
    for (auto& g : got.K) hash_bits(g.data(), g.size() * 8);
    state(trace_hash());
  }
  sample("%d steps, %d end effectors, %d iterations%s:%s", s.T, s.nact, s.iters, s.rk ? ", Runge-Kutta" : "", hist.c_str());
}
}
static void run() {
  static bool once = [] { std::cout.rdbuf(&nullbuf); return true; }(); (void)once;
  mem_begin(); mem_fill(pick(2, "memory-fill") ? 0x7f : 0x01);
  fs_begin();
  run_fb();
  state(trace_hash());
}
int main(int argc, char** argv) {
  const char* repo = FB_REPO; std::ifstream f(std::string(repo) + "/momentumopt/config/cfg_solo8_trot.yaml"); std::stringstream b; b << f.rdbuf(); std::string t = b.str(), out, line; std::istringstream in(t); bool skip = false;
  while (std::getline(in, line)) { if (!line.empty() && line[0] != ' ' && line[0] != '#' && line[0] != '\t') skip = line.find(SECTION) == 0; if (!skip) out += line + "\n"; }
  g_shipped = out;
  return sim::main(argc, argv, run);
}
