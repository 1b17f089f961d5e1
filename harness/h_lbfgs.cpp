// L-BFGS minimiser under failing allocations, cancelling/faulty callbacks.
#include "../sim/sim.hpp"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace sim;
using namespace solver;
typedef std::vector<double> Vec;

namespace {
enum { OK_NONE, F_NAN, F_PINF, F_NINF, F_HUGE, F_UP, F_DOWN, G_NAN, G_INF, G_FLIP, G_ZERO, G_SCALE, G_TINY, NFAULT };
const char* fname[] = {"none", "value_nan", "value_inf", "value_minus_inf", "value_huge", "value_too_high", "value_too_low", "gradient_nan", "gradient_inf", "gradient_flipped", "gradient_zero", "gradient_scaled", "gradient_tiny"};

struct Fun {          // the objective
  int kind, n; Vec a, c; double off, scale; double wall;
  double eval(const double* x, double* g) const {
    double f = 0;
    for (int i = 0; i < n; i++) g[i] = 0;
    switch (kind) {
      case 0: for (int i = 0; i < n; i++) { double d = x[i] - c[i]; f += 0.5 * a[i] * d * d; g[i] = a[i] * d; } break;              // convex quadratic
      case 1: for (int i = 0; i + 1 < n; i++) { double p = x[i + 1] - x[i] * x[i], q = 1 - x[i]; f += 10 * p * p + q * q; g[i] += -40 * p * x[i] - 2 * q; g[i + 1] += 20 * p; }
              if (n == 1) { double q = x[0] - 1; f = q * q * q * q; g[0] = 4 * q * q * q; } break;                                    // Rosenbrock
      case 2: for (int i = 0; i < n; i++) { double d = x[i] - c[i]; f += a[i] * std::fabs(d); g[i] = d > 0 ? a[i] : d < 0 ? -a[i] : 0; } break;   // kinks
      case 3: for (int i = 0; i < n; i++) { double d = x[i] - c[i]; f += std::cos(d) + 0.01 * d * d; g[i] = -std::sin(d) + 0.02 * d; } break;      // many minima
      case 4: for (int i = 0; i < n; i++) { f += a[i] * x[i]; g[i] = a[i]; } break;                                                   // unbounded
      case 5: f = 1; for (int i = 0; i < n; i++) g[i] = 1e-3 * (i + 1); break;                                                        // constant value, wrong gradient
      case 6: for (int i = 0; i < n; i++) { f += x[i] - a[i] * std::log(x[i]); g[i] = 1 - a[i] / x[i]; } break;                        // NaN outside the positive orthant
      case 7: for (int i = 0; i < n; i++) { double d = x[i] - c[i]; f += a[i] * d * d * d * d; g[i] = 4 * a[i] * d * d * d; } break;    // flat
      case 8: for (int i = 0; i < n; i++) { double v = std::max(0., x[i] - c[i]); f += v * v; g[i] = 2 * v; } break;                   // hides a NaN in x
      case 9: for (int i = 0; i < n; i++) { double d = x[i] - c[i]; f -= std::exp(-d * d); g[i] = 2 * d * std::exp(-d * d); } break;   // negative values
    }
    if (wall > 0) for (int i = 0; i < n; i++) if (std::fabs(x[i]) > wall) f = INFINITY;
    for (int i = 0; i < n; i++) g[i] *= scale;
    return f * scale + off;
  }
};
struct Ev { Vec x, g; double f, step; int fault; };
struct Rep { Vec x, g; double f, xn, gn, step; int n, k, ls; size_t nev; };
struct Call {
  const Fun* fun; const std::vector<int>* plan;   // plan[j]: fault of evaluation j
  int cancel_at = 0, cancel_val = 0; int n = 0; const double* xbuf = nullptr;
  std::vector<Ev> ev; std::vector<Rep> rep; bool cancelled = false; size_t limit = 0;
  int status = 0; double fx = 0; Vec x, x0; long allocs = 0; lbfgs_parameter_t par;
};
void* const COOKIE_CHECK = nullptr;

double cb_eval(void* inst, const double* x, double* g, const int n, const double step) {
  MemOff off; tick();
  Call& c = *(Call*)inst;
  if (c.cancelled) violate("callback-after-cancel", "objective evaluated after the progress callback cancelled");
  if (n != c.n) violate("bad-callback-argument", "n = %d instead of %d", n, c.n);
  if (c.limit && c.ev.size() >= c.limit) violate("no-termination", "%zu evaluations, at most %zu allowed by max_iterations and max_linesearch", c.ev.size() + 1, c.limit);
  Ev e; e.x.assign(x, x + n); e.step = step; e.g.resize(n);
  e.f = c.fun->eval(x, e.g.data());
  size_t j = c.ev.size();
  e.fault = j < c.plan->size() ? (*c.plan)[j] : 0;
  double prev = c.ev.empty() ? 0 : c.ev.back().f;
  switch (e.fault) {
    case F_NAN: e.f = NAN; break; case F_PINF: e.f = INFINITY; break; case F_NINF: e.f = -INFINITY; break; case F_HUGE: e.f = 1e300; break;
    case F_UP: e.f = prev + 1; break; case F_DOWN: e.f -= 5; break;
    case G_NAN: e.g[j % n] = NAN; break; case G_INF: e.g[j % n] = INFINITY; break; case G_FLIP: for (auto& v : e.g) v = -v; break;
    case G_ZERO: for (auto& v : e.g) v = 0; break; case G_SCALE: for (auto& v : e.g) v *= 1e12; break; case G_TINY: for (auto& v : e.g) v *= 1e-160; break;
  }
  if (e.fault) { static char k[64]; snprintf(k, sizeof k, "fault.objective.%s", fname[e.fault]); count(k); event("evaluation %zu: %s", j, fname[e.fault]); }
  memcpy(g, e.g.data(), n * 8);
  c.ev.push_back(e);
  return e.f;
}
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, 8) == 0 || a == b; }
bool same(const Vec& a, const double* b) { for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
double norm(const Vec& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }

void check_report(const Call& c, const Rep& r) {
  size_t k = c.rep.size();            // reports before this one
  if (r.k != (int)k + 1) violate("iteration-number", "report %zu carries iteration number %d", k + 1, r.k);
  if (r.n != c.n) violate("bad-callback-argument", "progress n = %d instead of %d", r.n, c.n);
  size_t before = k ? c.rep.back().nev : 1;
  if (c.ev.size() < before + 1) violate("report-without-evaluation", "iteration %d reported without an evaluation", r.k);
  if (r.ls != (int)(c.ev.size() - before)) violate("evaluation-count", "iteration %d reports %d evaluations, %zu were made", r.k, r.ls, c.ev.size() - before);
  const Ev& e = c.ev.back();
  if (!same(e.x, r.x.data()) || !same(e.g, r.g.data()) || !same(e.f, r.f)) violate("report-mismatch", "iteration %d: reported point/gradient/value (%.17g) are not those of the evaluation it ended with (%.17g)", r.k, r.f, e.f);
  if (!same(r.step, e.step)) violate("report-mismatch", "iteration %d: reported step %g, last trial step %g", r.k, r.step, e.step);
  double xn = norm(r.x), gn = norm(r.g);
  auto close = [](double a, double b) { return same(a, b) || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); };
  if (!close(xn, r.xn) || !close(gn, r.gn)) violate("report-mismatch", "iteration %d: norms %.17g %.17g reported, %.17g %.17g expected", r.k, r.xn, r.gn, xn, gn);
}
void check_descent(const Call& c, const Rep& r) {
  size_t k = c.rep.size();
  const Ev& base = k ? c.ev[c.rep.back().nev - 1] : c.ev[0];
  if (!std::isfinite(r.f)) violate("iterate-not-finite", "iteration %d accepted the value %g (previous %g)", r.k, r.f, base.f);
  if (r.f > base.f) violate("iterate-worse", "iteration %d went up from %.17g to %.17g", r.k, base.f, r.f);
  // documented conditions of the line searches
  double s0 = 0, s1 = 0, mag = 0; bool fin = true;
  for (int i = 0; i < c.n; i++) { double d = r.x[i] - base.x[i]; s0 += base.g[i] * d; s1 += r.g[i] * d; mag += (std::fabs(base.g[i]) + std::fabs(r.g[i])) * (std::fabs(r.x[i]) + std::fabs(base.x[i])); fin = fin && std::isfinite(d); }
  if (!fin || !std::isfinite(s0) || !std::isfinite(s1) || !std::isfinite(mag) || !std::isfinite(base.f)) return;
  double tol = 1e-12 * (std::fabs(r.f) + std::fabs(base.f) + mag) + 1e-300;
  if (r.f > base.f + c.par.ftol * s0 + tol) violate("no-sufficient-decrease", "iteration %d accepted f=%.17g from %.17g with slope*step %g, ftol %g", r.k, r.f, base.f, s0, c.par.ftol);
  int ls = c.par.linesearch;
  if (ls == LBFGS_LINESEARCH_BACKTRACKING_WOLFE && s1 < c.par.wolfe * s0 - tol) violate("no-wolfe", "iteration %d breaks the Wolfe condition: %g < %g", r.k, s1, c.par.wolfe * s0);
  if (ls == LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE && std::fabs(s1) > c.par.wolfe * std::fabs(s0) + tol) violate("no-wolfe", "iteration %d breaks the strong Wolfe condition: |%g| > %g", r.k, s1, c.par.wolfe * std::fabs(s0));
  if (ls == LBFGS_LINESEARCH_MORETHUENTE && std::fabs(s1) > c.par.gtol * std::fabs(s0) + tol) violate("no-wolfe", "iteration %d breaks the curvature condition: |%g| > %g", r.k, s1, c.par.gtol * std::fabs(s0));
}
bool grad_test(const Call& c, const Vec& x, const Vec& g) { double xn = norm(x), gn = norm(g); if (xn < 1.0) xn = 1.0; return gn / xn <= c.par.epsilon; }
bool past_test(const Call& c, size_t k, double f) {   // k: iterations done including this one
  int p = c.par.past; if (p <= 0 || (size_t)p > k) return false;
  double old = (size_t)p == k ? c.ev[0].f : c.rep[k - p - 1].f;
  return (old - f) / f < c.par.delta;
}
int cb_progress(void* inst, const double* x, const double* g, const double fx, const double xn, const double gn, const double step, int n, int k, int ls) {
  MemOff off; tick();
  Call& c = *(Call*)inst;
  if (c.cancelled) violate("callback-after-cancel", "progress reported after the progress callback cancelled");
  Rep r; r.n = n; if (n != c.n) violate("bad-callback-argument", "progress n = %d instead of %d", n, c.n);
  r.x.assign(x, x + n); r.g.assign(g, g + n); r.f = fx; r.xn = xn; r.gn = gn; r.step = step; r.k = k; r.ls = ls; r.nev = c.ev.size();
  check_report(c, r);
  if (prop() == "C08") check_descent(c, r);
  if (prop() != "C08") {}
  else if (!c.rep.empty()) {
    const Rep& q = c.rep.back();
    if (c.par.max_iterations && q.k >= c.par.max_iterations) violate("too-many-iterations", "iteration %d with max_iterations %d", r.k, c.par.max_iterations);
    if (grad_test(c, q.x, q.g)) violate("missed-convergence", "iteration %d followed a point that passes the gradient test", r.k);
    Call t = c; t.rep.pop_back(); if (past_test(t, t.rep.size() + 1, q.f)) violate("missed-convergence", "iteration %d followed a point that passes the decrease test", r.k);
  } else if (grad_test(c, c.ev[0].x, c.ev[0].g)) violate("missed-convergence", "iterated although the starting point passes the gradient test");
  c.rep.push_back(r);
  if (c.cancel_at && (int)c.rep.size() == c.cancel_at) { c.cancelled = true; count("fault.cancel"); event("cancel with %d at iteration %d", c.cancel_val, k); return c.cancel_val; }
  return 0;
}

void minimise(Call& c, bool null_fx, bool with_progress) {
  double* x = lbfgs_malloc(c.n);
  if (!x) violate("harness", "no memory for x");
  for (int i = 0; i < c.n; i++) x[i] = c.x0[i];
  c.xbuf = x; c.fx = 12345.75;
  lbfgs_parameter_t par = c.par;
  long a0 = mem_allocs(), live0 = mem_live();
  {
    MemOn on;
    c.status = lbfgs(c.n, x, null_fx ? nullptr : &c.fx, cb_eval, with_progress ? cb_progress : nullptr, &c, &par);
  }
  c.allocs = mem_allocs() - a0;
  if (memcmp(&par, &c.par, sizeof par)) violate("parameters-changed", "the caller's parameters were modified");
  c.x.assign(x, x + c.n);
  if (mem_live() != live0) violate("leak", "%ld blocks (%zu bytes) still allocated after return with status %d", mem_live() - live0, mem_live_bytes(), c.status);
  free(x);
  event("status %d evaluations %zu reports %zu", c.status, c.ev.size(), c.rep.size());
  hash_bits(c.x.data(), c.n * 8); if (!null_fx) hash_bits(&c.fx, 8);
}
bool identical(const Call& a, const Call& b, const char*& why) {
  why = "status"; if (a.status != b.status) return false;
  why = "number of evaluations"; if (a.ev.size() != b.ev.size()) return false;
  why = "number of reports"; if (a.rep.size() != b.rep.size()) return false;
  why = "evaluation points"; for (size_t i = 0; i < a.ev.size(); i++) if (!same(a.ev[i].x, b.ev[i].x.data())) return false;
  why = "reports"; for (size_t i = 0; i < a.rep.size(); i++) if (!same(a.rep[i].x, b.rep[i].x.data()) || !same(a.rep[i].f, b.rep[i].f)) return false;
  why = "result"; return same(a.x, b.x.data()) && same(a.fx, b.fx);
}
// met at the end of a run, so that it never hides another violation
bool stale_fx; char stale_msg[300];
void check_result(const Call& c, bool null_fx, bool with_progress) {
  if (c.ev.empty()) { if (c.status >= 0) violate("unchecked-success", "status %d without an evaluation", c.status); if (!same(c.x0, c.x.data())) violate("x-changed", "x changed without an evaluation (status %d)", c.status); return; }
  if (!same(c.ev[0].x, c.x0.data())) violate("wrong-start", "first evaluation is not at the starting point");
  if (c.ev[0].step != 0) violate("wrong-start", "first evaluation has step %g", c.ev[0].step);
  if (!with_progress) return;
  const bool none = c.rep.empty();
  const Vec& bx = none ? c.ev[0].x : c.rep.back().x; const Vec& bg = none ? c.ev[0].g : c.rep.back().g; double bf = none ? c.ev[0].f : c.rep.back().f;
  if (!same(bx, c.x.data())) violate("wrong-x", "status %d: returned variables are not those of the last accepted iterate (%zu iterations)", c.status, c.rep.size());
  const bool rejected = !c.cancelled && c.status < 0 && c.ev.size() > (none ? 1u : c.rep.back().nev) && !c.ev.empty() && same(c.ev.back().f, c.fx);
  if (!null_fx && !same(bf, c.fx)) {
    if (rejected) { stale_fx = true; snprintf(stale_msg, sizeof stale_msg, "status %d: the returned value %.17g is that of the rejected trial, the objective at the returned variables was %.17g", c.status, c.fx, bf); }
    else violate("wrong-fx", "status %d: returned value %.17g, the objective at the returned variables was %.17g (%zu iterations)", c.status, c.fx, bf, c.rep.size());
  }
  size_t k = c.rep.size(), tail = c.ev.size() - (none ? 1 : c.rep.back().nev);
  if (c.cancelled) {
    if (c.status != c.cancel_val) violate("cancel-status", "cancelled with %d, status %d", c.cancel_val, c.status);
    if (tail) violate("callback-after-cancel", "%zu evaluations after cancelling", tail);
    return;
  }
  if (prop() != "C08") return;
  Call t = c; if (!none) t.rep.pop_back();
  switch (c.status) {
    case LBFGS_SUCCESS: if (none || tail || !grad_test(c, bx, bg)) violate("false-success", "success reported but the gradient test fails at the returned point (|g|=%g |x|=%g epsilon=%g)", norm(bg), norm(bx), c.par.epsilon); break;
    case LBFGS_ALREADY_MINIMIZED: if (!none || tail || !grad_test(c, c.ev[0].x, c.ev[0].g)) violate("false-success", "starting point reported as minimal but the gradient test fails there"); break;
    case LBFGS_STOP: if (none || tail || !past_test(t, k, bf)) violate("false-success", "stop reported after %zu iterations but the decrease test (past=%d delta=%g) fails", k, c.par.past, c.par.delta); break;
    case LBFGSERR_MAXIMUMITERATION: if (tail || c.par.max_iterations <= 0 || (int)k != c.par.max_iterations) violate("false-status", "maximum iterations reported after %zu of %d", k, c.par.max_iterations); break;
    case LBFGSERR_MAXIMUMLINESEARCH: if ((int)tail < c.par.max_linesearch) violate("false-status", "maximum line search reported after %zu of %d evaluations", tail, c.par.max_linesearch); break;
    case LBFGSERR_MINIMUMSTEP: if (!tail || !(c.ev.back().step <= c.par.min_step)) violate("false-status", "minimum step reported at step %g, minimum %g", c.ev.back().step, c.par.min_step); break;
    case LBFGSERR_MAXIMUMSTEP: if (!tail || !(c.ev.back().step >= c.par.max_step)) violate("false-status", "maximum step reported at step %g, maximum %g", c.ev.back().step, c.par.max_step); break;
    case LBFGSERR_ROUNDING_ERROR: case LBFGSERR_WIDTHTOOSMALL: if (!tail || c.par.linesearch != 0) violate("false-status", "status %d without a trial step or from a line search that cannot give it", c.status); break;
    case LBFGSERR_INCREASEGRADIENT: case LBFGSERR_INVALIDPARAMETERS: if (tail) violate("false-status", "status %d after %zu trial steps", c.status, tail); break;
    default: violate("false-status", "status %d does not describe this outcome", c.status);
  }
  if (!none || c.status != LBFGS_ALREADY_MINIMIZED) {
    // nothing acceptable may be passed over in silence: an unfinished minimisation of a point that passes the test must say so
    if (c.status < 0 && !tail && grad_test(c, bx, bg)) violate("missed-convergence", "status %d although the returned point passes the gradient test", c.status);
  }
}

Fun gen_fun(int n, bool nice) {
  Fun f; f.n = n; f.kind = nice ? (int)pick(2, "objective") : (int)pick(10, "objective");
  if (nice && f.kind == 1) f.kind = pick(2, "kind2") ? 9 : 1;
  f.a.resize(n); f.c.resize(n);
  static const double cs[5] = {1, 0.5, 4, 30, 0.01};
  for (int i = 0; i < n; i++) { f.a[i] = cs[pick(nice ? 4 : 5, "curvature")]; f.c[i] = grid(4, 0.7, "centre"); }
  static const double offs[5] = {0, 1, -7, 1e6, 1e-6}; f.off = nice ? 0 : offs[pick(5, "offset")];
  static const double scs[4] = {1, 1e-3, 1e4, 1e-8}; f.scale = nice ? 1 : scs[pick(4, "scale")];
  f.wall = !nice && chance(0.1, "wall") ? 3.0 : 0;
  return f;
}
lbfgs_parameter_t gen_par(bool nice) {
  lbfgs_parameter_t p; lbfgs_parameter_init(&p);
  p.linesearch = (int)pick(4, "linesearch");
  static const int ms[6] = {6, 1, 2, 3, 10, 20}; p.m = ms[pick(6, "history")];
  static const double eps[4] = {1e-5, 1e-3, 1e-9, 0}; p.epsilon = eps[pick(nice ? 2 : 4, "epsilon")];
  static const int pasts[5] = {0, 1, 2, 5, 40}; p.past = pasts[pick(5, "past")];
  static const double dels[4] = {1e-5, 0, 1e-2, 0.5}; p.delta = nice ? 0 : dels[pick(4, "delta")];
  if (nice) { p.past = 0; p.max_iterations = 0; return p; }
  static const int mi[5] = {30, 1, 2, 7, 200}; p.max_iterations = mi[pick(5, "max-iterations")];
  static const int ml[5] = {40, 1, 2, 5, 20}; p.max_linesearch = ml[pick(5, "max-linesearch")];
  if (chance(0.2, "steps")) { static const double lo[3] = {1e-20, 1e-3, 0}, hi[4] = {1e20, 1.0, 4.0, 1e-2}; p.min_step = lo[pick(3, "min-step")]; p.max_step = hi[pick(4, "max-step")]; }
  if (chance(0.3, "tolerances")) { static const double ft[4] = {1e-4, 0, 0.3, 1e-2}, wo[4] = {0.9, 0.5, 0.31, 0.99}, gt[4] = {0.9, 0.1, 0, 0.5}, xt[3] = {1e-16, 1e-2, 0}; p.ftol = ft[pick(4, "ftol")]; p.wolfe = wo[pick(4, "wolfe")]; p.gtol = gt[pick(4, "gtol")]; p.xtol = xt[pick(3, "xtol")]; }
  return p;
}
// parameters the documentation forbids must be refused before anything happens
void gen_bad(lbfgs_parameter_t& p, int& n, int& expect) {
  switch (pick(13, "bad-parameter")) {
    case 0: n = -(int)pick(2, "n"); expect = LBFGSERR_INVALID_N; break;
    case 1: p.epsilon = -1e-3; expect = LBFGSERR_INVALID_EPSILON; break;
    case 2: p.past = -1; expect = LBFGSERR_INVALID_TESTPERIOD; break;
    case 3: p.delta = -1; expect = LBFGSERR_INVALID_DELTA; break;
    case 4: p.linesearch = 4 + (int)pick(3, "ls"); expect = LBFGSERR_INVALID_LINESEARCH; break;
    case 5: p.min_step = -1; expect = LBFGSERR_INVALID_MINSTEP; break;
    case 6: p.max_step = p.min_step / 2 - 1e-30; expect = LBFGSERR_INVALID_MAXSTEP; break;
    case 7: p.ftol = -1e-4; expect = LBFGSERR_INVALID_FTOL; break;
    case 8: p.linesearch = 2 + (int)pick(2, "w"); p.wolfe = pick(2, "w2") ? 1.0 : p.ftol; expect = LBFGSERR_INVALID_WOLFE; break;
    case 9: p.gtol = -1; expect = LBFGSERR_INVALID_GTOL; break;
    case 10: p.xtol = -1; expect = LBFGSERR_INVALID_XTOL; break;
    case 11: p.max_linesearch = -(int)pick(2, "mls"); expect = LBFGSERR_INVALID_MAXLINESEARCH; break;
    case 12: p.m = -(int)pick(3, "m"); expect = LBFGSERR_INVALIDPARAMETERS; break;
  }
}

// ---- the C++ wrapper -------------------------------------------------------
struct Fail : std::runtime_error { Fail() : std::runtime_error("user objective failed") {} };
struct Nlp : NlpDescription {
  Fun f; int ncons; Vec start, xl, xu, A, gl, gu; long calls = 0, throw_at = -1; Vec last;
  void getNlpParameters(int& n, int& m) override { n = f.n; m = ncons; }
  void getNlpBounds(int n, int m, double* l, double* u, double* cl, double* cu) override { for (int i = 0; i < n; i++) { l[i] = xl[i]; u[i] = xu[i]; } for (int i = 0; i < m; i++) { cl[i] = gl[i]; cu[i] = gu[i]; } }
  void getStartingPoint(int n, double* x) override { for (int i = 0; i < n; i++) x[i] = start[i]; }
  double value(const double* x) const { Vec g(f.n); return f.eval(x, g.data()); }
  double evaluateObjective(int, const double* x) override { MemOff off; tick(); if (++calls == throw_at) { count("fault.callback_throws"); event("objective throws at call %ld", calls); throw Fail(); } last.assign(x, x + f.n); return value(x); }
  void evaluateConstraintsVector(int n, int m, const double* x, double* c) override { for (int j = 0; j < m; j++) { c[j] = 0; for (int i = 0; i < n; i++) c[j] += A[j * n + i] * x[i]; } }
  double penalised(const double* x, double w) const {
    double o = 0; for (int i = 0; i < f.n; i++) { if (x[i] < xl[i]) o += (x[i] - xl[i]) * (x[i] - xl[i]); if (x[i] > xu[i]) o += (x[i] - xu[i]) * (x[i] - xu[i]); }
    for (int j = 0; j < ncons; j++) { double c = 0; for (int i = 0; i < f.n; i++) c += A[j * f.n + i] * x[i]; if (c < gl[j]) o += (c - gl[j]) * (c - gl[j]); if (c > gu[j]) o += (c - gu[j]) * (c - gu[j]); }
    return value(x) + w * o;
  }
};
struct ClassOut { bool bad_alloc = false, threw = false; Vec x, last; double f = 0; long calls = 0; };
ClassOut run_class(Nlp& nlp, LbfgsSolver& s, double w, const lbfgs_parameter_t& par) {
  ClassOut r; nlp.calls = 0;
  try {
    MemOn on;
    s.initialize(&nlp, w);
    s.opt_params() = par;
    s.optimize();
  } catch (const std::bad_alloc&) { r.bad_alloc = true; } catch (const Fail&) { r.threw = true; }
  r.calls = nlp.calls;
  if (nlp.optimalVector().size()) r.x.assign(nlp.optimalVector().data(), nlp.optimalVector().data() + nlp.optimalVector().size());
  r.f = nlp.optimalValue(); r.last = nlp.last;
  return r;
}
void class_scenario(const std::string& p) {
  Nlp nlp; int n = 1 + (int)pick(6, "n");
  nlp.f = gen_fun(n, true); nlp.ncons = (int)pick(3, "constraints");
  nlp.start.resize(n); nlp.xl.assign(n, -1e10); nlp.xu.assign(n, 1e10); nlp.A.assign(nlp.ncons * n, 0); nlp.gl.assign(nlp.ncons, -1e10); nlp.gu.assign(nlp.ncons, 1e10);
  for (int i = 0; i < n; i++) { nlp.start[i] = grid(6, 0.5, "start"); if (chance(0.3, "bounded")) { nlp.xl[i] = grid(2, 0.5, "lower"); nlp.xu[i] = nlp.xl[i] + pick(4, "width"); } }
  for (int j = 0; j < nlp.ncons; j++) { for (int i = 0; i < n; i++) nlp.A[j * n + i] = grid(2, 1, "row"); double c = grid(2, 1, "limit"); if (pick(2, "side")) nlp.gl[j] = c; else nlp.gu[j] = c; if (chance(0.3, "equality")) nlp.gl[j] = nlp.gu[j] = c; }
  lbfgs_parameter_t par; lbfgs_parameter_init(&par); par.linesearch = (int)pick(4, "linesearch"); par.max_iterations = 20; par.past = (int)pick(3, "past");
  double w = 1 + 9 * pick(2, "weight");
  sample("LbfgsSolver object: objective %d, %d variables, %d constraints, line search %d", nlp.f.kind, n, nlp.ncons, par.linesearch);
  set_budget(20000000);
  ClassOut ref; long allocs;
  { Nlp q = nlp; mem_reset_counter(); LbfgsSolver s; ref = run_class(q, s, w, par); allocs = mem_allocs(); }
  if (ref.bad_alloc || ref.threw) violate("harness", "reference run failed");
  double f0 = nlp.penalised(nlp.start.data(), w), f1 = nlp.penalised(ref.x.data(), w);
  if (!(f1 <= f0 + 1e-9 * (1 + std::fabs(f0)))) violate("iterate-worse", "LbfgsSolver ended at %.17g, started at %.17g", f1, f0);
  double fl = nlp.penalised(ref.last.data(), w);
  if (!(std::fabs(f1 - ref.f) <= 1e-9 * (1 + std::fabs(f1)))) {
    if (fl == ref.f || std::fabs(fl - ref.f) <= 1e-9 * (1 + std::fabs(fl)) || (std::isnan(fl) && std::isnan(ref.f))) { stale_fx = true; snprintf(stale_msg, sizeof stale_msg, "LbfgsSolver returned the value %.17g of the rejected trial, the penalised objective at the returned variables is %.17g", ref.f, f1); }
    else violate("wrong-fx", "LbfgsSolver returned value %.17g, the penalised objective there is %.17g", ref.f, f1);
  }
  long live0 = mem_live();
  { // fault in the middle, then the same object again
    LbfgsSolver* s; { MemOn on; s = new LbfgsSolver(); }
    Nlp q = nlp; { MemOff off; q.optimalVector().resize(n); }
    int rounds = 1 + (int)pick(3, "rounds");
    for (int k = 0; k < rounds; k++) {
      long live1 = mem_live(); (void)live1;
      if (p == "C06") { mem_reset_counter(); mem_fail_at(1 + pick((uint32_t)allocs, "which-allocation"), chance(0.3, "stays-failing")); }
      else q.throw_at = 1 + pick((uint32_t)ref.calls, "throwing-call");
      ClassOut r = run_class(q, *s, w, par);
      mem_fail_at(-1, false); q.throw_at = -1;
      if (p != "C06" && !r.threw) violate("exception-lost", "the exception of the objective did not reach the caller");
      (void)r;
    }
    set_budget(20000000);
    ClassOut r = run_class(q, *s, w, par);
    if (r.bad_alloc || r.threw || r.calls != ref.calls || !same(r.x, ref.x.data()) || !same(r.f, ref.f)) violate("fault-leaves-trace", "after a failed minimisation the same solver object gives another result (%.17g instead of %.17g)", r.f, ref.f);
    MemOn on; delete s;
    q.optimalVector().resize(0);
  }
  if (mem_live() != live0) violate("leak", "%ld blocks (%zu bytes) of an LbfgsSolver still allocated after its destruction", mem_live() - live0, mem_live_bytes());
  count("probe.class_runs"); nontrivial();
}
}

static void scenario() {
  const std::string p = prop();
  mem_begin();
  mem_fill(pick(2, "memory-fill") ? 0x7f : -1);
  set_budget(200000000);
  if (chance(0.2, "class-level")) { class_scenario(p); state(trace_hash()); return; }
  bool nice = p == "C08" && chance(0.2, "well-behaved");
  Call c; c.n = 1 + (int)pick_log(20, "n");
  if (nice && c.n > 8) c.n = 8;
  Fun f = gen_fun(c.n, nice);
  c.par = gen_par(nice);
  c.x0.resize(c.n); for (int i = 0; i < c.n; i++) c.x0[i] = f.kind == 6 ? 0.25 * (1 + pick(20, "start")) : grid(6, 0.5, "start");
  if (!nice && chance(0.05, "start-at-centre")) c.x0 = f.c;
  std::vector<int> plan;
  bool faulty = !nice && chance(p == "C08" ? 0.8 : 0.3, "objective-faults");
  if (faulty) {
    int nf = 1 + (int)pick_log(6, "faults");
    for (int i = 0; i < nf; i++) { size_t at = pick_log(60, "fault-at"); if (plan.size() <= at) plan.resize(at + 1, 0); plan[at] = 1 + (int)pick(NFAULT - 1, "fault-kind");
      if (chance(0.1, "fault-stays")) { plan.resize(2000, plan[at]); } }
  }
  c.fun = &f; c.plan = &plan;
  if (c.par.max_iterations) c.limit = 1 + (size_t)c.par.max_iterations * c.par.max_linesearch;
  sample("objective %d n=%d linesearch %d m=%d past=%d max_iterations=%d faults planned %zu", f.kind, c.n, c.par.linesearch, c.par.m, c.par.past, c.par.max_iterations, plan.size());
  if (!nice && p == "C08" && chance(0.05, "forbidden-parameters")) {
    int n = c.n, expect = 0; gen_bad(c.par, n, expect);
    Call d = c; d.n = std::max(n, 1); double xb[32]; for (int i = 0; i < 32; i++) xb[i] = i < c.n ? c.x0[i] : 0; double fx = 3; lbfgs_parameter_t par = c.par;
    int st = lbfgs(n, xb, &fx, cb_eval, cb_progress, &d, &par);
    if (st != expect || !d.ev.empty()) violate("bad-parameter-accepted", "status %d with %zu evaluations, expected refusal %d", st, d.ev.size(), expect);
    count("probe.refused"); return;
  }
  const bool nullfx = p != "C06" && chance(0.05, "null-fx"), nopro = p != "C07" && chance(0.1, "no-progress-callback");
  if (p == "C06") {
    Call ref = c; minimise(ref, false, !nopro); check_result(ref, false, !nopro);
    int rounds = 1 + (int)pick(3, "rounds");
    for (int k = 0; k < rounds; k++) {
      Call o = c; mem_reset_counter();
      uint32_t kth = ref.allocs ? 1 + pick((uint32_t)ref.allocs, "which-allocation") : 1;
      bool sticky = chance(0.4, "stays-failing");
      mem_fail_at(kth, sticky);
      minimise(o, false, !nopro);
      mem_fail_at(-1, false);
      if (o.status != LBFGSERR_OUTOFMEMORY) violate("oom-not-reported", "allocation %u of %ld failed, status %d", kth, ref.allocs, o.status);
      if (!o.ev.empty() || !o.rep.empty()) violate("oom-evaluated", "objective evaluated although allocation %u failed", kth);
      if (!same(c.x0, o.x.data())) violate("x-changed", "x changed although memory ran out");
      nontrivial();
    }
    Call again = c; minimise(again, false, !nopro);
    const char* why = "";
    if (!identical(ref, again, why)) violate("fault-leaves-trace", "the minimisation after a failed allocation differs: %s", why);
  } else if (p == "C07") {
    Call ref = c; minimise(ref, nullfx, true); check_result(ref, nullfx, true);
    if (!ref.rep.empty()) {
      static const int vals[8] = {1, -1, 7, 2, -1000, 2147483647, -1024, -2147483647 - 1};
      int rounds = 1 + (int)pick(2, "rounds");
      for (int k = 0; k < rounds; k++) {
        Call o = c; o.cancel_at = 1 + (int)pick((uint32_t)ref.rep.size(), "cancel-at"); o.cancel_val = vals[pick(8, "cancel-value")];
        minimise(o, nullfx, true); check_result(o, nullfx, true);
        if (!o.cancelled) violate("progress-differs", "iteration %d was reported before but not this time", o.cancel_at);
        for (int i = 0; i < o.cancel_at; i++) if (!same(o.rep[i].x, ref.rep[i].x.data())) violate("progress-differs", "iteration %d differs from the same minimisation without cancelling", i + 1);
      }
      nontrivial();
    }
  } else {
    Call o = c; minimise(o, nullfx, !nopro); check_result(o, nullfx, !nopro);
    if (!o.rep.empty() || o.status < 0) nontrivial();
    if (nice && f.kind == 0) {
      double e = 0; for (int i = 0; i < c.n; i++) e = std::max(e, std::fabs(o.x[i] - f.c[i]));
      if (o.status < 0 || !(e < 0.2 * std::max(1.0, norm(f.c)) * (c.par.epsilon / 1e-3) + 1e-2 * (c.par.epsilon > 1e-4) + 1e-3)) violate("no-convergence", "well-behaved convex quadratic: status %d, distance %g to the minimiser", o.status, e);
      count("probe.quadratics_solved");
    }
    if (nopro) { // without a progress callback the result must be the same
      Call q = c; minimise(q, nullfx, true); check_result(q, nullfx, true);
      if (q.status != o.status || !same(q.x, o.x.data()) || q.ev.size() != o.ev.size()) violate("progress-changes-result", "the result differs with and without a progress callback");
    }
  }
  state(trace_hash());
}
static void run() {
  stale_fx = false;
  scenario();
  if (stale_fx && prop() == "C08") violate("stale-fx-linesearch-failure", "%s", stale_msg);
}
int main(int argc, char** argv) { return sim::main(argc, argv, run); }
