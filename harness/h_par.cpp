// C05: independent solver objects in several threads.  Every job is first run
// alone, in a process of its own that has done nothing else; then all jobs run
// in simulated threads that are preempted between any two basic blocks.
#include "socp_gen.hpp"
#include "h_hqp.hpp"
#include <solver/optimizer/LbfgsSolver.hpp>
#include <solver_lqr/SolverLqr.hpp>
#include <yaml_utils/yaml_eigen.hpp>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/mman.h>
using socp::Vec;
using namespace sim;

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nullbuf;
struct UserError : std::runtime_error { using std::runtime_error::runtime_error; };
typedef std::vector<uint64_t> Bits;
void put(Bits& b, double d) { uint64_t u; if (d != d) u = 0x7ff8000000000000ull; else memcpy(&u, &d, 8); b.push_back(u); }

struct Job {
  enum Kind { CONIC, LBFGS, NLP, HQP, DDP, NK } kind; int fault = 0; long at = 0;   // fault: 1 allocation fails, 2 callback throws, 3 cancelled / malformed call
  // conic
  socp::Prob prob, before; bool warm = false; int style = 0, iters = -1, bnb = -1; bool own_settings = false, verbose = false;
  // L-BFGS
  int n = 1, fun = 0; Vec a, c, x0; int ls = 0, past = 0, m = 6;
  // hierarchy
  Problem hqp;
  // trajectory optimiser
  int xd = 1, ud = 1, T = 1, maxit = 3; bool limits = false; Eigen::MatrixXd A, B; std::string cfg;
  const char* name() const { static const char* s[] = {"conic", "lbfgs", "lbfgs-object", "hierarchy", "trajectory"}; return s[kind]; }
};
struct UserPoint { UserPoint() { yield_point("callback"); } };

// ---- conic ----------------------------------------------------------------------------
const std::string STG = std::string(VF_REPO_DIR) + "/solver/tests/yaml_config_files/default_stgs.yaml";
void build(solver::Model& m, const socp::Prob& p, std::vector<solver::Var>& v, int style) { socp::state_vars(m, p, v); for (size_t k = 0; k < p.con.size(); k++) socp::state_con(m, p.con[k], v, style + (int)k); socp::state_obj(m, p, v, style); }
void conic(const Job& j, Bits& out) {
  using namespace solver;
  try {
    Model m; m.getSetting().initialize(STG, "solver_variables");   // (the YAML library fills tables of its own on first use: allocations are counted from here)
    MemOn on; if (j.fault == 1) mem_fail_here(j.at);
    m.getSetting().set(SolverBoolParam_Verbose, j.verbose);
    if (j.iters >= 0) m.getSetting().set(SolverIntParam_SolverMaxIters, j.iters); if (j.bnb >= 0) m.getSetting().set(SolverIntParam_BnBMaxIters, j.bnb);
    std::vector<Var> v;
    if (j.warm) { build(m, j.before, v, j.style + 1); out.push_back((uint64_t)m.optimize()); m.clean(); }
    if (j.fault == 3) try { m.addLinConstr(LinExpr(1.0), "?", 1.0); } catch (std::runtime_error&) { out.push_back(77); }
    build(m, j.prob, v, j.style);
    out.push_back((uint64_t)m.optimize());
    for (auto& x : v) put(out, x.get(SolverDoubleParam_X));
  } catch (std::bad_alloc&) { out.push_back(99); }
  catch (std::exception& e) { out.push_back(98); for (const char* c = e.what(); *c; c++) out.push_back(*c); }
  mem_fail_here(0);
}
// ---- L-BFGS ---------------------------------------------------------------------------
double value(const Job& j, const double* x, double* g) {
  double f = 0; for (int i = 0; i < j.n; i++) g[i] = 0;
  switch (j.fun) {
    case 0: for (int i = 0; i < j.n; i++) { double d = x[i] - j.c[i]; f += 0.5 * j.a[i] * d * d; g[i] = j.a[i] * d; } break;
    case 1: for (int i = 0; i + 1 < j.n; i++) { double p = x[i + 1] - x[i] * x[i], q = 1 - x[i]; f += 10 * p * p + q * q; g[i] += -40 * p * x[i] - 2 * q; g[i + 1] += 20 * p; } if (j.n == 1) { double q = x[0] - 1; f = q * q * q * q; g[0] = 4 * q * q * q; } break;
    default: for (int i = 0; i < j.n; i++) { double d = x[i] - j.c[i]; f += std::cos(d) + 0.01 * d * d; g[i] = -std::sin(d) + 0.02 * d; } break;
  }
  return f;
}
struct LbCall { const Job* j; Bits* out; long calls = 0; };
double lb_eval(void* i, const double* x, double* g, const int, const double step) {
  LbCall& c = *(LbCall*)i; { MemOff off; yield_point("objective"); }
  if (c.j->fault == 2 && ++c.calls == c.j->at) throw UserError("objective");
  return value(*c.j, x, g);
}
int lb_progress(void* i, const double*, const double*, const double fx, const double, const double gn, const double step, int, int k, int ls) {
  LbCall& c = *(LbCall*)i; MemOff off; yield_point("progress"); put(*c.out, fx); put(*c.out, gn); put(*c.out, step); c.out->push_back(k * 1000 + ls);
  return c.j->fault == 3 && k >= c.j->at ? 5 : 0;
}
solver::lbfgs_parameter_t params(const Job& j) { solver::lbfgs_parameter_t p; solver::lbfgs_parameter_init(&p); p.linesearch = j.ls; p.max_iterations = j.maxit * 4; p.past = j.past; p.m = j.m; return p; }
void lbfgs(const Job& j, Bits& out) {
  Vec x(j.x0); LbCall c{&j, &out}; double fx = 0; auto p = params(j);
  double* xs = nullptr;
  try {
    MemOn on; if (j.fault == 1) mem_fail_here(j.at);
    xs = solver::lbfgs_malloc(j.n); if (!xs) { out.push_back(97); }
    else { for (int i = 0; i < j.n; i++) xs[i] = x[i]; out.push_back((uint64_t)(int64_t)solver::lbfgs(j.n, xs, &fx, lb_eval, lb_progress, &c, &p)); put(out, fx); }
  } catch (UserError&) { out.push_back(96); }
  mem_fail_here(0);
  if (xs) { for (int i = 0; i < j.n; i++) put(out, xs[i]); free(xs); }
}
struct Nlp : solver::NlpDescription {
  const Job* j; long calls = 0;
  void getNlpParameters(int& n, int& m) override { n = j->n; m = 1; }
  void getNlpBounds(int n, int m, double* l, double* u, double* cl, double* cu) override { for (int i = 0; i < n; i++) { l[i] = -1; u[i] = 2; } for (int i = 0; i < m; i++) { cl[i] = -1; cu[i] = 1; } }
  void getStartingPoint(int n, double* x) override { for (int i = 0; i < n; i++) x[i] = j->x0[i]; }
  double evaluateObjective(int, const double* x) override { { MemOff off; yield_point("objective"); } if (j->fault == 2 && ++calls == j->at) throw UserError("objective"); Vec g(j->n); return value(*j, x, g.data()); }
  void evaluateConstraintsVector(int n, int, const double* x, double* c) override { c[0] = 0; for (int i = 0; i < n; i++) c[0] += x[i]; }
};
void nlp(const Job& j, Bits& out) {
  Nlp d; d.j = &j; d.optimalValue() = 0;
  try { MemOn on; if (j.fault == 1) mem_fail_here(j.at); solver::LbfgsSolver s; s.verbose() = j.verbose; s.initialize(&d, 10); s.opt_params() = params(j); s.optimize(); }
  catch (UserError&) { out.push_back(96); } catch (std::bad_alloc&) { out.push_back(99); }
  mem_fail_here(0);
  put(out, d.optimalValue()); for (int i = 0; i < d.optimalVector().size(); i++) put(out, d.optimalVector()[i]);
}
// ---- hierarchy --------------------------------------------------------------------------
void hqp(const Job& j, Bits& out) {
  typedef Api<10, 10, 4> A; A::Obj o; A::make(o, 1e-6);
  int rounds = j.warm ? 2 : 1;
  for (int k = 0; k < rounds; k++) { A::load(o, j.hqp); if (k == 0) o.m->initialize(); Outcome r = A::solve(o); out.push_back(r.valid); put(out, r.nsolved); for (double d : r.x) put(out, d); }
}
// ---- trajectories -------------------------------------------------------------------------
struct Ocp : solverlqr::OcpBase {
  const Job* j; long calls = 0;
  void configure(const YAML::Node&) override {}
  void step() { { MemOff off; yield_point("model"); } if (j->fault == 2 && ++calls == j->at) throw UserError("model"); }
  solverlqr::StateBase dynamics(const solverlqr::StateBase& s, const solverlqr::ControlBase& c, int) override {
    step(); solverlqr::StateBase r(j->xd); Eigen::VectorXd d = j->A * s.stateVector() + j->B * c.feedforward(); for (int i = 0; i < j->xd; i++) r.stateVector()[i] = 0.1 * (d[i] + std::sin(s.stateVector()[i])); return r;
  }
  double objective(const solverlqr::StateBase& s, const solverlqr::ControlBase& c, int, bool fin) override {
    step(); double v = 0; for (int i = 0; i < j->xd; i++) { double e = s.stateVector()[i] - j->c[i]; v += (fin ? 10 : 1) * (std::sqrt(1 + e * e) - 1); } if (!fin) v += 0.05 * c.feedforward().squaredNorm(); return v;
  }
};
void ddp(const Job& j, Bits& out) {
  solverlqr::SolverLqrSetting set; set.initialize(j.cfg);
  Ocp o; o.j = &j; o.initialize(set);
  for (int i = 0; i < j.xd; i++) o.stateSeq().state(0).stateVector()[i] = j.x0[i];
  try { MemOn on; solverlqr::SolverLqr s; s.initialize(&o, set); s.optimize(); } catch (UserError&) { out.push_back(96); }
  for (int t = 0; t < o.stateSeq().size(); t++) for (int i = 0; i < j.xd; i++) put(out, o.stateSeq().state(t).stateVector()[i]);
  for (int t = 0; t < o.controlSeq().size(); t++) { auto& c = o.controlSeq().control(t); for (int i = 0; i < j.ud; i++) put(out, c.feedforward()[i]); for (long i = 0; i < c.feedback().size(); i++) put(out, c.feedback().data()[i]); }
}
void run_job(const Job& j, Bits& out) { switch (j.kind) { case Job::CONIC: conic(j, out); break; case Job::LBFGS: lbfgs(j, out); break; case Job::NLP: nlp(j, out); break; case Job::HQP: hqp(j, out); break; default: ddp(j, out); } }

Job gen_job(int id, int force) {
  Job j; j.kind = force >= 0 ? (Job::Kind)force : (Job::Kind)(int)pick(Job::NK, "solver");
  j.fault = chance(0.35, "faulty") ? 1 + (int)pick(3, "fault") : 0; j.verbose = chance(0.1, "verbose");
#ifdef __SANITIZE_THREAD__
  j.verbose = false;          // concurrent use of std::cout is the library's own business
#endif
  switch (j.kind) {
    case Job::CONIC: j.prob = socp::gen(pick(2, "mixed-binary"), chance(0.3, "non-convex")); j.style = (int)pick(16, "style"); if (chance(0.4, "earlier-problem")) { j.warm = true; j.before = socp::gen(pick(2, "mixed-binary")); } j.bnb = 6 + (int)pick(10, "node-limit"); if (chance(0.3, "iteration-limit")) j.iters = 1 + (int)pick(20, "iteration-limit"); if (j.fault == 2) j.fault = 1; j.at = 1 + pick_log(3000, "fail-at"); break;
    case Job::LBFGS: case Job::NLP: j.n = 1 + (int)pick(5, "variables"); j.fun = (int)pick(3, "objective"); j.ls = (int)pick(4, "line-search"); j.past = (int)pick(3, "past"); j.m = 1 + (int)pick(6, "history"); j.maxit = 1 + (int)pick(6, "iterations"); if (j.kind == Job::NLP && j.fault == 3) j.fault = 2; j.at = 1 + pick_log(j.fault == 2 ? 40 : 8, "fail-at"); break;
    case Job::HQP: j.hqp = gen_problem(4, 10, 10, false); j.warm = pick(2, "again"); if (j.fault) poison(j.hqp); j.fault = 0; break;
    default: j.xd = 1 + (int)pick(3, "states"); j.ud = 1 + (int)pick(2, "controls"); j.T = 1 + (int)pick(4, "steps"); j.maxit = 1 + (int)pick(4, "iterations"); j.limits = pick(3, "limits") == 2; j.A.resize(j.xd, j.xd); j.B.resize(j.xd, j.ud);
      for (int i = 0; i < j.xd; i++) { for (int k = 0; k < j.xd; k++) j.A(i, k) = grid(3, 0.5, "model"); for (int k = 0; k < j.ud; k++) j.B(i, k) = grid(3, 0.5, "model"); }
      if (j.fault) j.fault = 2; j.at = 1 + pick_log(300, "fail-at"); j.n = j.xd; break;
  }
  for (int i = 0; i < j.n; i++) { j.a.push_back((1 + pick(5, "scale")) * 0.5); j.c.push_back(grid(4, 0.5, "centre")); j.x0.push_back(grid(6, 0.5, "start")); }
  if (j.kind == Job::DDP) {
    std::ostringstream o; auto list = [&](int n, double v, const Vec* w) { o << "["; for (int i = 0; i < n; i++) o << (i ? ", " : "") << (w ? (*w)[i] : v); o << "]\n"; };
    o << "solverlqr_variables:\n  verbosity: " << (j.verbose ? 2 : 0) << "\n  decimal_digits: 4\n  lqr_max_iters: " << j.maxit << "\n  linesearch_coeff: 1.1\n  linesearch_num_coeffs: 5\n  cost_change_tolerance: 1e-6\n  divergence_limit_check: 1e6\n  bpass_regularization_type: 2\n  bpass_min_regularization: 1e-6\n  bpass_max_regularization: 1e10\n  control_gradient_tolerance: 1e-6\n  bpass_initial_regularization: 0.1\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: 1.6\n  bpass_initial_mult_regularization_incr: 1.0\n"
      << "  time_step: 0.5\n  time_horizon: " << j.T * 0.5 << "\n  state_dimension: " << j.xd << "\n  control_dimension: " << j.ud << "\n  store_data: False\n  user_parameters:\n    name: user\n  has_control_limits: " << (j.limits ? "True" : "False") << "\n  initial_state: "; list(j.xd, 0, &j.x0);
    if (j.limits) { o << "  min_control_limits: "; list(j.ud, -0.5, nullptr); o << "  max_control_limits: "; list(j.ud, 0.5, nullptr); }
    j.cfg = "/proc/self/fd/" + std::to_string([&] { int fd = memfd_create("cfg", 0); std::string s = o.str(); if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); return fd; }());
  }
  (void)id;
  return j;
}
// alone, in a process that has used no solver before
Bits alone(const Job& j) {
  event("%s alone", j.name());
  int p[2]; if (pipe(p)) violate("harness-pipe", "pipe");
  pid_t pid = fork();
  if (pid < 0) violate("harness-fork", "fork");
  if (pid == 0) {
    SchedCfg quiet; quiet.p_switch_sync = 0; threads_begin(quiet); set_budget(400000000);
    Bits b; run_job(j, b); event("%s alone done", j.name());
    { NoSched ns; MemOff off; size_t n = b.size() * 8, o = 0; const char* d = (const char*)b.data(); while (o < n) { ssize_t k = write(p[1], d + o, n - o); if (k <= 0) break; o += k; } uint64_t end = 0xE0D; if (write(p[1], &end, 1) != 1) syscall(SYS_exit_group, 5); }
    syscall(SYS_exit_group, 0);
  }
  close(p[1]); std::string got; char buf[4096]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) got.append(buf, k); close(p[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) syscall(SYS_exit_group, 3);        // it reported a violation itself
  if (got.size() % 8 != 1) { if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } syscall(SYS_exit_group, WIFEXITED(st) ? WEXITSTATUS(st) : 6); }
  Bits b(got.size() / 8); memcpy(b.data(), got.data(), b.size() * 8);
  return b;
}
}
static void run() {
  static bool once = [] { std::cout.rdbuf(&nullbuf); return true; }(); (void)once;
  mem_fill(0x01);
  int nt = 2 + (int)pick_log(2, "threads"); int same = pick(3, "one-kind") == 2 ? (int)pick(Job::NK, "solver") : -1;
  std::vector<std::vector<Job>> jobs(nt); std::vector<std::vector<Bits>> ref(nt); std::string what;
  for (int t = 0; t < nt; t++) { int n = 1 + (int)pick_log(2, "jobs"); for (int k = 0; k < n; k++) jobs[t].push_back(gen_job(t, same)); }
  for (int t = 0; t < nt; t++) { what += " |"; for (auto& j : jobs[t]) { ref[t].push_back(alone(j)); what += std::string(" ") + j.name(); if (j.fault) { static const char* f[] = {"", "(allocation fails)", "(throws)", "(cancelled)"}; what += f[j.fault]; } } }
  SchedCfg wild; static const double psw[4] = {0.1, 0.3, 0.5, 0.9};
  wild.p_switch_sync = psw[pick(4, "switch-rate")]; wild.p_spurious = chance(0.3, "spurious") ? 0.1 : 0;
  { static const uint32_t pm[5] = {300, 3000, 30000, 300000, 3000000}; wild.preempt_max = pm[pick(5, "preempt-scale")]; wild.preempt_count = 1 + pick_log(600, "preemptions"); }
  threads_begin(wild); race_begin(); mem_begin();
  set_budget(2000000000ull);
  std::vector<int> ids, done(nt);
  for (int t = 0; t < nt; t++) {
    ids.push_back(spawn([&, t] {
      for (size_t k = 0; k < jobs[t].size(); k++) {
        Bits b; run_job(jobs[t][k], b);
        NoSched ns; done[t]++; if (jobs[t][k].fault) { static const char* f[] = {"", "fault.alloc_failure_armed", "fault.callback_throws_armed", "fault.cancelled_or_malformed"}; count(f[jobs[t][k].fault]); }
        hash_bits(b.data(), b.size() * 8); event("thread %d: %s done, %zu values", t, jobs[t][k].name(), b.size());
        if (b != ref[t][k]) {
          size_t i = 0; while (i < b.size() && i < ref[t][k].size() && b[i] == ref[t][k][i]) i++;
          double x = 0, y = 0; if (i < b.size()) memcpy(&x, &b[i], 8); if (i < ref[t][k].size()) memcpy(&y, &ref[t][k][i], 8);
          violate("influenced", "%s in thread %d of%s: value %zu of %zu is %.17g (%lx), alone %.17g (%lx, %zu values)", jobs[t][k].name(), t, what.c_str(), i, b.size(), x, (unsigned long)(i < b.size() ? b[i] : 0), y, (unsigned long)(i < ref[t][k].size() ? ref[t][k][i] : 0), ref[t][k].size());
        }
      }
    }));
  }
  for (int i : ids) join(i);
  if (live_threads()) violate("thread-leak", "%d background threads are left", live_threads());
  race_end();
  count("probe.switches", switches()); for (int d : done) count("probe.jobs", d); if (switches() > 2 * nt) nontrivial();
  sample("%d threads:%s; %d switches", nt, what.c_str(), switches());
  threads_end();
  state(trace_hash());
}
int main(int argc, char** argv) { return sim::main(argc, argv, run); }
