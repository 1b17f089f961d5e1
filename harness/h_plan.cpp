// C14: physics of motion plans over histories of planning steps.
// C15: planning steps that fail (memory, user callbacks, disk, infeasible problems).
// C21: kinematic plans against the contact plan, joint limits and the robot model.
#include "../sim/sim.hpp"
#include "../sim/sim_fs.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
using namespace sim;
using namespace solver;
using namespace momentumopt;
typedef std::vector<double> Vec;
typedef Eigen::Vector3d V3;
typedef Eigen::Quaternion<double> Quat;

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nullbuf;
struct UserError : std::runtime_error { using std::runtime_error::runtime_error; };
const char* EFF[] = {"rf", "lf", "rh", "lh"};
const char* STATUS[] = {"optimal", "optimal (inaccurate)", "primal infeasible", "primal infeasible (inaccurate)", "dual infeasible", "dual infeasible (inaccurate)", "iteration limit", "not converged", "indeterminate", "search direction", "slacks leave cone", "projection"};
const char* status(ExitCode e) { int i = (int)e; return i >= 0 && i < 12 ? STATUS[i] : "unknown"; }
bool optimal(ExitCode e) { return e == ExitCode::Optimal || e == ExitCode::OptimalInacc; }
const char* CFG = "/simdisk/plan.yaml";
const char* DYN = "/simdisk/plan_dyn_results.yaml";
const char* KIN = "/simdisk/plan_kin_results.yaml";

// ---- a planning problem, as the user describes it --------------------------------------
struct Contact { double on, off; V3 pos; Quat q; int type; };
struct Via { int id; V3 pos; };
struct Problem {
  int N, nact, heur; double dt, mass, g, mu, minrel, floor, tlo, thi; bool linear, store = false, defsolver = false, kin = false, fixed = false, track = false; int iters = 3;
  int sub = 2; double tmin, tmax, wtime; Eigen::Vector4d maxlen; V3 com, lmom, amom, disp, ext, off[4]; double cop[4][4];
  bool act[4]; V3 pose[4]; Quat poseq[4]; V3 frc[4];
  std::vector<Contact> cnt[4]; std::vector<Via> via[4]; std::vector<Eigen::Vector4d> comvia;
  V3 w_com, w_lmom, w_amom, w_lmomd, w_amomd, w_lfin, w_afin, w_frc, w_dfrc, w_via, w_ctrack, w_ltrack, w_atrack; double w_trq;
  int traj_iters = 1, conv_iters = 10; double kdt = 1, qlim = 10, kappa = 0.05; bool bodycon = false, show = false; V3 w_kc, w_kl, w_ka, w_ke, w_ken; double w_qd, w_qdd, w_q; int verbosity = 0;
  int dofs() const { return 3 * nact; }
};
bool active(const Problem& p, int t, int e, int* id = nullptr) {
  if (e >= 4) return false;
  bool a = false; double now = double(t + 1.0) * p.dt;
  for (size_t k = 0; k < p.cnt[e].size(); k++) if (now >= p.cnt[e][k].on && now < p.cnt[e][k].off) { a = true; if (id) *id = (int)k; }
  return a;
}
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string list(std::initializer_list<double> v) { std::string s = "["; bool f = true; for (double d : v) { if (!f) s += ", "; f = false; s += num(d); } return s + "]"; }
std::string v3(const V3& v) { return list({v.x(), v.y(), v.z()}); }
std::string rep(int n, double d) { std::string s = "["; for (int i = 0; i < n; i++) s += (i ? ", " : "") + num(d); return s + "]"; }
std::string yaml(const Problem& p) {
  std::ostringstream o;
  o << "initial_robot_configuration:\n  com: " << v3(p.com) << "\n  amom: " << v3(p.amom) << "\n  lmom: " << v3(p.lmom) << "\n  eef_ctrl:\n";
  for (int e = 0; e < 4; e++) o << "    eef_frc_" << EFF[e] << ": " << v3(p.frc[e]) << "\n";
  o << "  eef_pose:\n";
  for (int e = 0; e < 4; e++) o << "    eef_" << EFF[e] << ": " << list({p.act[e] ? 1. : 0., p.pose[e].x(), p.pose[e].y(), p.pose[e].z(), p.poseq[e].w(), p.poseq[e].x(), p.poseq[e].y(), p.poseq[e].z()}) << "\n";
  o << "terrain_description:\n  regions: []\ncontact_plan:\n";
  for (int e = 0; e < 4; e++) { o << "  effcnt_" << EFF[e] << ": ["; bool f = true; for (auto& c : p.cnt[e]) { o << (f ? "" : ",\n    ") << list({c.on, c.off, c.pos.x(), c.pos.y(), c.pos.z(), c.q.w(), c.q.x(), c.q.y(), c.q.z(), (double)c.type, -1.}); f = false; } o << "]\n"; }
  for (int e = 0; e < 4; e++) { o << "  effvia_" << EFF[e] << ": ["; bool f = true; for (auto& c : p.via[e]) { o << (f ? "" : ", ") << list({(double)c.id, c.pos.x(), c.pos.y(), c.pos.z(), 1, 0, 0, 0}); f = false; } o << "]\n"; }
  static const char* H[] = {"SoftConstraint", "TrustRegion", "TimeOptimization"};
  o << "planner_variables:\n  load_kinematics: " << (p.kin ? "True" : "False") << "\n  heuristic: " << H[p.heur] << "\n  n_act_eefs: " << p.nact << "\n  time_step: " << num(p.dt) << "\n  time_horizon: " << num((p.N + 0.5) * p.dt) << "\n  external_force: " << v3(p.ext) << "\n  com_displacement: " << v3(p.disp) << "\n  num_com_viapoints: " << p.comvia.size() << "\n  com_viapoints:\n    none: []\n";
  for (size_t k = 0; k < p.comvia.size(); k++) o << "    via" << k << ": " << list({p.comvia[k][0], p.comvia[k][1], p.comvia[k][2], p.comvia[k][3]}) << "\n";
  o << "  max_time_iterations: " << p.iters << "\n  max_time_residual_tolerance: 1e-3\n  min_time_residual_improvement: 1e-5\n  time_range: " << list({p.tmin, p.tmax}) << "\n  is_time_horizon_fixed: " << (p.fixed ? "True" : "False") << "\n  w_time: " << num(p.wtime) << "\n  w_time_penalty: 0\n";
  o << "  gravity: " << num(p.g) << "\n  robot_mass: " << num(p.mass) << "\n  friction_coeff: " << num(p.mu) << "\n  friction_cone: " << (p.linear ? "LinearCone" : "SocCone") << "\n  torque_range: " << list({p.tlo, p.thi}) << "\n  min_rel_height: " << num(p.minrel) << "\n  floor_height: " << num(p.floor) << "\n  max_eef_lengths: " << list({p.maxlen[0], p.maxlen[1], p.maxlen[2], p.maxlen[3]}) << "\n";
  for (int e = 0; e < 4; e++) o << "  eff_offset_" << EFF[e] << ": " << v3(p.off[e]) << "\n  cop_range_" << EFF[e] << ": " << list({p.cop[e][0], p.cop[e][1], p.cop[e][2], p.cop[e][3]}) << "\n";
  o << "  w_trq_arm: " << num(p.w_trq) << "\n  w_trq_leg: " << num(p.w_trq) << "\n";
  const std::pair<const char*, const V3*> w[] = {{"w_com", &p.w_com}, {"w_amom", &p.w_amom}, {"w_lmom", &p.w_lmom}, {"w_amomd", &p.w_amomd}, {"w_lmomd", &p.w_lmomd}, {"w_amom_final", &p.w_afin}, {"w_lmom_final", &p.w_lfin}, {"w_com_via", &p.w_via}, {"w_frc_arm", &p.w_frc}, {"w_frc_leg", &p.w_frc}, {"w_dfrc_arm", &p.w_dfrc}, {"w_dfrc_leg", &p.w_dfrc}, {"w_com_track", &p.w_ctrack}, {"w_lmom_track", &p.w_ltrack}, {"w_amom_track", &p.w_atrack}};
  for (auto& q : w) o << "  " << q.first << ": " << v3(*q.second) << "\n";
  if (p.kin) {
    int d = p.dofs();
    o << "  num_dofs: " << d << "\n  kd_iterations: 1\n  num_subsamples: " << p.sub << "\n  display_motion: " << (p.show ? "True" : "False") << "\n  min_joint_limits: " << rep(d, -p.qlim) << "\n  max_joint_limits: " << rep(d, p.qlim) << "\n  default_joint_positions: " << rep(d, 0) << "\n  active_dofs: [";
    for (int i = 0; i < d; i++) o << (i ? ", " : "") << i;
    o << "]\n  w_kin_com: " << v3(p.w_kc) << "\n  w_kin_lmom: " << v3(p.w_kl) << "\n  w_kin_amom: " << v3(p.w_ka) << "\n  w_kin_lmomd: [0, 0, 0]\n  w_kin_amomd: [0, 0, 0]\n  w_kin_eff_pos: " << v3(p.w_ke) << "\n  w_kin_base_ori: [1, 1, 1]\n  w_kin_joint_vel: " << rep(6 + d, p.w_qd) << "\n  w_kin_joint_acc: " << rep(6 + d, p.w_qdd)
      << "\n  slacks_penalty: 1000\n  integration_step: " << num(p.kdt) << "\n  w_kin_eff_pos_nonact: " << v3(p.w_ken) << "\n  w_kin_default_joints: " << rep(d, p.w_q) << "\n  max_trajectory_iters: " << p.traj_iters << "\n  max_convergence_iters: " << p.conv_iters << "\n  convergence_tolerance: 1e-3\n  lambda_regularization: 0.001\n  use_second_order_inv_kin: False\n"
      << "  swing_traj_via_z: 0.1\n  w_lin_mom_tracking: 1\n  w_ang_mom_tracking: 1\n  w_endeff_contact: 1\n  w_endeff_tracking: 1\n  p_endeff_tracking: 1\n  p_com_tracking: 1\n  w_joint_regularization: 1\n  reg_orientation: 1\n  reg_joint_position: 1\n  num_joint_viapoints: 0\n  num_base_viapoints: 0\n";
  }
  o << "  store_data: " << (p.store ? "True" : "False") << "\n  use_default_solver_setting: " << (p.defsolver ? "True" : "False") << "\n";
  o << "solver_variables:\n  BnB_verbose: False\n  BnB_max_iterations: 100\n  BnB_integer_tolerance: 1e-4\n  BnB_absolute_suboptimality_gap: 1e-3\n  BnB_relative_suboptimality_gap: 1e-6\n  feasibility_tolerance: 1e-7\n  absolute_suboptimality_gap: 1e-7\n  relative_suboptimality_gap: 1e-6\n  feasibility_tolerance_inaccurate: 1e-4\n  absolute_suboptimality_gap_inaccurate: 5e-5\n  relative_suboptimality_gap_inaccurate: 5e-5\n"
       "  equil_iterations: 3\n  dyn_reg_thresh: 1e-13\n  lin_sys_accuracy: 1e-14\n  err_reduction_factor: 6.0\n  num_iter_ref_lin_solve: 9\n  static_regularization: 7e-8\n  dynamic_regularization: 2e-7\n  safeguard: 500.0\n  min_step_length: 1e-6\n  max_step_length: 0.999\n  min_centering_step: 1e-4\n  max_centering_step: 1.00\n  step_length_scaling: 0.99\n"
       "  verbose: False\n  max_iters: 100\n  ipsolver_max_iters: 100\n  ipsolver_warm_iters: 100\n  num_itrefs_trustregion: 1\n  trust_region_threshold: 0.15\n  soft_constraint_weight_full: 0.5e4\n  soft_constraint_weight_reduced: 0.5e4\n";
  return o.str();
}
V3 rnd3(int n, double s, const char* tag) { double a = grid(n, s, tag), b = grid(n, s, tag), c = grid(n, s, tag); return V3(a, b, c); }
V3 wvec(double unit, const char* tag) { static const double f[] = {1, 0, 10, 0.1}; double a = f[pick(4, tag)], b = f[pick(4, tag)], c = f[pick(4, tag)]; return V3(a, b, c) * unit; }
Quat tilt(const char* tag) {
  int k = (int)pick(5, tag); double a = grid(4, 0.1, tag), b = grid(4, 0.1, tag);
  Quat q = Quat::Identity();
  if (k == 1) q = Quat(Eigen::AngleAxisd(a, V3::UnitX())); else if (k == 2) q = Quat(Eigen::AngleAxisd(b, V3::UnitY()) * Eigen::AngleAxisd(a, V3::UnitX())); else if (k == 3) q = Quat(Eigen::AngleAxisd(5 * a, V3::UnitZ())); else if (k == 4) q = Quat(Eigen::AngleAxisd(3 * a, V3::UnitY()));
  return q;
}
// when each end effector is in contact, and where
void gen_contacts(Problem& p) {
  for (int e = 0; e < 4; e++) { p.cnt[e].clear(); p.via[e].clear(); }
  double T = (p.N + 1) * p.dt;
  for (int e = 0; e < p.nact; e++) {
    double side = e % 2 ? -0.1 : 0.1; bool hand = e >= 2;
    V3 home(side * (hand ? 2 : 1), hand ? 0.2 : 0.0, hand ? -0.5 : -0.8); p.pose[e] = home; p.poseq[e] = Quat::Identity();
    int how = (int)pick(6, "contact-pattern"), n = how == 0 ? 1 : how == 5 ? 0 : 1 + (int)pick(3, "contacts");
    if (e == 0 && n == 0 && !p.kin) n = 1;
    std::vector<double> times; double t = 0;
    if (how == 0) { times = {0, T}; }
    else {
      bool first = pick(3, "starts-in-contact") != 2; int k = 0;
      if (!first) { int gap = 1 + (int)pick(std::max(1, p.N / 3), "flight"); if (p.kin) gap++; k += gap; }
      for (int c = 0; c < n; c++) {
        int len = 1 + (int)pick(std::max(1, p.N / 2), "stance"), gap = 1 + (int)pick(std::max(1, p.N / 3), "flight");
        bool exact = pick(4, "on-grid") == 3; double f = exact ? 0.0 : 0.1 * (1 + pick(9, "phase"));   // phase within a step
        double on = (c == 0 && first) ? 0 : (k + f) * p.dt, off = (k + len + (exact ? 0 : 0.1 * (1 + pick(9, "phase")))) * p.dt;
        if (c == 0 && first) off = std::max(off, 1.5 * p.dt);
        if (!p.kin || (on < p.N * p.dt)) { times.push_back(on); times.push_back(off); }
        k = (int)std::ceil(off / p.dt + 1e-9) + gap;
        if (k > p.N) break;
      }
    }
    (void)t;
    for (size_t c = 0; c + 1 < times.size(); c += 2) {
      Contact k; k.on = times[c]; k.off = times[c + 1]; k.pos = home; if (c) k.pos += V3(grid(3, 0.05, "step"), 0.05 * (c / 2) + grid(2, 0.05, "step"), grid(2, 0.05, "step"));
      k.q = tilt("contact-tilt"); k.type = (int)std::vector<int>{1, 1, 1, 2, 0}[pick(5, "contact-type")];
      p.cnt[e].push_back(k);
    }
    if (p.kin) {   // a plan the swing phases are defined for: every contact lasts a step, every flight too
      std::vector<Contact> ok; int last = -1; bool prev_flight = true;
      for (auto& c : p.cnt[e]) { int a = -1, b = -1; for (int s = 0; s < p.N; s++) { double now = double(s + 1.0) * p.dt; if (now >= c.on && now < c.off) { if (a < 0) a = s; b = s; } } if (a < 0) continue; if (last >= 0 && a < last + 2) continue; last = b; ok.push_back(c); }
      (void)prev_flight; p.cnt[e] = ok;
      for (size_t c = 0; c <= ok.size(); c++) if (pick(4, "viapoint") == 3) { Via v; v.id = (int)c - 1; v.pos = (c ? ok[c - 1].pos : home) + V3(0, 0.02, 0.1); p.via[e].push_back(v); }
    }
    p.act[e] = active(p, 0, e) && p.cnt[e][0].on <= 0;
    if (p.act[e]) { p.pose[e] = p.cnt[e][0].pos; p.poseq[e] = p.cnt[e][0].q; }
    else p.pose[e] += V3(0, 0, 0.05);
    p.frc[e] = p.act[e] ? V3(0, 0, 1.0 / p.nact) : V3(0, 0, 0);
  }
  for (int e = p.nact; e < 4; e++) { p.act[e] = false; p.pose[e] = V3(e % 2 ? -0.2 : 0.2, 0.2, -0.4); p.poseq[e] = Quat::Identity(); p.frc[e].setZero(); }
}
void gen_start(Problem& p) {
  p.com = rnd3(3, 0.02, "start-com"); bool moving = pick(2, "start-momentum");
  p.lmom = moving ? V3(rnd3(4, 0.05, "start-momentum") * p.mass) : V3(0, 0, 0); p.amom = moving ? V3(rnd3(4, 0.01, "start-momentum") * p.mass) : V3(0, 0, 0);
}
Problem gen_problem(int kinmode) {
  Problem p; static const double DT[] = {0.1, 0.05, 0.2};
  p.kin = kinmode; p.N = 3 + (int)pick(kinmode ? 6 : 10, "steps"); p.nact = 1 + (int)pick(kinmode ? 3 : 4, "end-effectors"); p.dt = DT[pick(3, "time-step")]; p.heur = (int)pick(3, "heuristic");
  static const double MASS[] = {2.5, 1, 10}; p.mass = MASS[pick(3, "mass")]; p.g = 9.81; static const double MU[] = {0.6, 1.0, 0.3, 0.05}; p.mu = MU[pick(4, "friction")]; p.linear = pick(2, "cone") == 0;
  p.minrel = 0.1 * pick(6, "height"); p.floor = -0.95; static const double TQ[] = {200, 5, 0.5}; p.thi = TQ[pick(3, "torque-range")]; p.tlo = -p.thi; if (pick(4, "torque-range") == 3) p.tlo = -0.1 * p.thi;
  static const double ML[] = {1.4, 1.0, 0.85, 0.82}; double ml = ML[pick(4, "lengths")]; p.maxlen << ml, ml, ml, ml;
  p.disp = pick(2, "goal") ? rnd3(4, 0.03, "goal") : V3(0, 0, 0); p.ext = pick(4, "push") == 3 && p.heur != 2 ? rnd3(3, 0.05, "push") : V3(0, 0, 0);
  for (int e = 0; e < 4; e++) { p.off[e] = pick(4, "offset") == 3 ? rnd3(2, 0.05, "offset") : V3(0, 0, 0); double cx = 0.02 * pick(4, "cop-range"), cy = 0.02 * (1 + pick(4, "cop-range")); p.cop[e][0] = -cx; p.cop[e][1] = cx; p.cop[e][2] = -cy; p.cop[e][3] = pick(4, "cop-range") == 3 ? 0.25 * cy : cy; }
  p.tmin = 0.3 * p.dt; p.tmax = 2 * p.dt; p.fixed = pick(2, "fixed-horizon"); p.wtime = 1000; p.iters = (int)pick(4, "time-iterations");
  p.w_com = V3(10000, 10000, 10000); if (pick(4, "weights") == 3) p.w_com = wvec(100, "weights");
  if (pick(2, "weights")) { p.w_amom = wvec(0.5, "weights"); p.w_lmom = wvec(0.01, "weights"); p.w_amomd = wvec(0.1, "weights"); p.w_lmomd = wvec(0.015, "weights"); p.w_afin = wvec(10, "weights"); p.w_lfin = wvec(10, "weights"); p.w_frc = wvec(0.001, "weights"); p.w_dfrc = wvec(0.001, "weights"); p.w_ctrack = wvec(10, "weights"); p.w_atrack = wvec(1, "weights"); p.w_ltrack = wvec(0.1, "weights"); }
  else { p.w_amom.setConstant(0.5); p.w_lmom.setConstant(0.01); p.w_amomd.setConstant(0.1); p.w_lmomd.setConstant(0.015); p.w_afin.setConstant(10); p.w_lfin.setConstant(10); p.w_frc.setConstant(0.001); p.w_dfrc.setZero(); p.w_ctrack.setZero(); p.w_atrack.setConstant(1); p.w_ltrack.setConstant(0.1); }
  p.w_trq = 1; p.w_via = V3(100, 100, 100); int nv = pick(3, "viapoints") == 2 ? 1 + (int)pick(2, "viapoints") : 0;
  gen_start(p);
  for (int k = 0; k < nv; k++) { Eigen::Vector4d v; v << (pick(p.N, "via-time") + 0.5) * p.dt, p.com.x() + grid(3, 0.02, "via"), p.com.y() + grid(3, 0.02, "via"), p.com.z() + grid(3, 0.02, "via"); p.comvia.push_back(v); }
  gen_contacts(p);
  p.defsolver = pick(8, "solver-setting") == 7;
  p.traj_iters = 1 + (int)pick(2, "trajectory-iterations"); p.conv_iters = 1 + (int)pick(10, "posture-iterations"); static const double KD[] = {1, 0.1, 0.01}; p.kdt = KD[pick(3, "integration-step")]; static const double QL[] = {10, 1, 0.4, 0.2}; p.qlim = QL[pick(4, "joint-limits")];
  p.bodycon = pick(4, "body-constraints") == 3; p.show = pick(4, "display") == 3; p.sub = p.show ? 1 + (int)pick(4, "subsamples") : 2; p.kappa = 0.02 * pick(3, "leg-mass");
  p.w_kc = V3(1, 1, 1); p.w_kl = V3(0.01, 0.01, 0.01); p.w_ka = V3(0.01, 0.01, 0.01); p.w_ke = V3(100, 100, 100); p.w_ken = V3(10, 10, 10); p.w_qd = 1e-4; p.w_qdd = 1e-5; p.w_q = pick(2, "posture-weight") ? 1e-3 : 0;
  p.verbosity = 0;
  return p;
}

// ---- the user's robot: base, rotation vector and three sliding joints per end effector --
Quat fromlog(const V3& w) { double a = w.norm(); return a < 1e-300 ? Quat::Identity() : Quat(Eigen::AngleAxisd(a, w / a)); }
V3 tolog(const Quat& q0) { Quat q = q0; if (q.w() < 0) q.coeffs() = -q.coeffs(); double s = q.vec().norm(); return s < 1e-300 ? V3(V3::Zero()) : V3(q.vec() * (2 * std::atan2(s, q.w()) / s)); }
struct Robot : KinematicsInterface {
  const Problem* p = nullptr; long calls = 0, fail_at = -1; bool sticky = false, threw = false; struct Shown { Eigen::VectorXd x; Quat q; double t; }; std::vector<Shown> shown;
  void call(const char* what) { tick(); if (fail_at >= 0 && (calls == fail_at || (sticky && calls > fail_at))) { calls++; threw = true; count("fault.kinematics_throws"); event("kinematics callback %s throws", what); throw UserError("user kinematics"); } calls++; }
  void initialize(PlannerSetting&) override { MemOff off; call("initialize"); if (p->bodycon) { constraintsVector(Eigen::VectorXd::Constant(1, 50)); Eigen::MatrixXd m = Eigen::MatrixXd::Zero(1, 6 + p->dofs()); m(0, 2) = 1; constraintsMatrix(m); } else { constraintsVector(Eigen::VectorXd()); constraintsMatrix(Eigen::MatrixXd()); } }
  V3 hip(int e) const { return V3(e % 2 ? -0.1 : 0.1, e >= 2 ? 0.2 : 0.0, e >= 2 ? -0.5 : -0.8); }
  void place(KinematicsState& s) const {
    s.centerOfMass() = s.robotPosture().basePosition(); for (int i = 0; i < p->dofs(); i++) s.centerOfMass()[i % 3] += p->kappa * s.robotPosture().jointPositions()[i];
    for (int e = 0; e < p->nact; e++) s.endeffectorPosition(e) = s.robotPosture().basePosition() + hip(e) + s.robotPosture().jointPositions().segment<3>(3 * e);
    const auto& v = s.robotVelocity().generalizedJointVelocities(); V3 c = v.head(3); for (int i = 0; i < p->dofs(); i++) c[i % 3] += p->kappa * v[6 + i];
    s.linearMomentum() = p->mass * c; s.angularMomentum() = 0.1 * p->mass * v.segment<3>(3);
  }
  KinematicsState updateJacobiansAndState(KinematicsState& s, double) override {
    MemOff off; call("updateJacobiansAndState"); KinematicsState r(s); place(r); int n = 6 + p->dofs();
    Eigen::MatrixXd jc = Eigen::MatrixXd::Zero(3, n), a = Eigen::MatrixXd::Zero(6, n); jc.leftCols(3).setIdentity(); for (int i = 0; i < p->dofs(); i++) jc(i % 3, 6 + i) = p->kappa;
    a.topRows(3) = p->mass * jc; for (int i = 0; i < 3; i++) a(3 + i, 3 + i) = 0.1 * p->mass;
    centerOfMassJacobian() = jc; centroidalMomentumMatrix() = a; centroidalMomentumMatrixVariation() = Eigen::MatrixXd::Zero(6, n);
    for (int e = 0; e < p->nact; e++) { Eigen::MatrixXd j = Eigen::MatrixXd::Zero(6, n); j.topLeftCorner(3, 3).setIdentity(); j.block(0, 6 + 3 * e, 3, 3).setIdentity(); j.block(3, 3, 3, 3).setIdentity(); endeffectorJacobian(e) = j; }
    return r;
  }
  KinematicsState integratePosture(KinematicsState& s, double dt) override {
    MemOff off; call("integratePosture"); KinematicsState r(s); const auto& v = s.robotVelocity().generalizedJointVelocities();
    r.robotPosture().basePosition() += dt * v.head(3); r.robotPosture().baseOrientation() = fromlog(tolog(s.robotPosture().baseOrientation()) + dt * v.segment<3>(3)); r.robotPosture().jointPositions() += dt * v.tail(p->dofs());
    place(r); return r;
  }
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double dt) override {
    MemOff off; call("differentiatePostures"); KinematicsState r(b); auto& v = r.robotVelocity().generalizedJointVelocities();
    v.head(3) = (b.robotPosture().basePosition() - a.robotPosture().basePosition()) / dt; v.segment<3>(3) = (tolog(b.robotPosture().baseOrientation()) - tolog(a.robotPosture().baseOrientation())) / dt; v.tail(p->dofs()) = (b.robotPosture().jointPositions() - a.robotPosture().jointPositions()) / dt;
    r.robotAcceleration().generalizedJointAccelerations() = (v - a.robotVelocity().generalizedJointVelocities()) / dt;
    place(r); return r;
  }
  V3 logarithmicMap(const Eigen::Vector4d q) override { MemOff off; call("logarithmicMap"); return tolog(Quat(q[0], q[1], q[2], q[3])); }
  void displayPosture(const KinematicsState& s, double t) override { MemOff off; call("displayPosture"); Eigen::VectorXd x(3 + p->dofs()); x << s.robotPosture().basePosition(), s.robotPosture().jointPositions(); shown.push_back(Shown{x, s.robotPosture().baseOrientation(), t}); }
};

// ---- one set of planner objects ---------------------------------------------------------
struct Rig {
  Problem p; PlannerSetting set; DynamicsState ini; ContactPlanFromFile plan; TerrainDescription terrain; DynamicsOptimizer dyn; KinematicsOptimizer kin; Robot robot; KinematicsSequence ref; bool kin_ready = false, have_plan = false, exact = false, seq_ready = false;
  bool timed() const { for (int t = 0; t < dyn.dynamicsSequence().size(); t++) if (!(dyn.dynamicsSequence().dynamicsState(t).time() > 0.1 * p.tmin)) return false; return true; }   // steps of an inexact plan may last less than nothing
  void load(const Problem& q) {      // (re-)initialise everything
    p = q; FsCfg keep = fs_cfg(); fs_cfg() = FsCfg(); fs_put(CFG, yaml(p));
    set.initialize(CFG); set.get(PlannerStringParam_ConfigFile);
    ini = DynamicsState(); ini.fillInitialRobotState(CFG); terrain.loadFromFile(CFG);
    plan.initialize(set); plan.optimize(ini, terrain); dyn.initialize(set); robot.p = &p; robot.calls = 0; robot.fail_at = -1; robot.threw = false;
    if (p.kin) kin.initialize(set, &robot);
    ref = KinematicsSequence(); ref.resize(p.N, p.kin ? p.dofs() : 0); fs_cfg() = keep; have_plan = seq_ready = false;
  }
  void contacts(const Problem& q) { p = q; FsCfg keep = fs_cfg(); fs_cfg() = FsCfg(); fs_put(CFG, yaml(p)); plan.optimize(ini, terrain); ini = DynamicsState(); ini.fillInitialRobotState(CFG); fs_cfg() = keep; have_plan = seq_ready = false; }
};
void put(Vec& o, const V3& v) { o.insert(o.end(), v.data(), v.data() + 3); }
Vec flat(const DynamicsSequence& s) {
  Vec o; for (int t = 0; t < s.size(); t++) { const DynamicsState& d = s.dynamicsState(t); o.push_back(d.time()); put(o, d.centerOfMass()); put(o, d.linearMomentum()); put(o, d.angularMomentum());
    for (int e = 0; e < 4; e++) { o.push_back(d.endeffectorActivation(e)); o.push_back(d.endeffectorContactId(e)); put(o, d.endeffectorForce(e)); put(o, d.endeffectorCoP(e)); put(o, d.endeffectorTorque(e)); } }
  return o;
}
Vec flat(const KinematicsSequence& s) {
  Vec o; for (int t = 0; t < s.size(); t++) { const KinematicsState& k = s.kinematicsState(t); put(o, k.centerOfMass()); put(o, k.linearMomentum()); put(o, k.angularMomentum()); Eigen::VectorXd v = k.robotPosture().generalizedJointPositions(); o.insert(o.end(), v.data(), v.data() + v.size()); v = k.robotVelocity().generalizedJointVelocities(); o.insert(o.end(), v.data(), v.data() + v.size()); v = k.robotAcceleration().generalizedJointAccelerations(); o.insert(o.end(), v.data(), v.data() + v.size()); }
  return o;
}
Vec flat(const PlannerSetting& s) {
  Vec o; PlannerVectorParam vp[] = {PlannerVectorParam_TorqueRange, PlannerVectorParam_ExternalForce, PlannerVectorParam_GravityVector, PlannerVectorParam_CenterOfMassMotion, PlannerVectorParam_MaxEndeffectorLengths, PlannerVectorParam_WeightArmForce, PlannerVectorParam_WeightLegForce, PlannerVectorParam_WeightArmForceRate, PlannerVectorParam_WeightLegForceRate, PlannerVectorParam_WeightCenterOfMass, PlannerVectorParam_WeightLinearMomentum, PlannerVectorParam_WeightAngularMomentum, PlannerVectorParam_WeightLinearMomentumRate, PlannerVectorParam_WeightAngularMomentumRate, PlannerVectorParam_WeightFinalLinearMomentum, PlannerVectorParam_WeightCenterOfMassViapoint, PlannerVectorParam_WeightFinalAngularMomentum, PlannerVectorParam_WeightDynamicTrackingCenterOfMass, PlannerVectorParam_WeightDynamicTrackingLinearMomentum, PlannerVectorParam_WeightDynamicTrackingAngularMomentum};
  for (auto k : vp) { auto v = s.get(k); for (int i = 0; i < v.size(); i++) o.push_back(v(i)); }
  PlannerDoubleParam dp[] = {PlannerDoubleParam_Gravity, PlannerDoubleParam_TimeStep, PlannerDoubleParam_RobotMass, PlannerDoubleParam_TimeHorizon, PlannerDoubleParam_MinRelHeight, PlannerDoubleParam_MassTimesGravity, PlannerDoubleParam_FrictionCoefficient, PlannerDoubleParam_WeightArmTorque, PlannerDoubleParam_WeightLegTorque, PlannerDoubleParam_FloorHeight};
  for (auto k : dp) o.push_back(s.get(k));
  o.push_back(s.get(PlannerIntParam_NumTimesteps)); o.push_back(s.get(PlannerIntParam_NumActiveEndeffectors)); o.push_back(s.get(PlannerIntParam_NumViapoints));
  for (int e = 0; e < 4; e++) { auto v = s.get(PlannerArrayParam_CenterOfPressureRange)[e]; for (int i = 0; i < v.size(); i++) o.push_back(v(i)); v = s.get(PlannerArrayParam_EndeffectorOffset)[e]; for (int i = 0; i < v.size(); i++) o.push_back(v(i)); }
  return o;
}
int differs(const Vec& a, const Vec& b, double tol) {
  if (a.size() != b.size()) return 0;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(a[i]) + std::fabs(b[i])))) return (int)i;
  return -1;
}

// ---- C14: the plan against the momentum dynamics and the contacts ----------------------------
#ifdef CAL
FILE* out_cal;
bool over(const char* name, ExitCode c, double excess, double unit, double) { if (excess / unit > 1e-6) (out_cal = out_cal ? out_cal : fopen("/tmp/cal.txt", "a")), fprintf(out_cal, "CAL %s %s %.3g\n", name, c == ExitCode::Optimal ? "opt" : "inacc", excess / unit), fflush(out_cal); return false; }
#else
bool over(const char*, ExitCode c, double excess, double unit, double tol) { return c == ExitCode::Optimal && !(excess <= tol * unit); }   // an inaccurate optimum promises none of these
#endif
void physics(const Rig& r, ExitCode code, const char* when) {
  const Problem& p = r.p; const DynamicsSequence& s = r.dyn.dynamicsSequence(); bool timeopt = p.heur == 2;
  double mg = p.mass * p.g;
  if (s.size() != p.N) violate("wrong-length", "%d states for %d steps (%s)", s.size(), p.N, when);
  Eigen::Vector3d com = p.com, lm = p.lmom, am = p.amom; double sum_dt = 0, minz = 0; bool have_ref = false;
  for (int t = 0; t < p.N && !have_ref; t++) for (int e = 0; e < p.nact && !have_ref; e++) { int id; if (active(p, t, e, &id)) { have_ref = true; minz = p.cnt[e][id].pos.z() + p.minrel; } }
  for (int t = 0; t < p.N; t++) {
    const DynamicsState& d = s.dynamicsState(t); double dt = timeopt ? d.time() : p.dt;
    for (double v : {d.centerOfMass().norm(), d.linearMomentum().norm(), d.angularMomentum().norm(), d.time()}) if (!std::isfinite(v)) violate("not-a-plan", "step %d of a plan reported as %s is not finite (%s)", t, status(code), when);
    if (!timeopt && d.time() != p.dt) violate("time-step", "step %d lasts %g, configured is %g (%s)", t, d.time(), p.dt, when);
    if (timeopt && over("time-step", code, std::max(p.tmin - dt, dt - p.tmax), p.dt, 0.5)) violate("time-step", "step %d lasts %.9g, the range is %g..%g (%s)", t, dt, p.tmin, p.tmax, when);
    sum_dt += dt;
    V3 f = V3::Zero(), m = V3::Zero();
    for (int e = 0; e < 4; e++) {
      int id = -1; bool a = e < p.nact && active(p, t, e, &id); 
      if (d.endeffectorActivation(e) != active(p, t, e, &id)) violate("contact-schedule", "end effector %s at step %d is %s contact in the plan, by the contact plan it is %s (%s)", EFF[e], t, d.endeffectorActivation(e) ? "in" : "not in", active(p, t, e) ? "in" : "not in", when);
      if (!a) { if (d.endeffectorForce(e).norm() != 0 || d.endeffectorTorque(e).norm() != 0 || d.endeffectorCoP(e).norm() != 0) violate("force-without-contact", "end effector %s is not in contact at step %d and has force %g %g %g, torque %g (%s)", EFF[e], t, d.endeffectorForce(e).x(), d.endeffectorForce(e).y(), d.endeffectorForce(e).z(), d.endeffectorTorque(e).z(), when); continue; }
      const Contact& c = p.cnt[e][id]; Eigen::Matrix3d R = c.q.toRotationMatrix(); V3 lf = R.transpose() * d.endeffectorForce(e), cp = d.endeffectorCoP(e); double tz = d.endeffectorTorque(e).z(), fs = 1 + d.endeffectorForce(e).norm();
      if (d.endeffectorContactId(e) != id) violate("contact-schedule", "end effector %s at step %d has contact %d, the contact plan says %d (%s)", EFF[e], t, d.endeffectorContactId(e), id, when);
      if ((d.endeffectorPosition(e) - c.pos).norm() > 1e-12 || std::fabs(d.endeffectorOrientation(e).coeffs().dot(c.q.coeffs())) < 1 - 1e-9) violate("contact-pose", "end effector %s at step %d is not where contact %d is (%s)", EFF[e], t, id, when);
      if (!std::isfinite(fs) || !std::isfinite(tz) || !std::isfinite(cp.norm())) violate("not-a-plan", "the force of %s at step %d of a plan reported as %s is not finite (%s)", EFF[e], t, status(code), when);
      double mu = std::max(p.mu, 0.001), side = p.linear ? (std::fabs(lf.x()) + std::fabs(lf.y())) / std::sqrt(2.0) : std::hypot(lf.x(), lf.y());
      if (c.type != 2 && over("friction-cone", code, side - mu * lf.z(), fs, 0.08)) violate("friction-cone", "the force of %s at step %d in the contact frame is %.9g %.9g %.9g, friction %g %s (%s)", EFF[e], t, lf.x(), lf.y(), lf.z(), mu, p.linear ? "pyramid" : "cone", when);
      for (int k = 0; k < 2; k++) if (over("centre-of-pressure", code, std::max(p.cop[e][2 * k] - cp[k], cp[k] - p.cop[e][2 * k + 1]), 1, 0.005)) violate("centre-of-pressure", "the centre of pressure of %s at step %d is %.9g %.9g, range %g..%g, %g..%g (%s)", EFF[e], t, cp.x(), cp.y(), p.cop[e][0], p.cop[e][1], p.cop[e][2], p.cop[e][3], when);
      if (over("torque-range", code, std::max(p.tlo - tz, tz - p.thi), 1 + std::fabs(p.thi), 5e-3)) violate("torque-range", "the torque of %s at step %d is %.9g, range %g..%g (%s)", EFF[e], t, tz, p.tlo, p.thi, when);
      V3 len = c.pos - d.centerOfMass() + R.col(0) * cp.x() + R.col(1) * cp.y();
      if (!timeopt && over("end-effector-length", code, (len - p.off[e]).norm() - p.maxlen[e], 1, 0.02)) violate("end-effector-length", "%s is %.9g away from the centre of mass at step %d, at most %g (%s)", EFF[e], (len - p.off[e]).norm(), t, p.maxlen[e], when);
      V3 at = V3(0, 0, tz) + cp.cross(mg * lf); if ((at - d.endeffectorTorqueAtContactPoint(e)).norm() > 1e-9 * (1 + at.norm())) violate("contact-torque", "the torque of %s at the contact point of step %d is %g %g %g, not %g %g %g (%s)", EFF[e], t, d.endeffectorTorqueAtContactPoint(e).x(), d.endeffectorTorqueAtContactPoint(e).y(), d.endeffectorTorqueAtContactPoint(e).z(), at.x(), at.y(), at.z(), when);
      f += mg * d.endeffectorForce(e); m += len.cross(mg * d.endeffectorForce(e)) + R.col(2) * tz;
    }
    V3 rate = V3(0, 0, -mg) + f; if (t == 0 && !timeopt) rate += mg * p.ext;
    double ms = mg * p.dt * (1 + f.norm() / mg);
    if (timeopt) {
      if (over("momentum-rate", code, (d.linearMomentumRate() - rate).norm(), mg * (1 + f.norm() / mg), 0.003)) violate("momentum-rate", "the rate of linear momentum at step %d is off by %.3g of weight (%s)", t, (d.linearMomentumRate() - rate).norm() / mg, when);
    } else {
      V3 l1 = lm + p.dt * rate, c1 = com + (p.dt / p.mass) * d.linearMomentum(), a1 = am + p.dt * m;
      if (over("linear-momentum", code, (l1 - d.linearMomentum()).norm(), ms, 0.003)) violate("linear-momentum", "the linear momentum after step %d is %.9g %.9g %.9g, the forces give %.9g %.9g %.9g (%s)", t, d.linearMomentum().x(), d.linearMomentum().y(), d.linearMomentum().z(), l1.x(), l1.y(), l1.z(), when);
      if (over("centre-of-mass", code, (c1 - d.centerOfMass()).norm(), 1, 0.003)) violate("centre-of-mass", "the centre of mass after step %d is %.9g %.9g %.9g, the momentum gives %.9g %.9g %.9g (%s)", t, d.centerOfMass().x(), d.centerOfMass().y(), d.centerOfMass().z(), c1.x(), c1.y(), c1.z(), when);
      if ((a1 - d.angularMomentum()).norm() > 1e-9 * (ms + a1.norm())) violate("angular-momentum", "the angular momentum after step %d is %.9g %.9g %.9g, forces and torques give %.9g %.9g %.9g (%s)", t, d.angularMomentum().x(), d.angularMomentum().y(), d.angularMomentum().z(), a1.x(), a1.y(), a1.z(), when);
    }
    if (have_ref && over("height", code, minz - d.centerOfMass().z(), 1, 0.03)) violate("height", "the centre of mass after step %d is at height %.9g, at least %g is required (%s)", t, d.centerOfMass().z(), minz, when);
    com = d.centerOfMass(); lm = d.linearMomentum(); am = d.angularMomentum();
  }
  if (timeopt && p.fixed && over("time-horizon", code, std::fabs(sum_dt - p.N * p.dt), p.N * p.dt, 0.3)) violate("time-horizon", "the plan lasts %.9g, fixed is %g (%s)", sum_dt, p.N * p.dt, when);
}

// ---- C21: a kinematic plan ------------------------------------------------------------------
void swing(const Rig& r, const DynamicsSequence& s, const char* when) {
  const Problem& p = r.p; std::vector<double> T; double acc = 0; for (int t = 0; t < p.N; t++) { acc += s.dynamicsState(t).time(); T.push_back(acc); }
  for (int e = 0; e < p.nact; e++) {
    if (p.cnt[e].empty()) continue;
    int prev = -1, start = -1; // contact before the flight
    for (int t = 0; t <= p.N; t++) {
      int id = -1; bool a = t < p.N && active(p, t, e, &id);
      if (t < p.N && !s.dynamicsState(t).endeffectorPosition(e).allFinite()) violate("swing-phase", "the position of %s at step %d is not finite (%s)", EFF[e], t, when);
      if (t < p.N && !a && start < 0) start = t;
      if (a && (s.dynamicsState(t).endeffectorPosition(e) - p.cnt[e][id].pos).norm() > 1e-9) violate("swing-phase", "%s is in contact at step %d and not at the contact (%s)", EFF[e], t, when);
      if ((a || t == p.N) && start >= 0) {      // flight from step start to t-1
        bool first = prev < 0, last = t == p.N; V3 from = first ? r.ini.endeffectorPosition(e) : p.cnt[e][prev].pos, to = last ? V3(r.ini.endeffectorPosition(e) + p.disp) : p.cnt[e][id].pos, a0 = s.dynamicsState(start).endeffectorPosition(e), a1 = s.dynamicsState(t - 1).endeffectorPosition(e);
        if (t - 1 > start && (a0 - from).norm() > 1e-5) violate("swing-phase", "the flight of %s starts at step %d %.3g away from where it was (%s)", EFF[e], start, (a0 - from).norm(), when);
        if ((a1 - to).norm() > 1e-5) violate("swing-phase", "the flight of %s ends at step %d %.3g away from the next contact (%s)", EFF[e], t - 1, (a1 - to).norm(), when);
        V3 via = 0.5 * (from + to); for (auto& v : p.via[e]) if (v.id == (first ? -1 : prev)) { via = v.pos; break; }
        double t0 = T[start], t1 = T[t - 1], size = (to - from).norm() + (via - from).norm();      // from rest to rest in the time the plan gives it, through the via point half-way
        if (t1 - t0 > 1e-3) for (int k = start; k < t; k++) {
          double x = (T[k] - t0) / (t1 - t0), b = x * x * x * (10 - 15 * x + 6 * x * x), h = 64 * x * x * x * (1 - x) * (1 - x) * (1 - x), db = 30 * x * x * (1 - x) * (1 - x), dh = 192 * x * x * (1 - x) * (1 - x) * (1 - 2 * x);
          V3 at = from + b * (to - from) + h * (via - 0.5 * (from + to)), v = (db * (to - from) + dh * (via - 0.5 * (from + to))) / (t1 - t0);
          double off = (s.dynamicsState(k).endeffectorPosition(e) - at).norm(), dv = (s.dynamicsState(k).endeffectorVelocity(e) - v).norm();
          if (!(off <= 1e-3 * size + 1e-5)) violate("swing-path", "in its flight from step %d to %d, %s is %.3g away from the path through its via point at step %d (%s)", start, t - 1, EFF[e], off, k, when);
          if (!(dv <= 1e-2 * size / (t1 - t0) + 1e-4)) violate("swing-path", "in its flight from step %d to %d, the velocity of %s at step %d is off by %.3g (%s)", start, t - 1, EFF[e], k, dv, when);
        }
        start = -1; count("probe.flight");
      }
      if (a) prev = id;
    }
  }
}
void kinematics(const Rig& r, ExitCode code, const DynamicsSequence& s, const char* when) {
  const Problem& p = r.p; const KinematicsSequence& k = r.kin.kinematicsSequence(); double tol = code == ExitCode::OptimalInacc ? 2e-2 : 1e-4;
  if (k.size() != p.N) violate("wrong-length", "%d postures for %d steps (%s)", k.size(), p.N, when);
  double spin = 0; for (int t = 0; t < p.N; t++) spin += s.dynamicsState(t).angularMomentum().norm() * s.dynamicsState(t).time() / (0.1 * p.mass);
  bool turned = !(spin < 1); for (int t = 0; t < p.N; t++) if (!r.have_plan || !(tolog(k.kinematicsState(t).robotPosture().baseOrientation()).norm() < 1.5)) turned = true;   // the rotation vector is not unique
  for (int t = 0; t < p.N; t++) {
    const KinematicsState& c = k.kinematicsState(t); double dt = s.dynamicsState(t).time();
    Eigen::VectorXd q = c.robotPosture().jointPositions(), v = c.robotVelocity().generalizedJointVelocities(), a = c.robotAcceleration().generalizedJointAccelerations();
    if (!q.allFinite() || !v.allFinite() || !a.allFinite() || !c.robotPosture().basePosition().allFinite() || !c.robotPosture().baseOrientation().coeffs().allFinite()) violate("not-a-plan", "posture %d of a plan reported as %s is not finite (%s)", t, status(code), when);
    for (int i = 0; i < p.dofs(); i++) if (over("joint-limit", code, std::fabs(q[i]) - p.qlim, 1, tol)) violate("joint-limit", "joint %d is at %.9g at step %d, limit %g (%s)", i, q[i], t, p.qlim, when);
    for (int e = 0; e < p.nact; e++) if (over("floor", code, p.floor - c.endeffectorPosition(e).z(), 1, tol)) violate("floor", "%s is at height %.9g at step %d, the floor is at %g (%s)", EFF[e], c.endeffectorPosition(e).z(), t, p.floor, when);
    if (t > 0) {
      const KinematicsState& b = k.kinematicsState(t - 1); Eigen::VectorXd w(6 + p.dofs());
      w.head(3) = (c.robotPosture().basePosition() - b.robotPosture().basePosition()) / dt; w.segment<3>(3) = (tolog(c.robotPosture().baseOrientation()) - tolog(b.robotPosture().baseOrientation())) / dt; w.tail(p.dofs()) = (q - b.robotPosture().jointPositions()) / dt;
      if ((w - v).norm() > 1e-9 * (1 + v.norm())) violate("velocity", "the velocities of step %d are not the change of posture divided by the time step (%s)", t, when);
      Eigen::VectorXd x = (v - b.robotVelocity().generalizedJointVelocities()) / dt;
      if (!turned && over("acceleration", code, (x - a).norm(), 1 + a.norm() + v.norm() / dt, tol)) violate("acceleration", "the accelerations of step %d differ from the change of velocity by %.3g (norm %.3g) (%s)", t, (x - a).norm(), a.norm(), when);
    } else {
      Eigen::VectorXd x = v / dt; if (!turned && over("acceleration", code, (x - a).norm(), 1 + a.norm() + v.norm() / dt, tol)) violate("acceleration", "the accelerations of step 0 differ from the change of velocity by %.3g (norm %.3g) (%s)", (x - a).norm(), a.norm(), when);
    }
  }
}
// a calm problem: nothing keeps the robot from following
// the motion shown on the screen: every step in equal parts, from the posture before it to its own
void display(Rig& r, const DynamicsSequence& d, const char* when) {
  const Problem& p = r.p; const std::vector<Robot::Shown>& v = r.robot.shown;
  if ((long)v.size() != (long)p.sub * p.N) violate("display", "%zu postures displayed in %d steps, %d per step are configured (%s)", v.size(), p.N, p.sub, when);
  auto flatten = [&](const KinematicsState& s) { Eigen::VectorXd x(3 + p.dofs()); x << s.robotPosture().basePosition(), s.robotPosture().jointPositions(); return x; };
  for (int t = 0; t < p.N; t++) {
    const KinematicsState& b = r.kin.kinematicsSequence().kinematicsState(t); Eigen::VectorXd x0 = t ? flatten(r.kin.kinematicsSequence().kinematicsState(t - 1)) : v[0].x, x1 = flatten(b);
    Quat q0 = t ? r.kin.kinematicsSequence().kinematicsState(t - 1).robotPosture().baseOrientation() : v[0].q, q1 = b.robotPosture().baseOrientation(); if (!x0.allFinite() || !x1.allFinite()) return;
    for (int k = 0; k < p.sub; k++) { const Robot::Shown& o = v[t * p.sub + k]; double f = k / (double)p.sub; Eigen::VectorXd x = x0 + f * (x1 - x0); Quat rel = q0.inverse() * q1; Quat q = q0 * fromlog(f * tolog(rel)); double e = std::max((x - o.x).lpNorm<Eigen::Infinity>() / (1 + x.lpNorm<Eigen::Infinity>()), tolog(q.inverse() * o.q).norm());
      double dt = d.dynamicsState(t).time() / p.sub; if (!(e < 1e-6)) violate("display", "posture %d of step %d on the display is %.3g away from the motion (%s)", k, t, e, when); if (!(std::fabs(o.t - dt) < 1e-9)) violate("display", "posture %d of step %d is displayed for %.9g of %.9g (%s)", k, t, o.t, dt, when); }
  }
  count("probe.displayed");
}
void follows(const Rig& r, const DynamicsSequence& s, const char* when) {
  const Problem& p = r.p; double e1 = 0, e2 = 0;
  for (int t = 0; t < p.N; t++) { const KinematicsState& c = r.kin.kinematicsSequence().kinematicsState(t); for (int e = 0; e < p.nact; e++) if (active(p, t, e)) e1 = std::max(e1, (c.endeffectorPosition(e) - s.dynamicsState(t).endeffectorPosition(e)).norm()); e2 = std::max(e2, (c.centerOfMass() - s.dynamicsState(t).centerOfMass()).norm()); }
  
#ifdef CAL
  printf("N=%d dt=%g mass=%g heur=%d kdt=%g ti=%d ci=%d wq=%g kappa=%g bodycon=%d nact=%d\n", p.N, p.dt, p.mass, p.heur, p.kdt, p.traj_iters, p.conv_iters, p.w_q, p.kappa, p.bodycon, p.nact);
  for (int t = 0; t < p.N; t++) { const KinematicsState& c = r.kin.kinematicsSequence().kinematicsState(t); const DynamicsState& d = s.dynamicsState(t); printf("%d com %s | %s lm %s | %s\n", t, v3(c.centerOfMass()).c_str(), v3(d.centerOfMass()).c_str(), v3(c.linearMomentum()).c_str(), v3(d.linearMomentum()).c_str()); for (int e = 0; e < p.nact; e++) printf("  %d %d %s %s\n", e, active(p,t,e), v3(c.endeffectorPosition(e)).c_str(), v3(d.endeffectorPosition(e)).c_str()); }
#endif
  event("follows: end effectors %.3g, centre of mass %.3g", e1, e2);
  if (over("follow-eff", ExitCode::Optimal, e1, 1, 0.02)) violate("contact-not-followed", "an end effector is %.3g away from its contact although nothing keeps the robot from following (%s)", e1, when);
  if (over("follow-com", ExitCode::Optimal, e2, 1, 0.35)) violate("motion-not-followed", "the centre of mass is %.3g away from the planned motion although nothing keeps the robot from following (%s)", e2, when);
}

// ---- result files ---------------------------------------------------------------------------
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
YAML::Node at(const YAML::Node& n, const std::string& k) { if (!n.IsMap()) throw Bad("no map around " + k); YAML::Node c = n[k]; if (!c) throw Bad(k + " is missing"); return c; }
std::vector<Vec> mat(const YAML::Node& g, const std::string& k, int rows, int cols) {
  YAML::Node n = at(g, k); if (!n.IsSequence() || (int)n.size() != rows) throw Bad(k + " has the wrong size"); std::vector<Vec> o;
  for (int i = 0; i < rows; i++) { Vec v; if (!n[i].IsSequence() || (int)n[i].size() != cols) throw Bad(k + " has the wrong size"); for (int j = 0; j < cols; j++) v.push_back(n[i][j].as<double>()); o.push_back(v); }
  return o;
}
bool eq(double a, double b) { return (a != a && b != b) || a == b || std::fabs(a - b) <= 1e-14 * std::fabs(a); }
void dyn_file(const Rig& r, const char* d) {
  std::string bytes; const Problem& p = r.p; const DynamicsSequence& s = r.dyn.dynamicsSequence();
  if (!fs_get(DYN, bytes)) violate("incomplete-file", "planning with store_data returned normally, there is no result file (%s)", d);
  std::string where; auto same = [&](double a, double b) { if (!eq(a, b)) violate("wrong-file", "planning returned normally; %s is %.17g in the file, %.17g in memory (%s)", where.c_str(), a, b, d); };
  try {
    YAML::Node root = YAML::Load(bytes), g = at(root, "dynopt_params"), c = at(root, "contact_plan");
    if (at(g, "n_act_eefs").as<int>() != p.nact) throw Bad("n_act_eefs");
    where = "time_step"; same(at(g, "time_step").as<double>(), p.dt); where = "robot_mass"; same(at(g, "robot_mass").as<double>(), p.mass);
    for (int e = 0; e < 4; e++) { YAML::Node l = at(c, std::string("effcnt_") + EFF[e]); if (!l.IsSequence() || l.size() != p.cnt[e].size()) throw Bad("contacts"); for (size_t k = 0; k < l.size(); k++) { where = "contact"; same(l[k][0].as<double>(), p.cnt[e][k].on); same(l[k][1].as<double>(), p.cnt[e][k].off); } }
    auto com = mat(g, "com_motion", 3, p.N), lm = mat(g, "lin_mom", 3, p.N), am = mat(g, "ang_mom", 3, p.N), cr = mat(g, "com_motion_ref", 3, p.N), ar = mat(g, "ang_mom_ref", 3, p.N), jv = mat(g, "jnt_vel", 6 + (p.kin ? p.dofs() : 0), p.N), ja = mat(g, "jnt_acc", 6 + (p.kin ? p.dofs() : 0), p.N), lr = mat(g, "lin_mom_ref", 3, p.N), tv = mat(g, "time_vec", 1, p.N); double T = 0;
    for (int t = 0; t < p.N; t++) { const DynamicsState& x = s.dynamicsState(t); where = "step " + std::to_string(t); for (int i = 0; i < 3; i++) { same(com[i][t], x.centerOfMass()[i]); same(lm[i][t], x.linearMomentum()[i]); same(am[i][t], x.angularMomentum()[i]); same(cr[i][t], r.ref.kinematicsState(t).centerOfMass()[i]); same(lr[i][t], r.ref.kinematicsState(t).linearMomentum()[i]); same(ar[i][t], r.ref.kinematicsState(t).angularMomentum()[i]); } for (size_t i = 0; i < jv.size(); i++) { same(jv[i][t], r.ref.kinematicsState(t).robotVelocity().generalizedJointVelocities()[i]); same(ja[i][t], r.ref.kinematicsState(t).robotAcceleration().generalizedJointAccelerations()[i]); } T += x.time(); if (std::fabs(tv[0][t] - T) > 1e-9 * (1 + T)) same(tv[0][t], T); }
    for (int e = 0; e < p.nact; e++) {
      auto f = mat(g, "eef_frc_" + std::to_string(e), 3, p.N), q = mat(g, "eef_trq_" + std::to_string(e), 1, p.N); int n = 0; for (int t = 0; t < p.N; t++) n += s.dynamicsState(t).endeffectorActivation(e);
      std::vector<Vec> cp; if (n) cp = mat(g, "eef_cop_" + std::to_string(e), 2, n); else at(g, "eef_cop_" + std::to_string(e));
      for (int t = 0, k = 0; t < p.N; t++) { const DynamicsState& x = s.dynamicsState(t); where = std::string("force of ") + EFF[e] + " at step " + std::to_string(t); for (int i = 0; i < 3; i++) same(f[i][t], x.endeffectorForce(e)[i]); same(q[0][t], x.endeffectorTorque(e).z()); if (x.endeffectorActivation(e)) { same(cp[0][k], x.endeffectorCoP(e).x()); same(cp[1][k], x.endeffectorCoP(e).y()); k++; } }
    }
  } catch (std::exception& e) { violate("incomplete-file", "planning with store_data returned normally, the result file of %zu bytes is not complete: %s (%s)", bytes.size(), e.what(), d); }
}
void kin_file(const Rig& r, const char* d) {
  std::string bytes; const Problem& p = r.p; const KinematicsSequence& s = r.kin.kinematicsSequence();
  if (!fs_get(KIN, bytes)) violate("incomplete-file", "the kinematics step with store_data returned normally, there is no result file (%s)", d);
  try {
    YAML::Node root = YAML::Load(bytes); at(at(root, "initial_robot_configuration"), "generalized_joint_positions");
    for (int t = 0; t < p.N; t++) { YAML::Node n = at(root, "dyn_state_" + std::to_string(t)); at(n, "time"); const char* K[] = {"generalized_joint_positions", "generalized_joint_velocities", "generalized_joint_accelerations"}; Eigen::VectorXd v[3] = {s.kinematicsState(t).robotPosture().generalizedJointPositions(), s.kinematicsState(t).robotVelocity().generalizedJointVelocities(), s.kinematicsState(t).robotAcceleration().generalizedJointAccelerations()};
      for (int k = 0; k < 3; k++) { YAML::Node l = at(n, K[k]); if (!l.IsSequence() || (int)l.size() != v[k].size()) throw Bad(K[k]); for (int i = 0; i < v[k].size(); i++) if (!eq(l[i].as<double>(), v[k][i])) violate("wrong-file", "the kinematics step returned normally; %s of step %d is %.17g in the file, %.17g in memory (%s)", K[k], t, l[i].as<double>(), v[k][i], d); } }
  } catch (std::exception& e) { violate("incomplete-file", "the kinematics step with store_data returned normally, the result file of %zu bytes is not complete: %s (%s)", bytes.size(), e.what(), d); }
}

// ---- the run --------------------------------------------------------------------------------
struct Out { bool threw = false; ExitCode code = ExitCode::Indeterminate; std::string what; };
template <class F> Out guarded(F f) { Out o; try { MemOn on; o.code = f(); } catch (std::exception& e) { o.threw = true; o.what = e.what(); } catch (...) { o.threw = true; o.what = "?"; } return o; }
struct Run {
  std::unique_ptr<Rig> r; std::string hist; bool c15 = prop() == "C15", c21 = prop() == "C21", c14 = prop() == "C14";
  // the same planning step with objects that have no past
  Out fresh(Rig& f, bool track) { FsCfg keep = fs_cfg(); fs_cfg() = FsCfg(); Problem q = r->p; q.store = false; f.load(q); f.ref = r->ref; f.ini = r->ini; Out o; try { o.code = f.dyn.optimize(f.ini, &f.plan, f.ref, track); } catch (std::exception& e) { o.threw = true; o.what = e.what(); } fs_cfg() = keep; fs_put(CFG, yaml(r->p)); return o; }
  const char* disk_fault(bool& lost) {
    FsCfg& c = fs_cfg(); c = FsCfg(); lost = false; 
    switch (pick(9, "disk")) { case 1: c.p_short_write = 0.7; c.p_eintr = 0.2; return "short writes"; case 2: c.space = (long)pick(6000, "space"); c.space_once = pick(3, "space-comes-back") == 2; return "full disk"; case 3: c.write_err_after = (long)pick(6000, "bad-write"); c.write_err_sticky = pick(2, "sticky"); return "write error";
      case 4: c.p_close = 1; return "close fails"; case 5: c.p_open = 0.5; return "open fails"; case 6: c.read_err_at = (long)pick(6000, "bad-sector"); return "configuration unreadable"; case 7: c.p_short_read = 0.5; c.p_short_write = 0.5; return "short reads and writes"; case 8: lost = true; fs_remove(CFG); return "configuration gone"; }
    return "good disk";
  }
  static bool trouble(const FsStat& a, const FsStat& b) { return a.open_failed > b.open_failed || a.write_failed > b.write_failed || a.close_failed > b.close_failed || a.read_failed > b.read_failed; }

  void dyn_step(bool faulty) {
    Rig& x = *r; bool track = pick(2, "tracking"); bool lost = false; const char* d = "good disk"; long armed = -1; 
    if (faulty && x.p.store) d = disk_fault(lost);
    else if (faulty) { armed = (long)pick_log(60000, "failing-allocation"); mem_fail_at(armed, pick(3, "sticky") == 2); }
    if (x.p.store) { fs_remove(DYN); if (pick(4, "old-file") == 3) fs_put(DYN, "dynopt_params:\n  old: true\n"); }
    FsStat b = fs_stat(); fs_log_clear(); long mf = mem_failures(); Vec set0 = flat(x.set); set_budget(20000000000ull);
    Out o = guarded([&] { return x.dyn.optimize(x.ini, &x.plan, x.ref, track); });
    mem_fail_at(-1, false); bool disturbed = mem_failures() > mf || lost; FsStat a = fs_stat(); fs_cfg() = FsCfg(); if (trouble(a, b)) disturbed = true; if (lost) fs_put(CFG, yaml(x.p));
    std::string how = o.threw ? "exception" : status(o.code); event("dynamics step%s: %s", track ? " (tracking)" : "", how.c_str()); hist += std::string(" dynamics") + (armed >= 0 && mem_failures() > mf ? "(no memory)" : faulty && x.p.store ? std::string("(") + d + ")" : "") + "->" + how;
    { std::string k = "probe.dynamics." + how; count(k.c_str()); }
#ifdef CAL
    { FILE* f = fopen("/tmp/cal2.txt", "a"); fprintf(f, "%s heur=%d mu=%g ml=%g thi=%g lin=%d ext=%d N=%d nact=%d track=%d mass=%g defs=%d via=%zu\n", how.c_str(), x.p.heur, x.p.mu, x.p.maxlen[0], x.p.thi, x.p.linear, x.p.ext.norm() > 0, x.p.N, x.p.nact, track, x.p.mass, x.p.defsolver, x.p.comvia.size()); fclose(f); }
#endif
    if (fs_open_files()) violate("file-left-open", "%d files open after the planning step", fs_open_files());
    if (disturbed) { nontrivial(); count(o.threw ? "probe.disturbed_reported" : "probe.disturbed_normal"); }
    if (o.threw && !disturbed) violate("unexpected-exception", "an undisturbed planning step ends in: %s (%s)", o.what.c_str(), d);
    int at = differs(set0, flat(x.set), 0); if (at >= 0) violate("settings-changed", "planning changed setting %d of the caller (%s)", at, hist.c_str());
    if (!o.threw && x.p.store) { dyn_file(x, d); count("probe.file_checked"); }
    x.seq_ready = !o.threw; x.have_plan = !o.threw && optimal(o.code); x.exact = x.have_plan && o.code == ExitCode::Optimal;
    if (x.have_plan) { physics(x, o.code, hist.c_str()); count("probe.physics"); if (hist.find("->") != hist.rfind("->")) nontrivial(); }
    if (x.p.heur != 2 && (!o.threw) && pick(2, "compare")) {
      MemOff off; Rig f; Out fo = fresh(f, track);
      if (fo.threw) violate("depends-on-history", "new objects end in '%s' for the step that ended as %s (%s)", fo.what.c_str(), status(o.code), hist.c_str());
      if (fo.code != o.code) violate("depends-on-history", "the step ended as %s, with new objects as %s (%s)", status(o.code), status(fo.code), hist.c_str());
      Vec va = flat(x.dyn.dynamicsSequence()), vb = flat(f.dyn.dynamicsSequence()); int at = differs(va, vb, 1e-9);
      if (at >= 0 && optimal(o.code)) violate("depends-on-history", "the plan differs from that of new objects (value %d of %zu: %.12g, %.12g) (%s)", at, va.size(), va.size() > (size_t)at ? va[at] : 0, vb.size() > (size_t)at ? vb[at] : 0, hist.c_str());
      count("probe.compared");
    }
  }
  void kin_step(bool faulty) {
    Rig& x = *r; bool first = !x.kin_ready || pick(2, "first-kinematics"); bool lost = false; const char* d = "good disk"; int kind = 0;
    if (faulty) { kind = 1 + (int)pick(3, "kinematics-fault"); if (kind == 3 && !x.p.store) kind = 1; if (kind == 2 && x.p.store) kind = 1; }
    x.robot.calls = 0; x.robot.threw = false; x.robot.fail_at = -1; { MemOff off; std::vector<Robot::Shown>().swap(x.robot.shown); }
    if (kind == 1) { x.robot.fail_at = (long)pick_log(100, "failing-callback"); x.robot.sticky = pick(2, "sticky"); }
    if (kind == 3) d = disk_fault(lost);
    if (lost) { lost = false; fs_put(CFG, yaml(x.p)); }
    if (x.p.store) fs_remove(KIN);
    FsStat b = fs_stat(); long mf = mem_failures(); set_budget(20000000000ull);
    if (kind == 2) mem_fail_at((long)pick_log(60000, "failing-allocation"), pick(3, "sticky") == 2);
    DynamicsSequence& s = x.dyn.dynamicsSequence();
    Out o = guarded([&] { return x.kin.optimize(x.ini, &x.plan, s, first); });
    mem_fail_at(-1, false); bool disturbed = mem_failures() > mf || x.robot.threw; FsStat a = fs_stat(); fs_cfg() = FsCfg(); if (trouble(a, b)) disturbed = true; x.robot.fail_at = -1;
    std::string how = o.threw ? "exception" : status(o.code); event("kinematics step%s: %s", first ? " (first)" : "", how.c_str()); hist += std::string(" kinematics") + (kind == 1 && x.robot.threw ? "(callback throws)" : kind == 2 && disturbed ? "(no memory)" : kind == 3 ? std::string("(") + d + ")" : "") + "->" + how;
    { std::string k = "probe.kinematics." + how; count(k.c_str()); }
    if (disturbed) { nontrivial(); count(o.threw ? "probe.disturbed_reported" : "probe.disturbed_normal"); }
    if (fs_open_files()) violate("file-left-open", "%d files open after the kinematics step", fs_open_files());
    if (x.robot.threw && !o.threw) violate("failure-hidden", "the user's kinematics threw an exception and the kinematics step returned %s (%s)", status(o.code), hist.c_str());
    if (o.threw && !disturbed) violate("unexpected-exception", "an undisturbed kinematics step ends in: %s (%s)", o.what.c_str(), hist.c_str());
    if (!o.threw && x.p.store) kin_file(x, d);
    if (!o.threw) { if (x.p.show) display(x, s, hist.c_str()); if (x.have_plan && x.timed()) swing(x, s, hist.c_str()); }
    if (!o.threw && optimal(o.code)) {
      if (x.timed()) kinematics(x, o.code, s, hist.c_str()); count("probe.kinematics_checked"); nontrivial();
      if (x.have_plan && x.exact && x.p.heur != 2 && x.p.qlim > 5 && o.code == ExitCode::Optimal && x.p.conv_iters > 3) { bool ok = true; for (int e = 0; e < x.p.nact; e++) if (x.p.cnt[e].empty()) ok = false; if (ok) follows(x, s, hist.c_str()); }
      x.kin_ready = true;
    } else x.kin_ready = false;
    if (!o.threw && first && pick(2, "compare")) {
      MemOff off; FsCfg keep = fs_cfg(); Problem q = x.p; q.store = false;
      Rig g; g.load(q); g.ini = x.ini; g.dyn.dynamicsSequence() = s; fs_put(CFG, yaml(x.p)); fs_cfg() = keep; ExitCode c;
      try { c = g.kin.optimize(g.ini, &g.plan, g.dyn.dynamicsSequence(), true); } catch (std::exception& e) { violate("depends-on-history", "new objects end in '%s' for the kinematics step that ended as %s (%s)", e.what(), status(o.code), hist.c_str()); }
      if (c != o.code) violate("depends-on-history", "the kinematics step ended as %s, with new objects as %s (%s)", status(o.code), status(c), hist.c_str());
      Vec va = flat(x.kin.kinematicsSequence()), vb = flat(g.kin.kinematicsSequence()); int at = differs(va, vb, 1e-9);
      if (at >= 0 && optimal(o.code)) violate("depends-on-history", "the kinematic plan differs from that of new objects (value %d of %zu: %.12g, %.12g) (%s)", at, va.size(), va[at], vb.size() > (size_t)at ? vb[at] : 0, hist.c_str());
      count("probe.compared");
    }
    if (!o.threw && optimal(o.code) && pick(2, "use-kinematics")) x.ref = x.kin.kinematicsSequence();
  }
  void go() {
    int kinmode = c21 ? 1 : (int)(pick(c15 ? 2 : 3, "with-kinematics") == 1); r.reset(new Rig); Problem p = gen_problem(kinmode); if (c15) p.store = pick(2, "store"); else p.store = pick(16, "store") == 15;
    r->load(p); int ops = (c21 || (c15 && kinmode) ? 2 : 1) + (int)pick_log(c15 ? 3 : 4, "operations"); bool last_fault = false;
    for (int op = 0; op < ops; op++) {
      int k = op ? (int)pick(6, "operation") : 0;
      if (op && k == 1) { r->load(gen_problem(kinmode)); r->p.store = false; r->kin_ready = false; Problem q = r->p; q.store = c15 && pick(2, "store"); r->load(q); hist += " re-initialise"; }
      else if (op && k == 2) { Problem q = r->p; gen_contacts(q); r->contacts(q); r->kin_ready = false; hist += " new-contacts"; }
      else if (op && k == 3) { Problem q = r->p; gen_start(q); r->contacts(q); hist += " new-start"; }
      bool faulty = c15 && (op + 1 < ops || ops == 1) && pick(3, "disturb") != 2; last_fault = faulty;
      if (r->p.kin && op && r->seq_ready && (c21 || pick(c15 ? 3 : 2, "step"))) { kin_step(faulty); if (c21 && pick(2, "step")) dyn_step(false); }
      else dyn_step(faulty);
      state(trace_hash());
    }
    (void)last_fault;
    sample("%d steps of %g, %d end effectors, heuristic %d%s%s:%s", r->p.N, r->p.dt, r->p.nact, r->p.heur, r->p.kin ? ", kinematics" : "", r->p.store ? ", stored" : "", hist.c_str());
    r.reset();
    bool yaml_buffer = fs_stat().read_failed && (long)mem_live_bytes() == 2048 * (long)mem_live();   // yaml-cpp loses its read buffer when the first read fails
    if (c15 && mem_live() && !yaml_buffer) violate("leak", "%ld blocks (%zu bytes) of the planning steps are never freed (%s)", mem_live(), mem_live_bytes(), hist.c_str());
  }
};
}
static void run() {
  static bool once = [] { std::cout.rdbuf(&nullbuf); return true; }(); (void)once;
  mem_begin(); mem_fill(pick(2, "memory-fill") ? 0x7f : 0x01);
  fs_begin();
  Run r; r.go();
  state(trace_hash());
}
int main(int argc, char** argv) {
  { // tables yaml-cpp builds at first use are nobody's leak
    YAML::Node n = YAML::Load("# c\na: [1, 2.5, -3e-4]\nb:\n  - {c: d, 'e': \"f\\n\"}\n  - ~\ng: |\n  text\nh: >\n  text\n? i\n: !!str j\nk: &l m\no: *l\nTrue: false\nempty: []\nnone: {}\n"); n["x"] = std::vector<double>(3, 0.1); n["y"] = "two words: ' #"; n["z"] = true; Eigen::Matrix<double, 3, 1> v(1, 2, 3); n["v"] = v; n["w"]["u"] = 1; n["m"] = YAML::Node(YAML::NodeType::Sequence);
    std::ostringstream o; o << n; YAML::Node q = YAML::Load(o.str()); try { q["a"].as<int>(); } catch (YAML::Exception&) {} try { YAML::Load("a: [1, 2"); } catch (YAML::Exception&) {} try { YAML::Load("a: b: c"); } catch (YAML::Exception&) {} }
  return sim::main(argc, argv, run); }
