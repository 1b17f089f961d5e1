// C11: settings, contact plans, terrain and robot states loaded from a faulty disk.
#include "../sim/sim.hpp"
#include "../sim/sim_fs.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver/interface/SolverSetting.hpp>
#include <solver_lqr/SolverLqrSetting.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
#include <momentumopt/cntopt/ContactState.hpp>
#include <momentumopt/cntopt/TerrainDescription.hpp>
#include <momentumopt/dynopt/DynamicsState.hpp>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <cmath>
#include <cstring>
#include <dirent.h>
using namespace sim;

namespace {
struct Item { std::string name; std::vector<double> v; std::string s; };
typedef std::vector<Item> Items;
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };   // the file lacks something the loader needs
struct Unclear : Bad { using Bad::Bad; };                                        // the numbers in it have no defined meaning (an infinite horizon): any outcome is fine
enum Kind { B, I, D, V, V2, V3, V4, VI, S };
struct Key { const char* key; Kind k; };

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nullbuf;

// ---- what a file says (from its bytes; no disk involved) ---------------------------
std::vector<double> vec(const YAML::Node& n, int size, const std::string& what) {
  if (!n || !n.IsSequence()) throw Bad(what + " is not a sequence");
  if (size >= 0 && (int)n.size() != size) throw Bad(what + " has the wrong length");
  std::vector<double> o;
  for (size_t i = 0; i < n.size(); i++) o.push_back(n[i].as<double>());
  return o;
}
Item value(const YAML::Node& g, const std::string& key, Kind k) {
  if (!g || !g.IsMap()) throw Bad("no group");
  YAML::Node n = g[key];
  if (!n) throw Bad(key + " is missing");
  Item it; it.name = key;
  switch (k) {
    case B: it.v.push_back(n.as<bool>()); break;
    case I: it.v.push_back(n.as<int>()); break;
    case D: it.v.push_back(n.as<double>()); break;
    case S: it.s = n.as<std::string>(); break;
    case V: it.v = vec(n, -1, key); break;
    case V2: it.v = vec(n, 2, key); break;
    case V3: it.v = vec(n, 3, key); break;
    case V4: it.v = vec(n, 4, key); break;
    case VI: { if (!n.IsSequence()) throw Bad(key); for (size_t i = 0; i < n.size(); i++) it.v.push_back(n[i].as<int>()); break; }
  }
  return it;
}
template <class E> std::vector<double> tov(const E& e) { std::vector<double> o; for (int i = 0; i < e.size(); i++) o.push_back((double)e[i]); return o; }

// ---- conic solver settings -----------------------------------------------------------
#define SOLVER_KEYS(X) \
  X("BnB_verbose", B, solver::SolverBoolParam_BnBVerbose) X("BnB_max_iterations", I, solver::SolverIntParam_BnBMaxIters) X("BnB_integer_tolerance", D, solver::SolverDoubleParam_BnBIntegerTol) \
  X("BnB_absolute_suboptimality_gap", D, solver::SolverDoubleParam_BnBAbsSubOptGap) X("BnB_relative_suboptimality_gap", D, solver::SolverDoubleParam_BnBRelSubOptGap) \
  X("feasibility_tolerance", D, solver::SolverDoubleParam_FeasibilityTol) X("absolute_suboptimality_gap", D, solver::SolverDoubleParam_DualityGapAbsTol) X("relative_suboptimality_gap", D, solver::SolverDoubleParam_DualityGapRelTol) \
  X("feasibility_tolerance_inaccurate", D, solver::SolverDoubleParam_FeasibilityTolInacc) X("absolute_suboptimality_gap_inaccurate", D, solver::SolverDoubleParam_DualityGapAbsTolInacc) X("relative_suboptimality_gap_inaccurate", D, solver::SolverDoubleParam_DualityGapRelTolInacc) \
  X("equil_iterations", I, solver::SolverIntParam_EquilibrationIters) X("dyn_reg_thresh", D, solver::SolverDoubleParam_DynamicRegularizationThresh) X("lin_sys_accuracy", D, solver::SolverDoubleParam_LinearSystemAccuracy) \
  X("err_reduction_factor", D, solver::SolverDoubleParam_ErrorReductionFactor) X("num_iter_ref_lin_solve", I, solver::SolverIntParam_NumIterRefinementsLinSolve) X("static_regularization", D, solver::SolverDoubleParam_StaticRegularization) \
  X("dynamic_regularization", D, solver::SolverDoubleParam_DynamicRegularization) X("safeguard", D, solver::SolverDoubleParam_SafeGuard) X("min_step_length", D, solver::SolverDoubleParam_MinimumStepLength) \
  X("max_step_length", D, solver::SolverDoubleParam_MaximumStepLength) X("min_centering_step", D, solver::SolverDoubleParam_MinimumCenteringStep) X("max_centering_step", D, solver::SolverDoubleParam_MaximumCenteringStep) \
  X("step_length_scaling", D, solver::SolverDoubleParam_StepLengthScaling) X("verbose", B, solver::SolverBoolParam_Verbose) X("max_iters", I, solver::SolverIntParam_MaxIters) \
  X("ipsolver_max_iters", I, solver::SolverIntParam_SolverMaxIters) X("ipsolver_warm_iters", I, solver::SolverIntParam_WarmStartIters) X("num_itrefs_trustregion", I, solver::SolverIntParam_NumberRefinementsTrustRegion) \
  X("trust_region_threshold", D, solver::SolverDoubleParam_TrustRegionThreshold) X("soft_constraint_weight_full", D, solver::SolverDoubleParam_SoftConstraintWeightFull) X("soft_constraint_weight_reduced", D, solver::SolverDoubleParam_SoftConstraintWeightReduced)
struct Loader {
  const char* name; const char* group;
  std::function<void(const std::string&)> load;       // the code under test
  std::function<Items()> actual;
  std::function<Items(const YAML::Node&)> expect;     // throws when the file is not good
  std::function<std::string()> generate;              // a good file
};

// ---- generated files -------------------------------------------------------------------
std::string num(Kind k) {
  std::ostringstream o;
  if (k == I) { o << (int)pick(200, "value"); return o.str(); }
  switch (pick(6, "number-style")) {
    case 0: o << (double)pick(1000, "value") / 8; break;
    case 1: o << "1e-" << 1 + pick(14, "value"); break;
    case 2: o << (int)pick(100, "value") - 50 << "."; break;
    case 3: o << "-" << pick(10, "value") << ".5e" << pick(5, "value"); break;
    case 4: o << pick(100000, "value") << ".000" << pick(1000, "value"); break;
    default: o << pick(50, "value"); break;
  }
  return o.str();
}
std::string seq(int n, Kind k, int indent) {
  std::ostringstream o;
  if (n > 0 && pick(5, "sequence-style") == 4) { for (int i = 0; i < n; i++) o << "\n" << std::string(indent, ' ') << "- " << num(k); return o.str(); }
  o << "["; for (int i = 0; i < n; i++) o << (i ? ", " : "") << num(k); o << "]";
  return o.str();
}
std::string boolean() { static const char* b[] = {"False", "True", "false", "true", "no", "yes"}; return b[pick(6, "boolean")]; }
struct Doc {
  std::vector<std::pair<std::string, std::string>> kv;
  void add(const std::string& k, const std::string& v) { kv.push_back({k, v}); }
  void add(const Key& k, int len = 3) {
    switch (k.k) { case B: add(k.key, boolean()); break; case I: case D: add(k.key, num(k.k)); break; case V2: add(k.key, seq(2, D, 4)); break; case V3: add(k.key, seq(3, D, 4)); break; case V4: add(k.key, seq(4, D, 4)); break; case V: add(k.key, seq(len, D, 4)); break; case VI: add(k.key, seq(len, I, 4)); break; default: add(k.key, "name"); }
  }
  std::string text(const std::string& group) {
    std::ostringstream o;
    int before = (int)pick(3, "other-group");
    if (before == 1) o << "other_variables:\n  verbose: True\n  max_iters: 7\n\n";
    o << group << ":\n";
    // any order
    bool mixed = pick(3, "order") == 2;
    std::vector<size_t> id(kv.size()); for (size_t i = 0; i < id.size(); i++) id[i] = i;
    if (mixed) for (size_t i = id.size(); i > 1; i--) std::swap(id[i - 1], id[pick((uint32_t)i, "order")]);
    for (size_t q : id) {
      if (pick(12, "comment") == 11) o << "  # " << kv[q].first << ": 17\n";
      o << "  " << kv[q].first << ": " << kv[q].second << (pick(15, "comment") == 14 ? "   # a comment\n" : "\n");
    }
    if (before == 2) o << "\nother_variables:\n  verbose: True\n";
    return o.str();
  }
};

Loader solver_loader() {
  static solver::SolverSetting* s; s = new solver::SolverSetting();
  Loader l; l.name = "SolverSetting"; l.group = "solver_variables";
  l.load = [](const std::string& f) { s->initialize(f, "solver_variables"); };
  l.actual = [] { Items o;
#define X(key, k, par) o.push_back(Item{key, {(double)s->get(par)}, ""});
    SOLVER_KEYS(X)
#undef X
    return o; };
  l.expect = [](const YAML::Node& r) { Items o;
#define X(key, k, par) o.push_back(value(r["solver_variables"], key, k));
    SOLVER_KEYS(X)
#undef X
    return o; };
  l.generate = [] { Doc d;
#define X(key, k, par) d.add(Key{key, k});
    SOLVER_KEYS(X)
#undef X
    return d.text("solver_variables"); };
  return l;
}

// ---- trajectory optimiser settings -------------------------------------------------------
#define LQR_KEYS(X) \
  X("verbosity", I, SolverLqrIntParam_Verbosity) X("lqr_max_iters", I, SolverLqrIntParam_LqrMaxIterations) X("decimal_digits", I, SolverLqrIntParam_PrecisionDigits) X("bpass_regularization_type", I, SolverLqrIntParam_BackPassRegulatizationType) \
  X("cost_change_tolerance", D, SolverLqrDoubleParam_CostChangeTolerance) X("divergence_limit_check", D, SolverLqrDoubleParam_DivergenceLimitCheck) X("bpass_min_regularization", D, SolverLqrDoubleParam_BackPassMinRegularization) \
  X("bpass_max_regularization", D, SolverLqrDoubleParam_BackPassMaxRegularization) X("control_gradient_tolerance", D, SolverLqrDoubleParam_ControlGradientTolerance) X("bpass_initial_regularization", D, SolverLqrDoubleParam_BackPassInitialRegularization) \
  X("min_expected_cost_improvement", D, SolverLqrDoubleParam_MinExpectedCostImprovement) X("bpass_mult_regularization_incr", D, SolverLqrDoubleParam_BackPassMultRegularizationIncr) X("bpass_initial_mult_regularization_incr", D, SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr) \
  X("store_data", B, SolverLqrBoolParam_StoreData) X("time_step", D, SolverLqrDoubleParam_TimeStep) X("time_horizon", D, SolverLqrDoubleParam_TimeHorizon) X("state_dimension", I, SolverLqrIntParam_StateDimension) X("control_dimension", I, SolverLqrIntParam_ControlDimension) \
  X("has_control_limits", B, SolverLqrBoolParam_HasControlLimits)
Loader lqr_loader() {
  using namespace solverlqr;
  static SolverLqrSetting* s; s = new SolverLqrSetting();
  Loader l; l.name = "SolverLqrSetting"; l.group = "solverlqr_variables";
  l.load = [](const std::string& f) { s->initialize(f, "solverlqr_variables"); };
  l.actual = [] { Items o; const SolverLqrSetting& c = *s;
#define X(key, k, par) o.push_back(Item{key, {(double)c.get(par)}, ""});
    LQR_KEYS(X)
#undef X
    o.push_back(Item{"initial_state", tov(c.get(SolverLqrVectorParam_InitialState)), ""});
    o.push_back(Item{"tdim", {(double)c.get(SolverLqrIntParam_TimeDimension)}, ""});
    o.push_back(Item{"alpha", tov(c.get(SolverLqrVectorParam_LineSearchCoeffs)), ""});
    if (c.get(SolverLqrBoolParam_HasControlLimits)) { o.push_back(Item{"min_control_limits", tov(c.get(SolverLqrVectorParam_MinControlLimits)), ""}); o.push_back(Item{"max_control_limits", tov(c.get(SolverLqrVectorParam_MaxControlLimits)), ""}); }
    std::ostringstream u; u << c.get(SolverLqrYamlParam_UserParameters); o.push_back(Item{"user_parameters", {}, u.str()});
    return o; };
  l.expect = [](const YAML::Node& r) { Items o; YAML::Node g = r["solverlqr_variables"];
#define X(key, k, par) o.push_back(value(g, key, k));
    LQR_KEYS(X)
#undef X
    o.push_back(value(g, "initial_state", V));
    double ts = value(g, "time_step", D).v[0], th = value(g, "time_horizon", D).v[0];
    double q = std::floor(th / ts); if (!(std::fabs(q) < 1e9)) throw Unclear("no horizon"); 
    o.push_back(Item{"tdim", {(double)(int)q}, ""});
    double lc = value(g, "linesearch_coeff", D).v[0], ln = value(g, "linesearch_num_coeffs", D).v[0]; Item a; a.name = "alpha";
    if (!(ln >= 0 && ln < 1e6)) throw Unclear("linesearch_num_coeffs");
    for (int i = 0; i < (int)ln; i++) a.v.push_back(std::pow(lc, -(i * i))); o.push_back(a);
    if (value(g, "has_control_limits", B).v[0]) { o.push_back(value(g, "min_control_limits", V)); o.push_back(value(g, "max_control_limits", V)); }
    std::ostringstream u; u << g["user_parameters"]; o.push_back(Item{"user_parameters", {}, u.str()});
    return o; };
  l.generate = [] { Doc d;
#define X(key, k, par) if (std::string(key) != "time_step" && std::string(key) != "time_horizon") d.add(Key{key, k});
    LQR_KEYS(X)
#undef X
    d.add("time_step", pick(2, "step") ? "0.05" : "0.10"); d.add("time_horizon", std::to_string(1 + pick(9, "horizon")) + ".0");
    d.add("initial_state", seq(4, D, 4)); d.add("linesearch_coeff", "1.1"); d.add("linesearch_num_coeffs", std::to_string(1 + pick(20, "value")));
    d.add("min_control_limits", seq(2, D, 4)); d.add("max_control_limits", seq(2, D, 4));
    if (pick(3, "user")) d.add("user_parameters", "\n    Qu: [1.0, 2.0]\n    nviapoints: 3");
    return d.text("solverlqr_variables"); };
  return l;
}

// ---- motion planner settings ---------------------------------------------------------------
#define PL_ALWAYS(X) \
  X("load_kinematics", B, PlannerBoolParam_LoadKinematics) X("num_com_viapoints", I, PlannerIntParam_NumViapoints) X("time_step", D, PlannerDoubleParam_TimeStep) X("n_act_eefs", I, PlannerIntParam_NumActiveEndeffectors) X("time_horizon", D, PlannerDoubleParam_TimeHorizon) \
  X("min_rel_height", D, PlannerDoubleParam_MinRelHeight) X("external_force", V3, PlannerVectorParam_ExternalForce) X("com_displacement", V3, PlannerVectorParam_CenterOfMassMotion) X("gravity", D, PlannerDoubleParam_Gravity) X("robot_mass", D, PlannerDoubleParam_RobotMass) \
  X("floor_height", D, PlannerDoubleParam_FloorHeight) X("torque_range", V2, PlannerVectorParam_TorqueRange) X("friction_coeff", D, PlannerDoubleParam_FrictionCoefficient) X("max_eef_lengths", V4, PlannerVectorParam_MaxEndeffectorLengths) \
  X("w_com", V3, PlannerVectorParam_WeightCenterOfMass) X("w_amom", V3, PlannerVectorParam_WeightAngularMomentum) X("w_lmom", V3, PlannerVectorParam_WeightLinearMomentum) X("w_amomd", V3, PlannerVectorParam_WeightAngularMomentumRate) X("w_lmomd", V3, PlannerVectorParam_WeightLinearMomentumRate) \
  X("w_com_via", V3, PlannerVectorParam_WeightCenterOfMassViapoint) X("w_trq_arm", D, PlannerDoubleParam_WeightArmTorque) X("w_trq_leg", D, PlannerDoubleParam_WeightLegTorque) X("w_frc_arm", V3, PlannerVectorParam_WeightArmForce) X("w_frc_leg", V3, PlannerVectorParam_WeightLegForce) \
  X("w_dfrc_arm", V3, PlannerVectorParam_WeightArmForceRate) X("w_dfrc_leg", V3, PlannerVectorParam_WeightLegForceRate) X("w_amom_final", V3, PlannerVectorParam_WeightFinalAngularMomentum) X("w_lmom_final", V3, PlannerVectorParam_WeightFinalLinearMomentum) \
  X("w_com_track", V3, PlannerVectorParam_WeightDynamicTrackingCenterOfMass) X("w_lmom_track", V3, PlannerVectorParam_WeightDynamicTrackingLinearMomentum) X("w_amom_track", V3, PlannerVectorParam_WeightDynamicTrackingAngularMomentum) \
  X("store_data", B, PlannerBoolParam_StoreData) X("use_default_solver_setting", B, PlannerBoolParam_UseDefaultSolverSetting)
#define PL_TIME(X) \
  X("max_time_iterations", I, PlannerIntParam_MaxNumTimeIterations) X("max_time_residual_tolerance", D, PlannerDoubleParam_MaxTimeResidualTolerance) X("min_time_residual_improvement", D, PlannerDoubleParam_MinTimeResidualImprovement) \
  X("time_range", V2, PlannerVectorParam_TimeRange) X("is_time_horizon_fixed", B, PlannerBoolParam_IsTimeHorizonFixed) X("w_time", D, PlannerDoubleParam_WeightTimeRegularization) X("w_time_penalty", D, PlannerDoubleParam_WeightTimePenalty)
#define PL_KIN(X) \
  X("num_dofs", I, PlannerIntParam_NumDofs) X("kd_iterations", I, PlannerIntParam_KinDynIterations) X("num_subsamples", I, PlannerIntParam_NumSubsamples) X("display_motion", B, PlannerBoolParam_DisplayMotion) X("min_joint_limits", V, PlannerVectorParam_MinJointAngles) \
  X("max_joint_limits", V, PlannerVectorParam_MaxJointAngles) X("default_joint_positions", V, PlannerVectorParam_KinematicDefaultJointPositions) X("active_dofs", VI, PlannerIntVectorParam_ActiveDofs) \
  X("w_kin_com", V3, PlannerVectorParam_WeightKinematicTrackingCenterOfMass) X("w_kin_lmom", V3, PlannerVectorParam_WeightKinematicTrackingLinearMomentum) X("w_kin_amom", V3, PlannerVectorParam_WeightKinematicTrackingAngularMomentum) \
  X("w_kin_lmomd", V3, PlannerVectorParam_WeightKinematicTrackingLinearMomentumRate) X("w_kin_amomd", V3, PlannerVectorParam_WeightKinematicTrackingAngularMomentumRate) X("w_kin_eff_pos", V3, PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition) \
  X("w_kin_base_ori", V3, PlannerVectorParam_WeightKinematicTrackingBaseOrientation) X("w_kin_joint_vel", V, PlannerVectorParam_WeightJointVelocity) X("w_kin_joint_acc", V, PlannerVectorParam_WeightJointAcceleration) X("slacks_penalty", D, PlannerDoubleParam_KinSlacksPenalty) \
  X("integration_step", D, PlannerDoubleParam_KinIntegrationStep) X("w_kin_eff_pos_nonact", V3, PlannerVectorParam_WeightKinematicTrackingNonActiveEndeffectorPosition) X("w_kin_default_joints", V, PlannerVectorParam_WeightKinematicDefaultJointPositions) \
  X("max_trajectory_iters", I, PlannerIntParam_MaxKinTrajectoryIterations) X("max_convergence_iters", I, PlannerIntParam_MaxKinConvergenceIterations) X("convergence_tolerance", D, PlannerDoubleParam_KinConvergenceTolerance) \
  X("lambda_regularization", D, PlannerDoubleParam_LambdaRegularization) X("use_second_order_inv_kin", B, PlannerBoolParam_UseSecondOrderInverseKinematics)
#define PL_IK1(X) \
  X("swing_traj_via_z", D, PlannerDoubleParam_SwingTrajViaZ) X("w_lin_mom_tracking", D, PlannerDoubleParam_WeightLinMomentumTracking) X("w_ang_mom_tracking", D, PlannerDoubleParam_WeightAngMomentumTracking) X("w_endeff_contact", D, PlannerDoubleParam_WeightEndEffContact) \
  X("w_endeff_tracking", D, PlannerDoubleParam_WeightEndEffTracking) X("p_endeff_tracking", D, PlannerDoubleParam_PGainEndEffTracking) X("p_com_tracking", D, PlannerDoubleParam_PGainComTracking) X("w_joint_regularization", D, PlannerDoubleParam_WeightJointReg) \
  X("reg_orientation", D, PlannerDoubleParam_PGainOrientationTracking) X("reg_joint_position", D, PlannerDoubleParam_PGainPositionTracking) X("num_joint_viapoints", I, PlannerIntParam_NumJointViapoints) X("num_base_viapoints", I, PlannerIntParam_NumBaseViapoints)
#define PL_IK2(X) \
  X("swing_traj_via_z_second", D, PlannerDoubleParam_SwingTrajViaZ_Second) X("w_lin_mom_tracking_second", D, PlannerDoubleParam_WeightLinMomentumTracking_Second) X("w_ang_mom_tracking_second", D, PlannerDoubleParam_WeightAngMomentumTracking_Second) \
  X("w_endeff_contact_second", D, PlannerDoubleParam_WeightEndEffContact_Second) X("w_endeff_tracking_second", D, PlannerDoubleParam_WeightEndEffTracking_Second) X("p_endeff_tracking_second", D, PlannerDoubleParam_PGainEndEffTracking_Second) \
  X("p_com_tracking_second", D, PlannerDoubleParam_PGainComTracking_Second) X("w_joint_regularization_second", D, PlannerDoubleParam_WeightJointReg_Second) X("d_endeff_tracking_second", D, PlannerDoubleParam_DGainEndEffTracking_Second) \
  X("p_orient_tracking_second", D, PlannerDoubleParam_PGainBaseOrientationTracking_Second) X("d_orient_tracking_second", D, PlannerDoubleParam_DGainBaseOrientationTracking_Second) X("p_joint_regularization_second", D, PlannerDoubleParam_PGainJointRegularization_Second) \
  X("d_joint_regularization_second", D, PlannerDoubleParam_DGainJointRegularization_Second) X("p_mom_tracking_second", V, PlannerVectorParam_PGainMomentumTracking_Second) X("num_joint_viapoints_second", I, PlannerIntParam_NumJointViapoints_Second) X("num_base_viapoints_second", I, PlannerIntParam_NumBaseViapoints_Second)
std::vector<double> pv(bool x) { return {(double)x}; }
std::vector<double> pv(int x) { return {(double)x}; }
std::vector<double> pv(double x) { return {x}; }
std::vector<double> pv(const Eigen::Ref<const Eigen::VectorXd>& x) { return tov(x); }
std::vector<double> pv(const Eigen::Ref<const Eigen::VectorXi>& x) { return tov(x); }
static const char* EE[4] = {"rf", "lf", "rh", "lh"};
Loader planner_loader() {
  using namespace momentumopt;
  static PlannerSetting* s; s = new PlannerSetting();
  Loader l; l.name = "PlannerSetting"; l.group = "planner_variables";
  l.load = [](const std::string& f) { s->initialize(f, "planner_variables"); };
  l.actual = [] { Items o; const PlannerSetting& c = *s;
#define X(key, k, par) o.push_back(Item{key, pv(c.get(par)), ""});
    PL_ALWAYS(X)
    auto via = [&](const char* n, PlannerCVectorParam p) { Item it; it.name = n; for (auto& v : c.get(p)) for (int i = 0; i < v.size(); i++) it.v.push_back(v[i]); o.push_back(it); };
    via("com_viapoints", PlannerCVectorParam_Viapoints);
    o.push_back(Item{"heuristic", {(double)(int)c.heuristic()}, ""});
    o.push_back(Item{"friction_cone", {(double)c.get(PlannerBoolParam_IsFrictionConeLinear)}, ""});
    for (int e = 0; e < 4; e++) { o.push_back(Item{std::string("cop_range_") + EE[e], tov(c.get(PlannerArrayParam_CenterOfPressureRange)[e]), ""}); o.push_back(Item{std::string("eff_offset_") + EE[e], tov(c.get(PlannerArrayParam_EndeffectorOffset)[e]), ""}); }
    o.push_back(Item{"mass_times_gravity", pv(c.get(PlannerDoubleParam_MassTimesGravity)), ""});
    o.push_back(Item{"gravity_vector", pv(c.get(PlannerVectorParam_GravityVector)), ""});
    o.push_back(Item{"num_timesteps", pv(c.get(PlannerIntParam_NumTimesteps)), ""});
    if (c.heuristic() == Heuristic::TimeOptimization) { PL_TIME(X) }
    if (c.get(PlannerBoolParam_LoadKinematics)) {
      PL_KIN(X)
      o.push_back(Item{"extended_active_dofs", pv(c.get(PlannerIntVectorParam_ExtendedActiveDofs)), ""});
      o.push_back(Item{"num_active_dofs", pv(c.get(PlannerIntParam_NumActiveDofs)), ""});
      if (c.get(PlannerBoolParam_UseSecondOrderInverseKinematics)) { PL_IK2(X) via("joint_viapoints_second", PlannerCVectorParam_JointViapoints_Second); via("base_viapoints_second", PlannerCVectorParam_BaseViapoints_Second); }
      else { PL_IK1(X) via("joint_viapoints", PlannerCVectorParam_JointViapoints); via("base_viapoints", PlannerCVectorParam_BaseViapoints); }
    }
#undef X
    return o; };
  l.expect = [](const YAML::Node& r) { Items o; YAML::Node g = r["planner_variables"];
#define X(key, k, par) o.push_back(value(g, key, k));
    PL_ALWAYS(X)
    auto via = [&](const char* n, const char* cnt) { Item it; it.name = n; int m = (int)value(g, cnt, I).v[0]; for (int i = 0; i < m; i++) { Item v = value(g[n], "via" + std::to_string(i), V); it.v.insert(it.v.end(), v.v.begin(), v.v.end()); } o.push_back(it); };
    via("com_viapoints", "num_com_viapoints");
    std::string h = value(g, "heuristic", S).s; int hv = h == "TrustRegion" ? 0 : h == "TimeOptimization" ? 2 : 1;   // any other name selects SoftConstraint
    o.push_back(Item{"heuristic", {(double)hv}, ""});
    o.push_back(Item{"friction_cone", {(double)(value(g, "friction_cone", S).s == "LinearCone")}, ""});
    for (int e = 0; e < 4; e++) { o.push_back(value(g, std::string("cop_range_") + EE[e], V)); o.push_back(value(g, std::string("eff_offset_") + EE[e], V)); }
    double grav = value(g, "gravity", D).v[0];
    o.push_back(Item{"mass_times_gravity", {value(g, "robot_mass", D).v[0] * grav}, ""});
    o.push_back(Item{"gravity_vector", {0, 0, -grav}, ""});
    double q = std::floor(value(g, "time_horizon", D).v[0] / value(g, "time_step", D).v[0]); if (!(std::fabs(q) < 1e9)) throw Unclear("no horizon");
    o.push_back(Item{"num_timesteps", {(double)(int)q}, ""});
    if (hv == 2) { PL_TIME(X) }
    if (value(g, "load_kinematics", B).v[0]) {
      PL_KIN(X)
      std::vector<double> a = value(g, "active_dofs", VI).v; Item x; x.name = "extended_active_dofs"; for (int i = 0; i < 6; i++) x.v.push_back(i); for (double d : a) x.v.push_back(6 + d); o.push_back(x);
      o.push_back(Item{"num_active_dofs", {(double)a.size()}, ""});
      if (value(g, "use_second_order_inv_kin", B).v[0]) { PL_IK2(X) via("joint_viapoints_second", "num_joint_viapoints_second"); via("base_viapoints_second", "num_base_viapoints_second"); }
      else { PL_IK1(X) via("joint_viapoints", "num_joint_viapoints"); via("base_viapoints", "num_base_viapoints"); }
    }
#undef X
    return o; };
  l.generate = [] { Doc d;
#define X(key, k, par) { std::string q = key; if (q.find("num_") != 0 && q != "time_step" && q != "time_horizon") d.add(Key{key, k}, 8); }
    PL_ALWAYS(X) PL_TIME(X) PL_KIN(X) PL_IK1(X) PL_IK2(X)
#undef X
    static const char* hs[] = {"TrustRegion", "SoftConstraint", "TimeOptimization", "Other"};
    d.add("heuristic", hs[pick(4, "heuristic")]); d.add("friction_cone", pick(2, "cone") ? "LinearCone" : "SocCone");
    d.add("time_step", "0.1"); d.add("time_horizon", std::to_string(1 + pick(9, "horizon")) + ".0"); d.add("num_dofs", "8"); d.add("num_subsamples", "3");
    for (int e = 0; e < 4; e++) { d.add(std::string("cop_range_") + EE[e], seq(4, D, 4)); d.add(std::string("eff_offset_") + EE[e], seq(3, D, 4)); }
    auto via = [&](const std::string& cnt, const std::string& n, int len) { int m = (int)pick(3, "viapoints"); d.add(cnt, std::to_string(m)); std::string t; for (int i = 0; i < m + (int)pick(2, "extra"); i++) t += "\n    via" + std::to_string(i) + ": " + seq(len, D, 6); if (!t.empty()) d.add(n, t); };
    via("num_com_viapoints", "com_viapoints", 4); via("num_joint_viapoints", "joint_viapoints", 9); via("num_base_viapoints", "base_viapoints", 4); via("num_joint_viapoints_second", "joint_viapoints_second", 9); via("num_base_viapoints_second", "base_viapoints_second", 4);
    return d.text("planner_variables"); };
  return l;
}

// ---- contact plan ------------------------------------------------------------------------
Loader contact_loader() {
  using namespace momentumopt;
  static ContactSequence* s; s = new ContactSequence();
  Loader l; l.name = "ContactSequence"; l.group = "contact_plan";
  l.load = [](const std::string& f) { s->loadFromFile(f); };
  l.actual = [] { Items o; const ContactSequence& cs = *s; for (int e = 0; e < 4; e++) { Item it; it.name = EE[e]; for (auto& c : cs.endeffectorContacts(e)) {
      it.v.push_back(c.contactActivationTime()); it.v.push_back(c.contactDeactivationTime()); for (int i = 0; i < 3; i++) it.v.push_back(c.contactPosition()[i]);
      it.v.push_back(c.contactOrientation().w()); it.v.push_back(c.contactOrientation().x()); it.v.push_back(c.contactOrientation().y()); it.v.push_back(c.contactOrientation().z());
      it.v.push_back((double)(int)c.contactType()); it.v.push_back(c.terrainId()); it.v.push_back(c.optimizationId()); it.v.push_back(c.selectedAsActive()); } o.push_back(it); }
    o.push_back(Item{"num", {(double)s->numOptimizationContacts()}, ""}); return o; };
  l.expect = [](const YAML::Node& r) { Items o; YAML::Node g = r["contact_plan"]; if (!g.IsMap()) throw Bad("no plan"); int id = 0; for (int e = 0; e < 4; e++) { Item it; it.name = EE[e]; YAML::Node n = g[std::string("effcnt_") + EE[e]]; if (!n.IsSequence() && !(n && n.IsNull())) throw Bad("no contacts");
      if (n.IsNull()) throw Bad("null");
      for (size_t k = 0; k < n.size(); k++) { std::vector<double> p = vec(n[k], -1, "contact"); if (p.size() < 11) throw Bad("short contact");
        for (int i = 0; i < 9; i++) it.v.push_back(p[i]);
        if (!(std::fabs(p[9]) < 2e9 && std::fabs(p[10]) < 2e9)) throw Unclear("contact type or terrain");
        int t = (int)p[9]; it.v.push_back(t == 1 || t == 2 ? t : 0); it.v.push_back((int)p[10]); it.v.push_back(id++); it.v.push_back(0); } o.push_back(it); }
    o.push_back(Item{"num", {(double)id}, ""}); return o; };
  l.generate = [] { Doc d; for (int e = 0; e < 4; e++) { std::string t = "["; int n = (int)pick(4, "contacts"); for (int k = 0; k < n; k++) { t += k ? ",\n     [" : "["; for (int i = 0; i < 9; i++) t += num(D) + ", "; t += std::to_string(pick(3, "type")) + ".0, -1.0]"; } d.add(std::string("effcnt_") + EE[e], t + "]"); } return d.text("contact_plan"); };
  return l;
}

// ---- terrain -----------------------------------------------------------------------------
Loader terrain_loader() {
  using namespace momentumopt;
  static TerrainDescription* s; s = new TerrainDescription();
  Loader l; l.name = "TerrainDescription"; l.group = "terrain_description";
  l.load = [](const std::string& f) { s->loadFromFile(f); };
  l.actual = [] { Items o; o.push_back(Item{"regions", {(double)s->numRegions()}, ""});
    for (int k = 0; k < s->numRegions(); k++) { const TerrainRegion& t = static_cast<const TerrainDescription&>(*s).terrainRegion(k); Item it; it.name = "region " + std::to_string(k); it.v.push_back(t.terrainId()); it.v.push_back(t.terrainDescriptionVector().size());
      for (int i = 0; i < 3; i++) it.v.push_back(std::round(t.pointOnTerrain()[i] * 1e6) / 1e6); o.push_back(it); } return o; };
  l.expect = [](const YAML::Node& r) { Items o; YAML::Node g = r["terrain_description"]; if (!g.IsMap()) throw Bad("no group"); YAML::Node n = g["regions"]; if (!n.IsSequence()) throw Bad("no regions");
    o.push_back(Item{"regions", {(double)n.size()}, ""});
    for (size_t k = 0; k < n.size(); k++) { if (!n[k].IsSequence() || n[k].size() < 3) throw Bad("region without a plane"); Item it; it.name = "region " + std::to_string(k); it.v.push_back(k); it.v.push_back(n[k].size()); double m[3] = {0, 0, 0};
      for (size_t i = 0; i < n[k].size(); i++) { auto p = vec(n[k][i], 3, "vertex"); for (int j = 0; j < 3; j++) m[j] += p[j]; }
      for (int j = 0; j < 3; j++) { double p = m[j] / (int)n[k].size(); it.v.push_back(std::round(p * 1e6) / 1e6); } o.push_back(it); } return o; };
  l.generate = [] { Doc d; int n = (int)pick(4, "regions"); std::string t = "["; for (int k = 0; k < n; k++) { t += k ? ",\n    [" : "["; int v = 3 + (int)pick(3, "vertices"); for (int i = 0; i < v; i++) { double a = 6.28318 * i / v; char b[96]; snprintf(b, sizeof b, "%s[%.3f, %.3f, %d.0]", i ? ", " : "", std::cos(a) + k, std::sin(a), (int)pick(3, "height")); t += b; } t += "]"; } d.add("regions", t + "]"); return d.text("terrain_description"); };
  return l;
}

// ---- initial robot state --------------------------------------------------------------------
Loader state_loader() {
  using namespace momentumopt;
  static DynamicsState* s; s = new DynamicsState();
  Loader l; l.name = "DynamicsState"; l.group = "initial_robot_configuration";
  l.load = [](const std::string& f) { s->fillInitialRobotState(f); };
  l.actual = [] { Items o; o.push_back(Item{"com", tov(s->centerOfMass()), ""}); o.push_back(Item{"lmom", tov(s->linearMomentum()), ""}); o.push_back(Item{"amom", tov(s->angularMomentum()), ""});
    for (int e = 0; e < 4; e++) { Item it; it.name = EE[e]; it.v.push_back(s->endeffectorActivation(e)); for (int i = 0; i < 3; i++) it.v.push_back(s->endeffectorPosition(e)[i]); auto q = s->endeffectorOrientation(e); it.v.push_back(q.w()); it.v.push_back(q.x()); it.v.push_back(q.y()); it.v.push_back(q.z()); for (int i = 0; i < 3; i++) it.v.push_back(s->endeffectorForce(e)[i]); o.push_back(it); } return o; };
  l.expect = [](const YAML::Node& r) { Items o; YAML::Node g = r["initial_robot_configuration"]; o.push_back(value(g, "com", V3)); o.push_back(value(g, "lmom", V3)); o.push_back(value(g, "amom", V3));
    for (int e = 0; e < 4; e++) { Item it; it.name = EE[e]; Item p = value(g["eef_pose"], std::string("eef_") + EE[e], V); if (p.v.size() < 8) throw Bad("short pose"); if (!(std::fabs(p.v[0]) < 2e9)) throw Unclear("activation"); it.v.push_back((int)p.v[0] != 0); for (int i = 1; i < 8; i++) it.v.push_back(p.v[i]); Item f = value(g["eef_ctrl"], std::string("eef_frc_") + EE[e], V3); it.v.insert(it.v.end(), f.v.begin(), f.v.end()); o.push_back(it); } return o; };
  l.generate = [] { Doc d; d.add("com", seq(3, D, 4)); d.add("lmom", seq(3, D, 4)); d.add("amom", seq(3, D, 4)); std::string p, f; for (int e = 0; e < 4; e++) { p += std::string("\n    eef_") + EE[e] + ": [" + (pick(2, "active") ? "1.0" : "0.0"); for (int i = 0; i < 7; i++) p += ", " + num(D); p += "]"; f += std::string("\n    eef_frc_") + EE[e] + ": " + seq(3, D, 6); } d.add("eef_pose", p); d.add("eef_ctrl", f); return d.text("initial_robot_configuration"); };
  return l;
}

// ---- the repository's own configuration files -------------------------------------------------
std::vector<std::pair<std::string, std::string>>& shipped() {
  static std::vector<std::pair<std::string, std::string>> out;
  static bool done = false;
  if (!done) {
    done = true;
    for (const char* dir : {"/momentumopt/config", "/momentumopt/tests/yaml_config_files/momopt_demos", "/momentumopt/tests/yaml_config_files/timeopt_demos", "/solver/tests/yaml_config_files", "/solver_lqr/config", "/solver_lqr/tests/yaml_config_files/test_cfg_files"}) {
      std::string d = std::string(VF_REPO_DIR) + dir; DIR* p = opendir(d.c_str()); if (!p) continue;
      std::vector<std::string> names; while (dirent* e = readdir(p)) { std::string n = e->d_name; if (n.size() > 5 && n.substr(n.size() - 5) == ".yaml") names.push_back(n); }
      closedir(p); std::sort(names.begin(), names.end());
      for (auto& n : names) { std::ifstream f(d + "/" + n); std::stringstream s; s << f.rdbuf(); if (s.str().size() < 60000) out.push_back({n, s.str()}); }
    }
  }
  return out;
}
std::string show(const Item& i) { std::ostringstream o; o.precision(17); o << i.s; for (double d : i.v) o << " " << d; return o.str(); }
bool same(const Item& a, const Item& b) {
  if (a.name != b.name || a.s != b.s || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!(a.v[i] == b.v[i] || (a.v[i] != a.v[i] && b.v[i] != b.v[i]))) return false;
  return true;
}

void run_loader() {
  static std::vector<Loader> loaders = {solver_loader(), lqr_loader(), planner_loader(), contact_loader(), terrain_loader(), state_loader()};
  Loader& l = loaders[pick((uint32_t)loaders.size(), "loader")];
  int loads = 1 + (int)pick_log(3, "loads");
  std::string hist;
  for (int k = 0; k < loads; k++) {
    // the file as its author wrote it
    std::string good, from;
    if (pick(4, "file-source") == 3) { auto& sh = shipped(); std::vector<size_t> fit; for (size_t i = 0; i < sh.size(); i++) if (sh[i].second.find(std::string(l.group) + ":") != std::string::npos) fit.push_back(i); if (!fit.empty()) { size_t i = fit[pick((uint32_t)fit.size(), "shipped-file")]; good = sh[i].second; from = sh[i].first; } }
    if (good.empty()) { good = l.generate(); from = "generated"; }
    // what became of it on the disk
    std::string disk = good; const std::string path = std::string("/simdisk/cfg") + std::to_string(k) + ".yaml";
    int damage = (int)pick(9, "damage"); bool present = true; const char* what = "intact";
    switch (damage) {
      case 1: case 2: { size_t n = pick((uint32_t)disk.size(), "cut-at"); disk.resize(n); what = "cut short"; count("fault.file_truncated"); break; }
      case 3: { int m = 1 + (int)pick(2, "bytes"); for (int i = 0; i < m; i++) { size_t p = pick((uint32_t)disk.size(), "byte"); static const char set[] = "0:-[],# x\n\t'\"{}&*e9.\x01"; disk[p] = set[pick(sizeof set - 1, "new-byte")]; } what = "damaged"; count("fault.file_corrupted"); break; }
      case 4: { size_t p = pick((uint32_t)disk.size(), "hole"); size_t n = 1 + pick(64, "hole-length"); for (size_t i = p; i < disk.size() && i < p + n; i++) disk[i] = 0; what = "torn (zero bytes)"; count("fault.file_torn"); break; }
      case 5: case 6: case 7: { // one line lost, or its value emptied or of another type
        std::vector<std::pair<size_t, size_t>> lines; for (size_t p = 0; p < disk.size();) { size_t q = disk.find('\n', p); if (q == std::string::npos) q = disk.size(); size_t c = disk.find(": ", p); if (c != std::string::npos && c < q && disk[p] == ' ') lines.push_back({p, q}); p = q + 1; }
        if (!lines.empty()) { auto ln = lines[pick((uint32_t)lines.size(), "line")]; size_t c = disk.find(": ", ln.first) + 2;
          if (damage == 5) { disk.erase(ln.first, ln.second - ln.first); what = "entry lost"; count("fault.entry_missing"); }
          else if (damage == 6) { static const char* w[] = {"", "abc", "[]", "{}", "1.5.2", "~", "[1.0]", "[[1.0, 2.0, 3.0]]", "1 2"}; disk.replace(c, ln.second - c, w[pick(9, "wrong-value")]); what = "entry of the wrong type"; count("fault.entry_ill_typed"); }
          else { size_t e = disk.rfind(']', ln.second), b = disk.rfind(',', e == std::string::npos ? 0 : e); if (e != std::string::npos && e > c && b != std::string::npos && b > c) disk.erase(b, e - b); what = "an element lost"; count("fault.element_missing"); } }
        break; }
      case 8: present = false; what = "missing"; count("fault.file_missing"); break;
    }
    fs_remove(path); if (present) fs_put(path, disk);
    // and how the disk behaves while it is read
    FsCfg& c = fs_cfg(); c = FsCfg();
    int io = (int)pick(6, "disk");
    if (io == 1 || io == 2) { c.p_short_read = 0.7; c.p_eintr = io == 2 ? 0.3 : 0; }
    if (io == 3) { c.read_err_at = (long)pick((uint32_t)good.size() + 1, "bad-sector"); if (pick(2, "short")) c.p_short_read = 0.5; }
    if (io == 4) c.p_open = 1;
    FsStat before = fs_stat();
    // expectation from the bytes alone
    bool ok = present, unclear = false; Items want; std::string why = "missing file";
    if (present) try { YAML::Node root = YAML::Load(disk); if (!root.IsMap()) throw Bad("no map"); want = l.expect(root); } catch (Unclear&) { unclear = true; } catch (std::exception& e) { ok = false; why = e.what(); }
    bool threw = false; std::string err; Items got;
    try { l.load(path); } catch (std::exception& e) { threw = true; err = e.what(); }
    c = FsCfg();
    bool open_failed = fs_stat().open_failed > before.open_failed, read_failed = fs_stat().read_failed > before.read_failed;
    event("load %d of %s (%s, %s): file %s, %s", k, l.name, from.c_str(), what, ok ? "good" : "not good", threw ? "exception" : "accepted");
    count(threw ? "probe.reported" : "probe.loaded");
    if (unclear) { hist += " out of range"; continue; }
    if (fs_open_files()) violate("file-left-open", "%d files open after loading %s", fs_open_files(), l.name);
    if (threw) { if (ok && !open_failed && !read_failed) violate("good-file-refused", "%s refused a good file (%s, %s, short or interrupted reads: %s): %s\n%s", l.name, from.c_str(), what, io == 1 || io == 2 ? "yes" : "no", err.c_str(), disk.substr(0, 1500).c_str()); }
    else {
      if (open_failed) violate("open-failure-accepted", "%s: the file could not be opened, and the load returned normally", l.name);
      if (!ok) violate("bad-file-accepted", "%s accepted a file that is %s (%s: %s)%s\n%s", l.name, what, from.c_str(), why.c_str(), read_failed ? " after a read error" : "", present ? disk.substr(0, 1500).c_str() : "");
      got = l.actual();
      for (size_t i = 0; i < want.size() || i < got.size(); i++) {
        if (i >= want.size() || i >= got.size() || !same(want[i], got[i]))
          violate(read_failed ? "read-error-accepted" : "wrong-value", "%s (%s, %s%s): %s is%s, the file says%s", l.name, from.c_str(), what, read_failed ? ", read error at some byte" : "", i < want.size() ? want[i].name.c_str() : got[i].name.c_str(), i < got.size() ? show(got[i]).c_str() : " absent", i < want.size() ? show(want[i]).c_str() : " nothing");
      }
      if (damage == 0 || io) nontrivial();
    }
    if (threw) nontrivial();
    hist += std::string(" ") + what + (io == 1 || io == 2 ? "/short reads" : io == 3 ? "/bad sector" : io == 4 ? "/open fails" : "") + (threw ? "->exception" : "->loaded");
  }
  sample("%s:%s", l.name, hist.c_str());
}
}
static void run() {
  static bool once = [] { std::cout.rdbuf(&nullbuf); shipped(); return true; }(); (void)once;
  mem_begin(); mem_fill(pick(2, "memory-fill") ? 0x7f : 0x01);
  fs_begin();
  run_loader();
  state(trace_hash());
}
int main(int argc, char** argv) { shipped(); return sim::main(argc, argv, run); }
