"""What each check runs."""
import os
import build as B


PYTHON = "/opt/vp/venv/bin/python"


def command(target, flavour):
    if target.startswith("py:"):
        # no byte code is read or written: what runs is the source in the working tree
        return [PYTHON, "-X", "pycache_prefix=/nonexistent", "-B", os.path.join(B.VERIF, "pysim", target[3:] + ".py")]
    return [B.target(target, flavour)]


HQP_REAL = ["RtModel", "RtHQPSolver (caller side and SVD thread)", "RtQPSolver", "RtMutex/RtCond", "solver::LinExpr/Var", "boost::thread", "Eigen"]
HQP_STUB = ["thread scheduler, mutexes and condition variables (simulated)", "wall clock", "thread creation (may be refused)", "memory fill pattern"]
HQP_RULE = ("one run = a seeded list of 1-4 hierarchies (1-12 levels, integer-grid rows, duplicate/conflicting/redundant rows, "
            "rows given as constraints or by cost objects, fixed variables, sometimes non-finite data) solved in a seeded sequence of "
            "new/initialize/solve/re-solve/destroy operations on up to two solver objects under a seeded thread schedule with preemption at "
            "instrumented memory accesses or basic blocks; non-trivial = at least one solve and more than two context switches; distinct by execution hash")

LB_REAL = ["lbfgs()", "line searches", "LbfgsSolver", "Eigen"]
LB_STUB = ["objective and progress callbacks (simulated, faulty)", "allocator (may fail)"]
LB_RULE = ("one run = a seeded objective (ten families, 1-20 variables), parameter set and fault plan (evaluations returning NaN, +-inf, huge, shifted values or "
           "broken gradients; throwing callbacks; cancellations; k-th allocation failing once or from then on), some through the LbfgsSolver object with bounds and constraints")

CONIC_REAL = ["Model, ConicProblem", "InteriorPointSolver, LinSolver, SparseCholesky, EqRoutine, Cone", "BnBSolver, NcvxBnBSolver", "SolverSetting (from the repository's default_stgs.yaml)", "yaml-cpp"]
CONIC_STUB = ["allocator (may fail)", "memory fill pattern", "standard output (discarded)", "Eigen (a copy whose resize survives a failed allocation)"]

CHECKS = {
    "C01": dict(note="Seeded search over thread schedules, spurious wake-ups, refused thread creations and clock jumps on the real solver code; deadlock, livelock (step budget), thread leaks and double start are detected. No exhaustiveness claim.",
                secs=(24, 1500), rule=HQP_RULE, real=HQP_REAL, stub=HQP_STUB, measure="distinct interleavings (sequence of switch points)",
                stages=[dict(target="hqp", flavour="race", what="preemption at every memory access")],
                assumptions=["pthread semantics as in POSIX (spurious wake-ups allowed, any waiter may be woken)"]),
    "C02": dict(note="Seeded search over schedules, clocks, memory contents and object histories; results compared bit for bit with an undisturbed fresh solver.",
                secs=(24, 1500), rule=HQP_RULE, real=HQP_REAL, stub=HQP_STUB, measure="distinct interleavings (sequence of switch points)",
                stages=[dict(target="hqp", flavour="race", what="bitwise comparison with an undisturbed fresh solver")],
                assumptions=["the reference run of the same binary under the quiet schedule is the meaning of 'depends only on the problem'"]),
    "C03": dict(note="Seeded search over problems, histories and schedules; every level of every valid result is certified by an independent stationarity test (non-negative least squares), sound and complete for these convex problems up to the stated tolerance.",
                secs=(24, 1500), rule=HQP_RULE, real=HQP_REAL, stub=HQP_STUB, measure="distinct interleavings (sequence of switch points)",
                stages=[dict(target="hqp", flavour="race", what="stationarity certificate of every level at the returned point")],
                assumptions=["tolerance 1e-3 + 20 * ineq_relax on the relative stationarity residual of each level", "integer-grid data, so numerical rank decisions are unambiguous"]),
    "C04": dict(note="Seeded search over schedules with an own happens-before race detector on all instrumented accesses, plus address/bounds/Eigen size checks on the same scenarios.",
                secs=(36, 1800), rule=HQP_RULE, real=HQP_REAL, stub=HQP_STUB, measure="distinct interleavings (sequence of switch points)",
                stages=[dict(target="hqp", flavour="race", what="vector-clock race detector on every access of the compiled sources", share=1.0),
                        dict(target="hqp", flavour="asan", what="address and array-bounds checks, Eigen size checks", share=1.0)],
                assumptions=["accesses made inside shared libraries (boost_thread, libstdc++) are not seen by the race detector"]),
    "C05": dict(note="Seeded search over interleavings (preemption between any two basic blocks, and at any memory access with the vector-clock race detector on) of 2-4 threads that each build, solve and destroy problems of all kinds of solver objects, some of them failing half-way; every result is compared bit for bit with the same job run alone in a fresh process.",
                secs=(36, 1800), real=["Model, IPSolver, BnBSolver, NcvxBnBSolver, SparseCholesky, LinSolver, EqRoutine", "lbfgs C interface, LbfgsSolver", "HierarchicalQuadProg", "SolverLqr and its passes, OcpDescription", "boost/std threads used by the hierarchical solver"], measure="distinct executions",
                stub=["threads, mutexes, condition variables (simulated scheduler)", "malloc/new (seeded failures per job)", "user callbacks", "standard output (discarded)"],
                rule="one run = 2-4 threads with 1-3 jobs each (conic programs with binaries and non-convex cones, L-BFGS, hierarchies, trajectories; earlier problems in the same object, limits on iterations, malformed calls, an allocation that fails, a callback that throws, a cancellation); non-trivial = more context switches than two per thread; distinct by execution hash",
                stages=[dict(target="par", flavour="cov", what="results in company against results alone", share=1.0),
                        dict(target="par", flavour="race", what="same with the race detector", share=1.0)],
                assumptions=["output to the shared std::cout is switched off where memory accesses are checked", "each thread uses its own objects, models and callbacks only"]),
    "C06": dict(note="Seeded search over which allocations fail, problem sizes, history lengths and objectives on the real minimiser; leaks are counted by the simulated allocator, memory errors by AddressSanitizer.",
                secs=(16, 900), rule=LB_RULE + "; C06 non-trivial = at least one allocation failed", real=LB_REAL, stub=LB_STUB, measure="distinct executions",
                stages=[dict(target="lbfgs", flavour="cov", what="allocation failures, comparison with the undisturbed minimisation", share=1.0),
                        dict(target="lbfgs", flavour="asan", what="same scenarios with memory error detection", share=0.6)],
                assumptions=["memory failures are those of malloc/new; stack exhaustion is not injected"]),
    "C07": dict(note="Seeded search over the iteration at which the callback cancels (and over objective calls that throw) for random objectives, parameters and line searches; every report is checked against the recorded evaluations.",
                secs=(16, 900), rule=LB_RULE + "; C07 non-trivial = a run was cancelled", real=LB_REAL, stub=LB_STUB, measure="distinct executions",
                stages=[dict(target="lbfgs", flavour="cov", what="cancellation and report checks", share=1.0),
                        dict(target="lbfgs", flavour="asan", what="same scenarios with memory error detection", share=0.6)],
                assumptions=["callbacks do not touch the solver's arrays"]),
    "C08": dict(note="Seeded search over objectives and evaluation faults; each run's full callback history is checked against the documented meaning of descent, line-search conditions, stopping tests and statuses.",
                secs=(24, 1200), rule=LB_RULE + "; C08 non-trivial = at least one iteration or an error status", real=LB_REAL, stub=LB_STUB, measure="distinct executions",
                stages=[dict(target="lbfgs", flavour="cov", what="history checks", share=1.0),
                        dict(target="lbfgs", flavour="asan", what="same scenarios with memory error detection", share=0.4)],
                assumptions=["termination without an iteration limit is only required of well-behaved objectives", "line-search conditions are recomputed with a rounding allowance of 1e-12 relative"]),
    "C09": dict(note="Seeded search over problems and histories of one model object; every verdict is compared with an independent reference solver (log-barrier method per binary assignment) and every optimal point is substituted into the constraints as stated.",
                secs=(30, 1500), real=CONIC_REAL, stub=CONIC_STUB, measure="distinct executions",
                rule="one run = one model object taken through 1-7 operations (build, clean and rebuild, add a constraint or variable, new objective, malformed call, solve again) on problems with up to 8 variables (up to 4 binary), linear, quadratic and cone constraints on an integer grid, feasible, infeasible or tight, written in different but equivalent expression styles, under default or seeded equilibration, iteration and node limits; non-trivial = at least one definite verdict judged; distinct by execution hash",
                stages=[dict(target="socp", flavour="cov", what="verdicts against the reference solver", share=1.0),
                        dict(target="socp", flavour="asan", what="same scenarios with memory and Eigen size checks", share=0.5)],
                assumptions=["tolerances: 1e-5 relative for Optimal, 2e-2 for OptimalInacc, 2e-3 absolute gap for mixed-binary problems", "infeasibility is only contradicted by points that satisfy every constraint with a margin of 1e-3", "reduced-accuracy infeasibility verdicts are not judged"]),
    "C10": dict(note="Seeded search over histories of one model object with allocation failures; results compared bit for bit with a newly created model, leaks counted by the simulated allocator, memory errors by AddressSanitizer.",
                secs=(30, 1500), real=CONIC_REAL, stub=CONIC_STUB, measure="distinct executions",
                rule="one run = a problem solved by a new model (the reference), again by a new model under another memory fill pattern, and by a model that first went through 1-4 other problems each solved once or twice with the k-th, all later or random allocations failing, or malformed calls, then cleaned and rebuilt; non-trivial = at least one fault armed; distinct by execution hash",
                stages=[dict(target="socp", flavour="cov", what="bitwise comparison and leak count", share=1.0),
                        dict(target="socp", flavour="asan", what="same scenarios with memory and Eigen size checks", share=0.7)],
                assumptions=["the installed Eigen's resize is not exception safe; the harness uses a copy repaired in that one respect", "models with trust-region or soft constraints use the last values as linearisation point, so solving them again may differ; they are only compared after a rebuild"]),
    "C11": dict(note="Seeded search over file damage (truncation, corruption, torn blocks, lost or ill-typed entries, missing files) and disk behaviour (short and interrupted reads, read errors at any byte, refused opens) on a simulated disk, for generated and shipped configuration files; what was loaded is compared value by value with an independent reading of the bytes on the disk.",
                secs=(24, 900), real=["SolverSetting, SolverLqrSetting, PlannerSetting", "ContactSequence, TerrainDescription, DynamicsState loaders", "yaml-cpp, std::ifstream"], measure="distinct executions",
                stub=["disk under /simdisk (short, interrupted and failing reads, refused opens)", "yaml_utils (the external YAML-to-Eigen helper package is not installed; a stand-in with the same calls)", "standard output (discarded)"],
                rule="one run = 1-3 loads with one of the six loaders of generated files (every key, number styles, sequence styles, order, comments) or files shipped in the repository, each intact or damaged in one way, read from a disk that behaves well, returns less than asked, interrupts, fails at a byte or refuses to open; non-trivial = a failure was reported or a load under a disturbance was compared; distinct by execution hash",
                stages=[dict(target="cfg", flavour="cov", what="comparison with the bytes on the disk", share=1.0),
                        dict(target="cfg", flavour="asan", what="same scenarios with memory error detection", share=0.5)],
                assumptions=["explicit fall-backs for enumeration values (unknown heuristic, friction cone or contact type) are design", "values whose derived quantities are not representable (an infinite horizon) are outside the statement", "the stand-in for yaml_utils throws on missing or ill-typed entries, as that package documents"]),
    "C12": dict(note="Seeded search over which calls of the user's model and cost misbehave (not a number, infinite, huge, jumping, throwing; transient or permanent; at random calls or in a region of the state space), over problems, settings and histories of re-using the objects; every trajectory the optimiser holds, at every model call and at the end, is compared with the recorded answers of the model.",
                secs=(34, 1500), real=["SolverLqr, ForwardPass, BackwardPass, FiniteDifferences, OcpDescription, SolverLqrSetting", "conic solver (control limits)", "yaml-cpp, std::ifstream"], measure="distinct executions",
                stub=["user's dynamics and cost (five families, faults injected)", "disk under /simdisk", "yaml_utils stand-in", "malloc/new (fill pattern seeded)", "standard output (discarded)"],
                rule="one run = 1-4 optimisations with one solver on problems of up to 4 states, 3 controls and 10 steps, between them re-initialisation, another problem, another initial state or guess; with or without control limits, Runge-Kutta integration, faults at single calls, at many calls or from one call on; non-trivial = at least one improvement accepted under faults or in a re-used object; distinct by execution hash",
                stages=[dict(target="lqr", flavour="cov", what="held trajectories against the recorded model answers", share=1.0),
                        dict(target="lqr", flavour="asan", what="same scenarios with memory and Eigen size checks", share=0.6)],
                assumptions=["where a faulty model answered the same question differently, the most favourable answer counts", "cost comparisons allow a rounding error of 1e-11 relative"]),
    "C13": dict(note="Seeded search over disk behaviour during the save (short and interrupted writes, full disk, write errors at any byte, failing close and open, unreadable settings) and over the state of the file at load (any written prefix, truncated, torn, corrupted, entries lost, missing, wrong problem, read errors) on a simulated disk; files and loaded terms are compared with memory value by value.",
                secs=(24, 900), real=["SolverLqr (storeSolution, loadSolution, optimize)", "yaml-cpp, std::ifstream, std::ofstream"], measure="distinct executions",
                stub=["disk under /simdisk", "yaml_utils stand-in (YAML conversion of Eigen types)", "user's dynamics and cost", "standard output (discarded)"],
                rule="one run = 1-3 operations: optimise and save on a seeded disk, or load (into the same or another problem) one of the files a reader could meet, intact or damaged; non-trivial = a disk operation failed or the file was not good; distinct by execution hash",
                stages=[dict(target="lqr", flavour="cov", what="files and loaded terms", share=1.0),
                        dict(target="lqr", flavour="asan", what="same scenarios with memory error detection", share=0.5)],
                assumptions=["an optimisation whose first simulation diverges saves nothing and reports that on its status output only", "loading restores the feedback terms only, as the code documents by its commented-out rest"]),
    "C14": dict(note="Seeded search over planning problems and histories (plan, plan again, new contacts, new start, re-initialisation, kinematics in between, tracking) of one set of planner objects; every plan reported optimal is recomputed step by step with its own momentum dynamics and checked against the contact plan, and compared with the plan of new objects.",
                secs=(50, 1500), real=["DynamicsOptimizer, DynamicsState", "KinematicsOptimizer, KinematicsState", "ContactPlanFromFile, ContactPlanInterface, TrajectoryGenerator", "PlannerSetting", "conic solver (Model, IPSolver, ...)", "yaml-cpp, std::ifstream, std::ofstream"], measure="distinct executions", stub=["disk under /simdisk", "yaml_utils stand-in (YAML conversion of Eigen types)", "user's robot (KinematicsInterface)", "standard output (discarded)"],
                rule="one run = one planning problem and 1-4 planning steps on the same objects, with changes of problem in between; memory is pre-filled with a seeded pattern; non-trivial = a plan was made by objects that had planned before; distinct by execution hash",
                stages=[dict(target="plan", flavour="cov", what="plans against physics and contact plan", share=1.0),
                        dict(target="plan", flavour="asan", what="same scenarios with memory error detection", share=0.5)],
                assumptions=["quantities of plans reported 'optimal (inaccurate)' are only checked where they are exact by construction", "time optimisation: angular momentum and end-effector lengths are not claimed (convex approximation)"]),
    "C15": dict(note="Seeded search over histories of planning steps with one fault each: any allocation failing (once or from then on), any user callback throwing, the disk failing at any byte of configuration or result file; status, exceptions, result files, leaks and the next step's plan are compared with new objects.",
                secs=(50, 1500), real=["DynamicsOptimizer, DynamicsState", "KinematicsOptimizer, KinematicsState", "ContactPlanFromFile, ContactPlanInterface, TrajectoryGenerator", "PlannerSetting", "conic solver (Model, IPSolver, ...)", "yaml-cpp, std::ifstream, std::ofstream"], measure="distinct executions", stub=["disk under /simdisk", "yaml_utils stand-in (YAML conversion of Eigen types)", "user's robot (KinematicsInterface)", "standard output (discarded)"],
                rule="one run = 1-3 planning steps on the same objects, most of them disturbed, the last one usually not; non-trivial = a fault took effect; distinct by execution hash",
                stages=[dict(target="plan", flavour="cov", what="failing planning steps", share=1.0),
                        dict(target="plan", flavour="asan", what="same scenarios with memory error detection", share=0.5)],
                assumptions=["a plan whose solver status is not optimal is not a plan; nothing is claimed about its numbers", "a 2 kB buffer that yaml-cpp loses when the first read of a file fails is not counted as a leak"]),
    "C21": dict(note="Seeded search over contact plans, joint limits and histories alternating dynamics and kinematics steps, with a sliding-joint robot as the user's kinematics; postures, velocities, accelerations and swing phases are recomputed and compared.",
                secs=(40, 1500), real=["DynamicsOptimizer, DynamicsState", "KinematicsOptimizer, KinematicsState", "ContactPlanFromFile, ContactPlanInterface, TrajectoryGenerator", "PlannerSetting", "conic solver (Model, IPSolver, ...)", "yaml-cpp, std::ifstream, std::ofstream"], measure="distinct executions", stub=["disk under /simdisk", "yaml_utils stand-in (YAML conversion of Eigen types)", "user's robot (KinematicsInterface)", "standard output (discarded)"],
                rule="one run = 2-5 planning steps alternating dynamics and kinematics on the same objects; non-trivial = a kinematic plan was checked; distinct by execution hash",
                stages=[dict(target="plan", flavour="cov", what="kinematic plans", share=1.0),
                        dict(target="plan", flavour="asan", what="same scenarios with memory error detection", share=0.4)],
                assumptions=["the contact plan is one the swing phases are defined for: every contact and every flight lasts at least one step", "kinematics run on a dynamics sequence planned with the current contact plan", "active_dofs lists all joints in order"]),
    "C16": dict(note="Seeded search over plans, robots, sensor faults (noise, frozen, jumping, non-finite readings), interrupts at any executed line of the controller or call of the robot interface, and robot-interface errors, on the real execution code; every command is compared with an independent evaluation of the control law at the reported state.",
                secs=(50, 1500), real=["MotionExecutor, desired_state interpolation, Simulator class (pin2bullet mapping, recording)"], measure="distinct executions",
                stub=["pybullet (simulated rigid robot and sensors)", "pinocchio model (programmatic, matrix API)", "pymomentum sequences", "robot_properties packages", "user input", "plots"],
                rule="one run = one plan (1-40 states, contact patterns, even or uneven steps, shorter or longer than the horizon) executed with one robot under seeded sensor behaviour, maybe an interrupt or an interface error; non-trivial = at least one command judged; distinct by execution hash",
                stages=[dict(target="py:h_exec", flavour=None, what="every command against the control law")],
                assumptions=["the control law is not judged in cycles whose sensor readings are false or at the instants where the plan changes its step", "gains and limits are the ones the class holds", "an interrupt while the robot settles only ends the settling (that is how the code uses it)"]),
    "C17": dict(note="Seeded search over plans, planning rounds, histories of exports and disk behaviour (full disk and write errors at any byte, failing open and close, short writes), planner errors and interrupts at any executed line; files of finished exports are compared value by value with an independent sampling of the plan.",
                secs=(45, 1500), real=["MotionPlanner", "create_data_file, desired_state", "numpy savetxt, CPython I/O stack above the raw file"], measure="distinct executions",
                stub=["raw file writes below the scratch directory (fault injection)", "pymomentum optimisers (random plans)", "user's kinematics optimiser", "plots"],
                rule="one run = one plan made in 0-2 rounds (maybe after a failed attempt), then 1-3 exports of either kind, each undisturbed or with one fault; non-trivial = a finished export compared or a fault met; distinct by execution hash",
                stages=[dict(target="py:h_export", flavour=None, what="exported files against the plan")],
                assumptions=["what is left on the disk by an export that reported an error is not claimed", "a plan shorter than one sample has nothing to export"]),
    "C19": dict(note="Seeded search over plans, settings and histories of one object (new plans, new settings, other interface), with damaged or unreadable settings files and failing allocations; gains and trajectories are compared bit for bit with those of new objects and, iteration by iteration, with an independent Riccati recursion in extended precision.",
                secs=(24, 1200), real=["DynamicsFeedback, DynamicsFeedbackWrapper, DynamicsState", "SolverLqr, BackwardPass, ForwardPass, FiniteDifferences, OcpDescription", "PlannerSetting, SolverLqrSetting", "yaml-cpp, std::ifstream"], measure="distinct executions",
                stub=["disk under /simdisk", "yaml_utils stand-in", "malloc/new (seeded failures and fill pattern)", "Eigen (a copy whose resize survives a failed allocation)", "standard output (discarded)"],
                rule="one run = 1-4 operations with one object: reading settings (intact, damaged in one of six ways, unreadable disk), optimising on a plan (1-14 steps, 1-4 end effectors, contact patterns, even or uneven steps, dynamically exact or not, not finite, of another length), with or without a failing allocation; non-trivial = a failure was due or met, or an object used again; distinct by execution hash",
                stages=[dict(target="fb", flavour="cov", what="gains against new objects and the recursion", share=1.0),
                        dict(target="fb", flavour="asan", what="same scenarios with memory and Eigen size checks", share=0.7)],
                assumptions=["gains are compared where the stage costs are small enough (3) for the code's second differences (step 2^-17) to be accurate; elsewhere only trajectories, costs, sizes and independence of the history", "up to four iterations, so that the regularisation stays above the noise of the differences"]),
    "C20": dict(note="Seeded search over robots, contact plans, settings and histories (new plans, new settings, re-initialisation, first and second order) of one optimiser object, with errors of robot description, planner bindings and quadratic program, interrupts and failing allocations at any executed line; every state is recomputed with the robot model and every velocity checked against the optimality conditions of an independently assembled objective.",
                secs=(45, 1500), real=["MomentumKinematicsOptimizer, EndeffectorTrajectoryGenerator, TrajectoryInterpolator", "PointContactInverseKinematics, SecondOrderInverseKinematics, min_jerk_traj, qp", "QuadrupedWrapper, Quadruped12Wrapper, BipedWrapper", "pinocchio, quadprog, scipy"], measure="distinct executions",
                stub=["pymomentum sequences and settings", "robot_properties packages (programmatic pinocchio models)"],
                rule="one run = 1-4 optimisations on one object, each undisturbed or with one fault, with changes of plan, settings or robot in between; non-trivial = a fault was met or an object optimised again; distinct by execution hash",
                stages=[dict(target="py:h_kin", flavour=None, what="whole-body motions against robot, plan and objective")],
                assumptions=["an object whose optimisation was interrupted is initialised again before it is used", "start accuracy: within 1 cm of the given feet and centre of mass, base tilted by less than 0.3 rad (the search stops after 50 iterations)", "all time steps last equally long", "second-order motions are judged up to the point where the independent re-integration of the same tracking law exceeds 200 rad/s, too", "plans that start in flight or have an end effector that never touches the ground are not generated (not supported by the code)"]),
    "C22": dict(note="Seeded search over plans, weights, histories of objects and plans, damaged plan files, read and write faults at any byte, interrupts and failing allocations at any executed line; trajectories and gains are compared with an independent model (rotation matrices instead of quaternions, central differences) and its Riccati recursion, the gain file value by value with the gains.",
                secs=(45, 1500), real=["CentroidalLqr", "numpy loadtxt and savetxt, CPython I/O stack above the raw file", "scipy.linalg, pinocchio quaternions"], measure="distinct executions",
                stub=["raw file reads and writes below the scratch directory (fault injection)"],
                rule="one run = 1-3 plans (1-15 steps) loaded from files (intact, damaged in one of six ways, read faults) and 1-6 computations of gains on any of the objects, weights changed or not, with or without a fault; non-trivial = gains compared, a damaged file or a fault met; distinct by execution hash",
                stages=[dict(target="py:h_gain", flavour=None, what="gains against plan files and recursion")],
                assumptions=["relative tolerance 1e-2 of the largest gain plus the rounding the code's second differences (step 1e-6) must have at the cost in question", "a gain file whose write reported an error is not claimed", "plans of up to fifteen steps"]),
}
