"""C20: whole-body motions by inverse kinematics (first and second order) on real robot models."""
import os, sys, types
import psim
import numpy as np
import pinocchio as pin
import quadprog
from scipy.interpolate import CubicSpline
import stubs
from stubs import W

stubs.install(pinocchio=False)
_solve = quadprog.solve_qp
NS = types.SimpleNamespace
QUAD, BI = ("FR", "FL", "HR", "HL"), ("FL", "FR")
LEGS = {"quad8": QUAD, "quad12": QUAD, "biped": BI}


def build(spec):
    """a robot as its description file would define it"""
    kind, lu, ll, mb, my = spec
    m = pin.Model()
    root = m.addJoint(0, pin.JointModelFreeFlyer(), pin.SE3.Identity(), "root_joint")
    m.addJointFrame(root)
    m.appendBodyToJoint(root, pin.Inertia(mb, np.array([0.01, 0, 0.02]), mb * np.diag([0.008, 0.02, 0.025])), pin.SE3.Identity())
    m.addFrame(pin.Frame("base_link", root, 0, pin.SE3.Identity(), pin.FrameType.BODY))
    place = {"FL": (0.2, 0.15), "FR": (0.2, -0.15), "HL": (-0.2, 0.15), "HR": (-0.2, -0.15)} if kind != "biped" else {"FL": (0, 0.1), "FR": (0, -0.1)}
    for leg in sorted(place):
        par, at = root, np.array([*place[leg], 0.0])
        if kind != "quad8":
            par = m.addJoint(par, pin.JointModelRX(), pin.SE3(np.eye(3), at), leg + "_HAA")
            m.addJointFrame(par)
            m.appendBodyToJoint(par, pin.Inertia(0.1, np.zeros(3), 1e-4 * np.eye(3)), pin.SE3.Identity())
            at = np.array([0, 0.01 if leg[1] == "L" else -0.01, 0])
        a = m.addJoint(par, pin.JointModelRY(), pin.SE3(np.eye(3), at), leg + "_HFE")
        m.addJointFrame(a)
        m.appendBodyToJoint(a, pin.Inertia(0.15, np.array([0, my, -lu / 2]), 1e-4 * np.eye(3)), pin.SE3.Identity())
        b = m.addJoint(a, pin.JointModelRY(), pin.SE3(np.eye(3), np.array([0, 0, -lu])), leg + "_KFE")
        m.addJointFrame(b)
        m.appendBodyToJoint(b, pin.Inertia(0.05, np.array([0, 0, -ll / 2]), 5e-5 * np.eye(3)), pin.SE3.Identity())
        m.addFrame(pin.Frame(leg + "_ANKLE", b, 0, pin.SE3(np.eye(3), np.array([0, 0, -ll])), pin.FrameType.OP_FRAME))
    return m


class Config:
    @staticmethod
    def buildRobotWrapper():
        faulty("robot description")
        return pin.RobotWrapper(build(W.spec))


stubs.robots(Config, Config, Config)


class Fail(Exception):
    """an error of one of the simulated parties"""


CUR = NS(s=None, calls=0, fail_at=0, failed=False, what="")


def faulty(what):
    CUR.calls += 1
    if CUR.fail_at and CUR.calls == CUR.fail_at:
        CUR.failed, CUR.what = True, what
        CUR.s.fault("%s_fails" % what.replace(" ", "_"))
        CUR.s.event("%s fails", what)
        if what == "quadratic program": raise ValueError("matrix G is not positive definite")
        raise Fail(what)


def solve_qp(*a, **k):
    faulty("quadratic program")
    return _solve(*a, **k)


quadprog.solve_qp = solve_qp
import momentumopt.kinoptpy.momentum_kinematics_optimizer as mko
import momentumopt.kinoptpy.inverse_kinematics as ik1
import momentumopt.kinoptpy.second_order_ik as ik2
import momentumopt.kinoptpy.min_jerk_traj as mj
import momentumopt.kinoptpy.qp as qp
import momentumopt.motion_planner as mp
import momentumopt.robots.blmc_robot_wrapper as rw

WRAP = {"quad8": rw.QuadrupedWrapper, "quad12": rw.Quadruped12Wrapper, "biped": rw.BipedWrapper}


class State:
    """a kinematic state of the bindings"""
    def __init__(self):
        self.com = self.lmom = self.amom = None
        self.robot_posture = NS(base_position=None, base_orientation=None, joint_positions=None)
        self.robot_velocity = NS(base_linear_velocity=None, base_angular_velocity=None, joint_velocities=None)


class KinSeq:
    def resize(self, n, d):
        faulty("bindings")
        self.kinematics_states = [State() for _ in range(n)]


class Party:
    """any other object of the bindings the motion planner sets up"""
    def initialize(self, *a): faulty("bindings")
    def fillInitialRobotState(self, f): faulty("bindings")
    def loadFromFile(self, *a): faulty("bindings")
    def optimize(self, *a): faulty("bindings")
    def contactSequence(self): return None
    com = property(lambda s: CUR.p.ini_com.copy())
    def effPosition(self, e): return CUR.p.ini_pos[e].copy()
    def dynamicsSequence(self):
        p = CUR.p
        return NS(dynamics_states=[Dyn(p, i) for i in range(p.N)])


W.make = lambda name, *a: KinSeq() if name == "KinematicsSequence" else Setting(CUR.p) if name == "PlannerSetting" else Party()


class Setting:
    def __init__(self, p): self.p = p

    def initialize(self, *a): faulty("bindings")

    def get(self, k):
        faulty("bindings")
        p = self.p
        if p.cfg is not None and k in NAMES:
            u = "" if k.endswith("_Second") == p.second else "unused"
            if u: return 77.0
            v = configured(p)[k]
            return v.copy() if isinstance(v, np.ndarray) else v
        return {"PlannerDoubleParam_TimeStep": p.dt, "PlannerIntParam_NumTimesteps": p.N, "PlannerIntParam_NumDofs": len(p.q0) - 7, "PlannerVectorParam_KinematicDefaultJointPositions": p.defaults.copy(),
                "PlannerStringParam_ConfigFile": "plan.yaml", "PlannerIntParam_KinDynIterations": 1, "PlannerBoolParam_UseSecondOrderInverseKinematics": p.second, "PlannerDoubleParam_RobotWeight": p.weight, "PlannerDoubleParam_RobotMass": p.mass}[k]


# what the names of the configuration mean: the gain or weight of the tracking it sets
MEANING = {"WeightLinMomentumTracking": "w_lin_mom_tracking", "WeightAngMomentumTracking": "w_ang_mom_tracking", "WeightEndEffContact": "w_endeff_contact", "WeightEndEffTracking": "w_endeff_tracking", "WeightJointReg": "w_joint_regularization",
           "PGainEndEffTracking": "p_endeff_tracking", "PGainComTracking": "p_com_tracking"}
ONLY2 = {"DGainEndEffTracking": "d_endeff_tracking", "PGainBaseOrientationTracking": "p_orient_tracking", "DGainBaseOrientationTracking": "d_orient_tracking", "PGainJointRegularization": "p_joint_regularization", "DGainJointRegularization": "d_joint_regularization"}


def configured(p):
    """the configuration file of the problem: name -> value"""
    x = "_Second" if p.second else ""
    c = {"PlannerDoubleParam_" + k + x: p.cfg[v] for k, v in {**MEANING, **(ONLY2 if p.second else {})}.items()}
    c["PlannerDoubleParam_SwingTrajViaZ" + x] = p.z
    c.update({"PlannerIntParam_NumJointViapoints" + x: len(p.vj), "PlannerIntParam_NumBaseViapoints" + x: len(p.vb), "PlannerCVectorParam_JointViapoints" + x: [np.array(v) for v in p.vj], "PlannerCVectorParam_BaseViapoints" + x: [np.array(v) for v in p.vb]})
    if p.second: c["PlannerVectorParam_PGainMomentumTracking_Second"] = p.cfg["p_mom_tracking"]
    else: c.update({"PlannerDoubleParam_PGainOrientationTracking": p.reg_o, "PlannerDoubleParam_PGainPositionTracking": p.reg_q})
    return c


NAMES = {"PlannerDoubleParam_" + k + x for k in [*MEANING, *ONLY2, "SwingTrajViaZ", "PGainOrientationTracking", "PGainPositionTracking"] for x in ("", "_Second")} | {"Planner%sParam_Num%sViapoints%s" % ("Int", k, x) for k in ("Joint", "Base") for x in ("", "_Second")} | {"PlannerCVectorParam_%sViapoints%s" % (k, x) for k in ("Joint", "Base") for x in ("", "_Second")} | {"PlannerVectorParam_PGainMomentumTracking_Second"}


def gains(p, o):
    return NS(**p.cfg) if p.cfg is not None else o.snd_order_inv_kin if p.second else o.inv_kin


class Dyn:
    """a dynamics state of the bindings"""
    def __init__(self, p, i): self.p, self.i = p, i
    def _com(self): faulty("bindings"); return self.p.com[self.i].copy()
    com = property(_com)
    lmom = property(lambda s: s.p.lmom[s.i].copy())
    amom = property(lambda s: s.p.amom[s.i].copy())
    dt = property(lambda s: s.p.dt)
    def effNum(self): return 4
    def effActivation(self, e): faulty("bindings"); return bool(self.p.on[self.i, e])
    def eff(self, e): return self.p.pos[self.i, e].copy()
    effPosition = eff


# ---- a planning problem ---------------------------------------------------------------------
def spec(s):
    return s.pick("quad8", "quad12", "biped"), s.pick(0.16, 0.2, 0.14), s.pick(0.16, 0.18), s.pick(1.5, 6.0), s.pick(0.0, 0.02)


def problem(s, sp, second):
    p = NS(spec=sp, second=second)
    legs = LEGS[sp[0]]
    model = build(sp)
    data = model.createData()
    p.dt = s.pick(0.01, 0.02, 0.005, 0.0125, 0.029) if second else s.pick(0.1, 0.05, 0.01, 0.025)
    p.N = 2 + s.choose(6 if second else s.pick(8, 20))
    nj = model.nq - 7
    per = nj // len(legs)
    p.defaults = np.array(([] if per == 2 else [0.0]) * len(legs))
    p.defaults = np.tile(np.array(([0.0] if per == 3 else []) + [0.8, -1.6]), len(legs))
    p.q0 = pin.neutral(model)
    p.q0[7:] = p.defaults + s.pick(0.0, 0.1) * np.array([s.real(-1, 1) for _ in range(nj)])
    p.q0[:3] = [s.real(-0.1, 0.1), s.real(-0.1, 0.1), 0.22]
    pin.framesForwardKinematics(model, data, p.q0)
    feet = np.array([data.oMf[model.getFrameId(l + "_ANKLE")].translation for l in legs])
    c0 = pin.centerOfMass(model, data, p.q0).copy()
    p.ini_com, p.ini_pos = c0, feet.copy()
    p.mass = sum(i.mass for i in model.inertias[1:])
    p.weight = 9.81 * p.mass
    sequence(s, p, legs)
    # weights and gains
    p.set = {}
    if s.flag(1, 2):
        for k, v in (("w_endeff_tracking", (1.0, 10.0)), ("w_endeff_contact", (1.0, 100.0)), ("w_lin_mom_tracking", (1.0, 0.1)), ("w_ang_mom_tracking", (1.0, 0.1)), ("w_joint_regularization", (0.01, 0.1)), ("p_endeff_tracking", (1.0, 5.0)), ("p_com_tracking", (1.0, 2.0))):
            p.set[k] = s.pick(*v)
    p.cfg = None
    if s.flag(1, 3):     # through the motion planner, from its configuration
        base = {"w_lin_mom_tracking": 100.0, "w_ang_mom_tracking": 10.0, "w_endeff_contact": 1e5, "w_endeff_tracking": 8e4, "w_joint_regularization": 0.1, "p_endeff_tracking": 9000.0, "p_com_tracking": 100.0, "d_endeff_tracking": 200.0,
                "p_orient_tracking": 10.0, "d_orient_tracking": 1.0, "p_joint_regularization": 1.0, "d_joint_regularization": 0.5} if second else {"w_lin_mom_tracking": 1.0, "w_ang_mom_tracking": 0.3, "w_endeff_contact": 5.0, "w_endeff_tracking": 2.0, "w_joint_regularization": 0.02, "p_endeff_tracking": 0.8, "p_com_tracking": 1.3}
        p.cfg = {k: v * s.pick(1.0, 0.7, 1.25) for k, v in base.items()}
        if second: p.cfg["p_mom_tracking"] = 10.0 * np.array([1.0, 0.9, 1.1, 0.01, 0.012, 0.009])
    p.z = s.pick(0.1, 0.05, 0.0)
    p.reg_o, p.reg_q = s.pick(1e-2, 0.1), s.pick(2.0, 0.5)
    vias = lambda n, amp: sorted(([p.dt * t] + [amp * s.real(-1, 1) for _ in range(n)] for t in sorted(set(1 + s.choose(max(1, p.N - 1)) + s.pick(0, 0, 0.5) for _ in range(s.choose(5))))), key=lambda v: v[0])
    p.vj, p.vb = [], []
    if s.flag(1, 3): p.vj = [[v[0]] + list(p.defaults + np.array(v[1:])) for v in vias(nj, 0.3)]
    if s.flag(1, 3): p.vb = vias(3, 0.2)
    return p


def sequence(s, p, legs):
    """what the dynamics optimiser came up with"""
    ne = len(legs)
    p.on = np.zeros((p.N, 4), bool)
    p.pos = np.zeros((p.N, 4, 3))
    jump = s.flag(1, 4)
    cut = 1 + s.choose(max(1, p.N - 1)), 1 + s.choose(4)
    for e in range(ne):
        at = p.ini_pos[e].copy()
        t, on = 0, not s.flag(1, 8) or jump
        mode = s.choose(3)     # always in contact, steps, one step
        where = at.copy()
        while t < p.N:
            if on:
                n = p.N if mode == 0 else 1 + s.choose(6)
                p.on[t:t + n, e] = True
                p.pos[t:t + n, e] = where
            else:
                n = 1 + s.choose(4)
                p.pos[t:t + n, e] = where + np.array([0, 0, 0.05])    # somewhere in the air
                if t or s.flag(1, 2): where = where + np.array([s.real(-0.05, 0.08), s.real(-0.03, 0.03), s.pick(0.0, 0.02)])
            t += n
            on = not on
        if jump: p.on[cut[0]:cut[0] + cut[1], e] = False
        if jump and cut[0] + cut[1] < p.N and s.flag(1, 2): p.pos[cut[0] + cut[1]:, e] += np.array([0.05, 0, 0])
    for e in range(ne):
        if not p.on[:, e].any(): p.on[p.N - 1, e] = True
    # a contact does not move
    for e in range(ne):
        for t in range(1, p.N):
            if p.on[t, e] and p.on[t - 1, e]: p.pos[t, e] = p.pos[t - 1, e]
    if not p.on[0, :ne].any(): p.on[0, 0] = True
    if p.N > 1 and p.on[0, 0] and p.on[1, 0]:
        for t in range(1, p.N):
            if not p.on[t, 0]: break
            p.pos[t, 0] = p.pos[0, 0]
    goal, k = np.array([s.real(-0.1, 0.1), s.real(-0.1, 0.1), s.real(-0.04, 0.02)]), s.pick(1.0, 0.0)
    x = (np.arange(p.N) + 1.0) / p.N
    p.com = p.ini_com + k * np.outer(x * x * (3 - 2 * x), goal)
    p.lmom = p.mass * np.outer(6 * x * (1 - x), goal) / (p.N * p.dt) * k
    p.amom = np.outer(np.sin(3 * x), [s.real(-0.02, 0.02), s.real(-0.02, 0.02), s.real(-0.02, 0.02)])
    if s.flag(1, 4): p.lmom += s.real(-0.3, 0.3) * np.outer(np.cos(5 * x), [1, -1, 2])


def optimiser(p):
    o = mko.MomentumKinematicsOptimizer()
    prepare(o, p)
    return o


def prepare(o, p, generator=None):
    W.spec, CUR.p = p.spec, p
    PLANNER.pop(id(o), None)
    if p.cfg is not None: PLANNER[id(o)] = mp.MotionPlanner("plan.yaml", lambda: o, WRAP[p.spec[0]], False)
    else: o.initialize(Setting(p), endeff_traj_generator=generator, RobotWrapper=WRAP[p.spec[0]])
    user(o, p)


def user(o, p):
    """what the motion planner sets from its configuration, or the user"""
    CUR.p = p
    if id(o) in PLANNER:
        PLANNER[id(o)].init_from_settings()
        return
    o.use_second_order_inv_kin = p.second
    o.endeff_traj_generator.z_offset = p.z
    fresh = (ik2.SecondOrderInverseKinematics if p.second else ik1.PointContactInverseKinematics)
    target = o.snd_order_inv_kin if p.second else o.inv_kin
    for k, v in p.set.items(): setattr(target, k, v * (1 if not p.second else {"p_endeff_tracking": 1000.0, "w_endeff_tracking": 1e5, "w_endeff_contact": 1e5, "p_com_tracking": 50.0, "w_lin_mom_tracking": 100.0, "w_ang_mom_tracking": 10.0}.get(k, 1.0)))
    o.reg_orientation, o.reg_joint_position = p.reg_o, p.reg_q
    o.n_via_joint, o.via_joint, o.n_via_base, o.via_base = len(p.vj), [np.array(v) for v in p.vj], len(p.vb), [np.array(v) for v in p.vb]


PLANNER = {}


def run(o, p):
    W.spec, CUR.p = p.spec, p
    if id(o) in PLANNER:
        PLANNER[id(o)].optimize_kinematics(0)
        return
    o.optimize(NS(com=p.ini_com.copy(), effPosition=lambda e: p.ini_pos[e].copy()), None, NS(dynamics_states=[Dyn(p, i) for i in range(p.N)]))


# ---- what it has to be ------------------------------------------------------------------------
def rest(a, b, t0, t1, t, via=None):
    """from rest to rest through the via point at half time: position, velocity"""
    x = (t - t0) / (t1 - t0)
    if via is None: via = 0.5 * (a + b)
    k = via - 0.5 * (a + b)
    return a + x ** 3 * (10 - 15 * x + 6 * x * x) * (b - a) + 64 * (x * (1 - x)) ** 3 * k, (30 * x * x * (1 - x) ** 2 * (b - a) + 192 * (x * (1 - x)) ** 2 * (1 - 2 * x) * k) / (t1 - t0)


def references(p, ne):
    pos, vel = np.zeros((p.N, ne, 3)), np.zeros((p.N, ne, 3))
    for e in range(ne):
        on, runs, t = p.on[:, e], [], 0
        while t < p.N:
            if on[t]:
                a = t
                while t < p.N and on[t]: t += 1
                runs.append((a, t - 1, p.pos[t - 1, e]))
            t += 1
        for t in range(p.N):
            if not runs: pos[t, e] = np.nan; continue
            before = [r for r in runs if r[0] <= t]
            after = [r for r in runs if r[0] > t]
            if not before: pos[t, e] = after[0][2]; continue
            a = before[-1]
            if t <= a[1] or not after: pos[t, e] = a[2]; continue
            b = after[0]
            for k in range(3):
                x, v = rest(a[2][k], b[2][k], a[1], b[0], t, p.z + a[2][2] if k == 2 else None)
                pos[t, e, k], vel[t, e, k] = x, v / p.dt
    return pos, vel


def regular(p, via, init, end, n):
    out = np.zeros((n, p.N))
    if not via: return np.tile(np.asarray(init, float).reshape(-1, 1), (1, p.N))
    knots = [(0.0, np.asarray(init, float))] + [(v[0] / p.dt, np.array(v[1:])) for v in via]
    if knots[-1][0] != p.N: knots.append((float(p.N), np.asarray(end, float)))
    for t in range(p.N):
        i = 0
        while i < len(knots) - 2 and knots[i + 1][0] < t: i += 1
        for k in range(n): out[k, t] = rest(knots[i][1][k], knots[i + 1][1][k], knots[i][0], knots[i + 1][0], t)[0]
    return out


def model_of(p):
    m = build(p.spec)
    return m, m.createData()


def frame_jac(m, d, q, i):
    J = pin.computeFrameJacobian(m, d, q, i, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)
    return J[:3]


def near(s, name, a, b, tol, hist, same=False):
    a, b = np.asarray(a, float).reshape(-1), np.asarray(b, float).reshape(-1)
    if a.shape != b.shape: s.violate(name[0], "%s has %d values, expected %d (%s)", name[1], len(a), len(b), hist)
    e = np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0, np.abs(a - b)) if same else np.abs(a - b)
    if not np.all((e == 0) | (e <= tol * (1 + np.abs(b)))):
        i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
        s.violate(name[0], "%s: value %d is %.9g, expected %.9g (%s)", name[1], i, a[i], b[i], hist)


def judge(s, o, p, hist, first):
    m, d = model_of(p)
    legs = LEGS[p.spec[0]]
    ne = len(legs)
    ids, hips = [m.getFrameId(l + "_ANKLE") for l in legs], [m.getFrameId(l + "_HFE") for l in legs]
    ks = o.kinematics_sequence.kinematics_states
    if len(ks) != p.N: s.violate("wrong-length", "%d states for %d steps (%s)", len(ks), p.N, hist)
    Q = np.array([np.r_[k.robot_posture.base_position, k.robot_posture.base_orientation, k.robot_posture.joint_positions] for k in ks], float)
    V = np.array([np.r_[k.robot_velocity.base_linear_velocity, k.robot_velocity.base_angular_velocity, k.robot_velocity.joint_velocities] for k in ks], float)
    # an acceleration-level controller may diverge on a plan out of reach; then so does the reference (see second())
    calm = np.isfinite(Q).all(axis=1) & np.isfinite(V).all(axis=1) & (np.abs(V).max(axis=1, initial=0, where=np.isfinite(V)) < WILD)
    upto = p.N if calm.all() else int(np.argmin(calm))
    if upto < p.N and not p.second and not (np.isfinite(Q).all() and np.isfinite(V).all()): s.violate("not-a-motion", "a posture or velocity is not finite (%s)", hist)
    if not p.second: upto = p.N
    if upto == 0: s.violate("not-a-motion", "the first posture or velocity is not finite (%s)", hist)
    # references
    pos, vel = references(p, ne)
    known = ~np.isnan(pos)
    near(s, ("contact-reference", "the end-effector references"), np.asarray(o.endeff_pos_ref)[known], pos[known], 1e-5, hist)
    near(s, ("contact-reference", "the velocity references of the end effectors"), np.asarray(o.endeff_vel_ref)[known], vel[known], 1e-3, hist)
    near(s, ("contact-reference", "the contact flags"), o.endeff_contact, p.on[:, :ne].astype(float), 0, hist)
    near(s, ("plan-reference", "the centre of mass of the plan"), o.com_dyn, p.com, 0, hist)
    near(s, ("plan-reference", "the linear momentum of the plan"), o.lmom_dyn, p.lmom, 0, hist)
    near(s, ("plan-reference", "the angular momentum of the plan"), o.amom_dyn, p.amom, 0, hist)
    jd, bd = regular(p, p.vj, Q[0][7:], Q[0][7:], m.nq - 7), regular(p, p.vb, np.zeros(3), np.zeros(3), 3)
    near(s, ("viapoints", "the joint regularisation"), o.joint_des, jd, 1e-4, hist)
    near(s, ("viapoints", "the base regularisation"), o.base_des, bd, 1e-4, hist)
    jd, bd = np.asarray(o.joint_des, float), np.asarray(o.base_des, float)
    # where it starts
    near(s, ("start", "the velocities of step 0"), V[0], np.zeros(m.nv), 1e-12, hist)
    pin.framesForwardKinematics(m, d, Q[0])
    off = max([np.linalg.norm(d.oMf[i].translation - p.ini_pos[e]) for e, i in enumerate(ids)] + [np.linalg.norm(pin.centerOfMass(m, d, Q[0]) - p.ini_com)])
    s.event("start is off by %.3g", off)
    tilt = np.linalg.norm(pin.log3(pin.Quaternion(Q[0][3:7].copy()).toRotationMatrix()))
    if tilt > 0.3: s.violate("start", "the base is tilted by %.3g rad at the start (%s)", tilt, hist)
    if off > START: s.violate("start", "the motion starts %.3g away from the initial state (%s)", off, hist)
    # every state is one of the robot
    for t in range(upto):
        q, v, k = Q[t], V[t], ks[t]
        if abs(np.linalg.norm(q[3:7]) - 1) > 1e-6: s.violate("not-a-motion", "the orientation of step %d has norm %.9g (%s)", t, np.linalg.norm(q[3:7]), hist)
        near(s, ("state", "the centre of mass of step %d" % t), k.com, pin.centerOfMass(m, d, q), 1e-9, hist)
        hg = pin.computeCentroidalMomentum(m, d, q, v)
        near(s, ("state", "the linear momentum of step %d" % t), k.lmom, hg.linear, 1e-9, hist)
        near(s, ("state", "the angular momentum of step %d" % t), k.amom, hg.angular, 1e-9, hist)
        pin.framesForwardKinematics(m, d, q)
        xp = np.array([d.oMf[i].translation.copy() for i in ids])
        hp = np.array([d.oMf[i].translation.copy() for i in hips])
        xv = np.array([frame_jac(m, d, q, i).dot(v) for i in ids])
        hv = np.array([frame_jac(m, d, q, i).dot(v) for i in hips])
        near(s, ("state", "the end-effector positions of step %d" % t), o.motion_eff["trajectory"][t], xp, 1e-9, hist)
        near(s, ("state", "the end-effector positions of step %d relative to the hips" % t), o.motion_eff["trajectory_wrt_base"][t], xp - hp, 1e-9, hist)
        near(s, ("state-velocity", "the end-effector velocities of step %d" % t), o.motion_eff["velocity"][t], xv, 1e-8, hist)
        near(s, ("state-velocity", "the end-effector velocities of step %d relative to the hips" % t), o.motion_eff["velocity_wrt_base"][t], xv - hv, 1e-8, hist)
    (second if p.second else firstorder)(s, o, p, hist, m, d, Q, V, ids, pos, vel, jd, bd)
    s.count("probe.judged")


START = 0.01
WILD = 200.0


def firstorder(s, o, p, hist, m, d, Q, V, ids, pos, vel, jd, bd):
    ne, nv = len(ids), m.nv
    k = gains(p, o)
    lift = np.zeros(6)
    fall = 0.0
    for t in range(p.N - 1):
        q, v = Q[t], V[t + 1]
        near(s, ("integration", "the posture of step %d" % (t + 1)), Q[t + 1], pin.integrate(m, q, v * p.dt), 1e-9, hist)
        pin.ccrba(m, d, q, v)
        Ag = d.Ag.copy()
        pin.framesForwardKinematics(m, d, q)
        J = np.zeros((6 + 3 * ne + nv - 6, nv))
        J[:6] = Ag
        for e, i in enumerate(ids): J[6 + 3 * e:9 + 3 * e] = frame_jac(m, d, q, i)
        J[6 + 3 * ne:, 6:] = np.eye(nv - 6)
        air = not p.on[t, :ne].any()
        R = pin.rpy.rpyToMatrix(*bd[:, t]).dot(pin.Quaternion(q[3:7].copy()).toRotationMatrix().T)
        if air:
            fall += p.weight * p.dt
            lm, am = np.r_[lift[:2], lz - fall], lift[3:]
        else:
            fall, lz = 0.0, p.lmom[t][2]
            lm, am = p.lmom[t], p.reg_o * pin.log3(R) + p.amom[t]
        want = np.zeros(len(J))
        com = pin.centerOfMass(m, d, q)
        want[:3] = lm + k.p_com_tracking * (p.com[t] - com)
        want[3:6] = am
        pin.framesForwardKinematics(m, d, q)
        for e, i in enumerate(ids): want[6 + 3 * e:9 + 3 * e] = o.endeff_vel_ref[t][e] + k.p_endeff_tracking * (o.endeff_pos_ref[t][e] - d.oMf[i].translation)
        want[6 + 3 * ne:] = p.reg_q * (jd[:, t] - q[7:])
        w = np.r_[k.w_lin_mom_tracking * np.ones(3), k.w_ang_mom_tracking * np.ones(3), np.repeat(np.where(p.on[t, :ne], k.w_endeff_contact, k.w_endeff_tracking), 3), k.w_joint_regularization * np.ones(nv - 6)]
        g = J.T.dot(w * (J.dot(v) - want)) + 1e-6 * v
        scale = np.abs(J.T * w).dot(np.abs(J).dot(np.abs(v)) + np.abs(want)).max() + 1e-9
        if air:
            near(s, ("flight", "the momentum in flight after step %d" % t), Ag.dot(v), np.r_[lm, am], 1e-6, hist)
            g = g - Ag.T.dot(np.linalg.lstsq(Ag.T, g, rcond=None)[0])
            s.count("probe.flight_steps")
        if not np.abs(g).max() <= 1e-6 * scale: s.violate("not-optimal", "the velocities after step %d do not track the references best: gradient %.3g of %.3g (%s)", t, np.abs(g).max(), scale, hist)
        # momentum at take-off
        if not air: lift = lift_next if t else np.zeros(6)
        lift_next = Ag.dot(v)
        

def second(s, o, p, hist, m, d, Q, V, ids, pos, vel, jd, bd):
    follow(s, o, p, hist, m, Q[0], V[0], ids, jd, bd, Q, V)


def diverges(s, o, p):
    """the acceleration-level tracking of this plan, started where the optimisation started, is unstable"""
    if not p.second or o.q_init is None: return False
    m = build(p.spec)
    return not follow(s, o, p, "", m, o.q_init, o.dq_init, [m.getFrameId(l + "_ANKLE") for l in LEGS[p.spec[0]]], np.asarray(o.joint_des, float), np.asarray(o.base_des, float), None, None)


def follow(s, o, p, hist, m, q, v, ids, jd, bd, Q, V):
    """integrate the tracking, compare each step with Q, V if given; False when it diverges"""
    k, ne, nv = gains(p, o), len(ids), m.nv
    n = max(1, int(round(p.dt / 0.001)))
    h = p.dt / n
    time = np.arange(p.N) * p.dt
    com, lm, am = CubicSpline(time, p.com), CubicSpline(time, p.lmom), CubicSpline(time, p.amom)
    ep, ev, jp, bo = CubicSpline(time, o.endeff_pos_ref), CubicSpline(time, o.endeff_vel_ref), CubicSpline(time, jd.T), CubicSpline(time, bd.T)
    q, v = np.array(q, float).reshape(-1), np.array(v, float).reshape(-1)
    base = m.getFrameId("base_link")
    for it in range(1, p.N):
        w = np.r_[k.w_lin_mom_tracking * np.ones(3), k.w_ang_mom_tracking * np.ones(3), np.repeat(np.where(p.on[it, :ne], k.w_endeff_contact, k.w_endeff_tracking), 3), k.w_joint_regularization * np.ones(nv - 6)]
        for i in range(n):
            t = ((it - 1) * n + i) * h
            d = m.createData()
            pin.computeCentroidalMapTimeVariation(m, d, q, v)
            pin.computeJointJacobiansTimeVariation(m, d, q, v)
            pin.updateFramePlacements(m, d)
            Ag, dAg = d.Ag.copy(), d.dAg.copy()
            J, drift, want = np.zeros((6 + 3 * ne + nv - 6, nv)), np.zeros(6 + 3 * ne + nv - 6), np.zeros(6 + 3 * ne + nv - 6)
            J[:6], drift[:6] = Ag, dAg.dot(v)
            x = []
            for e, f in enumerate(ids):
                sl = slice(6 + 3 * e, 9 + 3 * e)
                J[sl] = pin.getFrameJacobian(m, d, f, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)[:3]
                drift[sl] = pin.getFrameJacobianTimeVariation(m, d, f, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)[:3].dot(v)
                want[sl] = k.p_endeff_tracking * (ep(t)[e] - d.oMf[f].translation) + k.d_endeff_tracking * (ev(t)[e] - J[sl].dot(v)) + ev(t, nu=1)[e]
            J[6 + 3 * ne:, 6:] = np.eye(nv - 6)
            R = d.oMf[base].rotation.copy()
            c = pin.centerOfMass(m, d, q)
            want[:6] = np.r_[lm(t, nu=1), am(t, nu=1)] + k.p_mom_tracking * (np.r_[lm(t), am(t)] - Ag.dot(v))
            want[:3] += k.p_com_tracking * (com(t) - c)
            want[3:6] += k.p_orient_tracking * pin.log3(R.T.dot(pin.rpy.rpyToMatrix(*bo(t)))) - k.d_orient_tracking * v[3:6]
            want[6 + 3 * ne:] = k.p_joint_regularization * (jp(t) - q[7:]) - k.d_joint_regularization * v[6:]
            H = (J.T * w).dot(J) + 1e-6 * np.eye(nv)
            if not (np.isfinite(H).all() and np.isfinite(want).all()): return False
            a = np.linalg.solve(H, J.T.dot(w * (want - drift)))
            v = v + a * h
            q = pin.integrate(m, q, v * h)
            if not (np.isfinite(v).all() and np.abs(v).max() < WILD):
                s.count("probe.second_order_diverges")
                s.event("the reference diverges in step %d", it)
                return False
        if Q is None: continue
        near(s, ("second-order", "the posture of step %d" % it), Q[it], q, 1e-5, hist)
        near(s, ("second-order", "the velocities of step %d" % it), V[it], v, 1e-3, hist)
        q, v = Q[it].copy(), V[it].copy()
    return True


def scenario(s, prop):
    s.watch([mp, mko, ik1, ik2, mj, qp, rw])
    s.limit = 20_000_000
    CUR.s, CUR.calls, CUR.fail_at, CUR.failed = s, 0, 0, False
    PLANNER.clear()
    sp = spec(s)
    second = s.flag(1, 4)
    p = problem(s, sp, second)
    hist = []
    o = mko.MomentumKinematicsOptimizer()
    need, first, planned = True, True, 0
    for op in range(1 + s.choose(4)):
        if op:
            k = s.choose(4)
            if k == 1:
                p = problem(s, spec(s) if s.flag(1, 2) else p.spec, second if s.flag(1, 2) else not second)
                second = p.second
                need, first = True, True
                hist.append("re-initialise")
            elif k == 2:
                sequence(s, p, LEGS[p.spec[0]])
                hist.append("new plan")
            elif k == 3 and not need:
                q = problem(s, p.spec, second)
                p.vj, p.vb, p.z, p.set, p.reg_o, p.reg_q = [[v[0] / q.dt * p.dt] + v[1:] for v in q.vj if v[0] / q.dt < p.N], [[v[0] / q.dt * p.dt] + v[1:] for v in q.vb if v[0] / q.dt < p.N], q.z, p.set, q.reg_o, q.reg_q
                user(o, p)
                hist.append("new settings")
        fault = s.choose(3) if s.flag(1, 2) else 0
        CUR.calls, CUR.fail_at, CUR.failed = 0, 0, False
        s.async_at, s.async_fired = 0, False
        short = fault == 1 and s.flag(1, 12)
        keep = p.defaults
        if short: p.defaults = p.defaults[:-1]; need = True
        elif fault == 1: CUR.fail_at = 1 + s.choose(s.pick(16, 120, 1200))
        elif fault == 2: s.async_at, s.async_exc = s.ticks + 1 + s.choose(1 << s.pick(6, 10, 14)), s.pick(KeyboardInterrupt, MemoryError)()
        exc = None
        try:
            if need: prepare(o, p)
            need = False
            run(o, p)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        s.async_at, CUR.fail_at = 0, 0
        met = CUR.failed or s.async_fired or short
        if s.async_fired: s.fault("interrupt" if isinstance(s.async_exc, KeyboardInterrupt) else "no_memory")
        if short: s.fault("wrong_number_of_joints"); p.defaults = keep
        hist.append("%s order%s -> %s" % ("second" if second else "first", " (%s)" % (CUR.what if CUR.failed else "interrupted" if s.async_fired else "wrong joints") if met else "", type(exc).__name__ if exc is not None else "motion"))
        h = "; ".join(hist)
        s.event("optimise: %s", hist[-1])
        s.count("probe.%s" % ("error_reported" if exc is not None else "planned"))
        if isinstance(exc, (ValueError, np.linalg.LinAlgError)) and not met and diverges(s, o, p):
            s.count("probe.second_order_gives_up")
            need = first = True
            continue
        if exc is not None and not met: s.violate("unexpected-error", "an undisturbed optimisation fails: %s: %s (%s)", type(exc).__name__, exc, h)
        if exc is None and met: s.violate("error-hidden", "a failure (%s) did not reach the caller (%s)", CUR.what if CUR.failed else "interruption" if s.async_fired else "wrong number of joints", h)
        if met:
            s.nontriv = True
            if s.async_fired or short or not hasattr(o, "inv_kin"): need = True     # an interrupted object is initialised again
            if need: first = True
            elif CUR.failed and s.flag(1, 3): need = first = True
            if CUR.calls and not planned: need = True if not o.__dict__.get("motion_eff") else need
            continue
        judge(s, o, p, h, first)
        planned += 1
        if planned > 1: s.nontriv = True
        if s.flag(1, 2):
            f = optimiser(p)
            run(f, p)
            PLANNER.pop(id(f), None)
            for name in ("q_kin", "dq_kin", "com_kin", "lmom_kin", "amom_kin"):
                near(s, ("depends-on-history", "%s compared with new objects" % name), getattr(o, name), getattr(f, name), 1e-9, h, True)
            for name in o.motion_eff: near(s, ("depends-on-history", "%s compared with new objects" % name), o.motion_eff[name], f.motion_eff[name], 1e-9, h, True)
            s.count("probe.compared")
        first = False
    s.state(p.spec, p.N, p.dt, p.on.tobytes(), tuple(hist))
    s.sample("%s, %d steps of %g: %s" % (p.spec[0], p.N, p.dt, "; ".join(hist)))


if __name__ == "__main__":
    sys.exit(psim.main(sys.argv, scenario))
