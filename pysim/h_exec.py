"""C16: executing a motion on a simulated robot with faulty sensors, simulator errors and interrupts."""
import sys, types
import psim
import numpy as np
import stubs
from stubs import W, Col, flat, NJ, NQ, NV

stubs.install()
import momentumopt.motion_execution as me
import momentumopt.robots.simulator as rs
import momentumopt.robots.blmc_robot_wrapper as rw

LEGS = ("FL", "FR", "HL", "HR")
LIMIT = 2.0
SETTLE, MOTION = 2000, 4000


class error(Exception):
    """pybullet.error"""


class Bullet:
    """the physics simulator: joints of unit inertia, a base that floats about, contacts now and then"""
    VELOCITY_CONTROL, TORQUE_CONTROL, POSITION_CONTROL = 0, 1, 2
    DIRECT, GUI = 2, 1
    URDF_USE_INERTIA_FROM_FILE = 2
    error = error

    def __init__(self, sim, names, joint_order):
        self.s = sim
        # joints of the simulator: the controlled ones and the fixed feet, in the order of the file
        self.joints = joint_order
        self.fixed = {i for i, n in enumerate(self.joints) if n.endswith("ANKLE")}
        self.pos, self.vel, self.tau = [0.0] * len(self.joints), [0.0] * len(self.joints), [0.0] * len(self.joints)
        self.base, self.orn, self.bv = [0.0, 0.0, 0.3], [0.0, 0.0, 0.0, 1.0], [0.0] * 6
        self.steps = self.commands = 0
        self.command = None          # since the last step
        self.sent, self.seen = [], []  # everything sent; what the sensors reported in each cycle
        self.reading = None
        self.faults = []             # (kind, first step, last step, which)
        self.calls = self.fail_at = 0
        self.active_fault = False
        self.settle, self.extra = SETTLE, 0
        self.stopped = False         # an interrupt or error ended the motion

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return stubs.unknown("pybullet")(a)

    def call(self):
        self.calls += 1
        if self.calls == self.fail_at:
            self.s.fault(self.fail_kind)
            self.s.event("the simulator %s at call %d, step %d", self.fail_kind, self.calls, self.steps)
            if self.fail_kind == "interrupt" and self.steps < self.settle:
                self.settle, self.extra = self.steps, 1       # ends the settling early, the motion follows
            else:
                self.stopped = True
            raise KeyboardInterrupt() if self.fail_kind == "interrupt" else error("lost connection to the physics server")

    # set-up
    def connect(self, mode): return 0
    def loadURDF(self, *a, **k): return 1
    def getQuaternionFromEuler(self, e): return (0.0, 0.0, 0.0, 1.0)
    def getNumJoints(self, i): return len(self.joints)
    def changeDynamics(self, *a, **k): pass
    def setGravity(self, *a): pass
    def setPhysicsEngineParameter(self, *a, **k): pass
    def getPhysicsEngineParameters(self): return {}
    def setTimeStep(self, *a): pass
    def getJointInfo(self, i, j): return (j, self.joints[j].encode())

    # state
    def corrupt(self, kind_prefix, v, which):
        for kind, a, b, w in self.faults:
            if kind.startswith(kind_prefix) and a <= self.steps < b and (w == which or w < 0):
                k = kind[len(kind_prefix):]
                if not self.active_fault:
                    self.active_fault = True
                self.s.fault("sensor_" + k)
                if k == "nan": v = float("nan")
                elif k == "inf": v = float("inf")
                elif k == "jump": v = v + 1e3
                elif k == "huge": v = 1e300
                elif k == "frozen": v = 0.125
        return v

    def getBasePositionAndOrientation(self, i):
        self.call()
        return tuple(self.corrupt("base_", x, k) for k, x in enumerate(self.base)), tuple(self.corrupt("base_", x, 3 + k) for k, x in enumerate(self.orn))

    def getBaseVelocity(self, i):
        self.call()
        return tuple(self.corrupt("bvel_", x, k) for k, x in enumerate(self.bv[:3])), tuple(self.bv[3:])

    def getMatrixFromQuaternion(self, q):
        q = flat(q)
        n = float(q @ q)
        if not np.isfinite(n) or n == 0:
            return (float("nan"),) * 9
        x, y, z, w = q / n ** 0.5
        return (1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y))

    def getJointStates(self, i, ids):
        self.call()
        self.active_fault = False
        o = [(self.corrupt("pos_", self.pos[j], k), self.corrupt("vel_", self.vel[j], k), (0,) * 6, 0.0) for k, j in enumerate(ids)]
        self.reading = {self.joints[j]: (o[k][0], o[k][1]) for k, j in enumerate(ids)}
        return o

    def getJointState(self, i, j):
        return self.getJointStates(i, [j])[0]

    def getContactPoints(self, *a, **k):
        self.call()
        o = []
        for e, leg in enumerate(LEGS):
            if (self.steps // 37 + e) % 3:
                f = 5.0 + e if (self.steps // 11) % 4 else 0.0
                o.append((0, 0, 1, -1, self.joints.index(leg + "_ANKLE"), (0,) * 3, (0,) * 3, (0.0, 0.0, -1.0), 0.0, f, 0.1, (1.0, 0.0, 0.0), 0.2, (0.0, 1.0, 0.0)))
        if self.steps % 13 == 5:
            o.append((0, 0, 1, -1, 0, (0,) * 3, (0,) * 3, (0.0, 0.0, -1.0), 0.0, 1.0, 0.0, (1.0, 0.0, 0.0), 0.0, (0.0, 1.0, 0.0)))
        for kind, a, b, w in self.faults:
            if kind == "contacts_lost" and a <= self.steps < b: self.s.fault("contacts_lost"); o = []
        return tuple(o)

    # resets
    def resetBasePositionAndOrientation(self, i, pos, orn): self.base, self.orn = [float(x) for x in pos], [float(x) for x in orn]
    def resetBaseVelocity(self, i, v, w): self.bv = [float(x) for x in list(v) + list(w)]
    def resetJointState(self, i, j, q, dq=0.0): self.pos[j], self.vel[j] = float(np.asarray(q).reshape(-1)[0]), float(np.asarray(dq).reshape(-1)[0])

    # commands
    def setJointMotorControlArray(self, i, ids, mode, forces=None, positionGains=None, velocityGains=None, **k):
        if mode != self.TORQUE_CONTROL:
            return
        f = flat(forces)
        if len(f) != len(ids):
            raise error("number of forces should match number of joints")
        self.torques({self.joints[j]: float(x) for j, x in zip(ids, f)})

    def setJointMotorControl2(self, i, j, controlMode=None, force=0.0, **k):
        if controlMode == self.TORQUE_CONTROL:
            self.torques({self.joints[j]: float(np.asarray(force).reshape(-1)[0])})

    def torques(self, d):
        s = self.s
        if s.async_fired and not self.stopped and not self.extra:
            if self.steps <= self.settle: self.settle, self.extra = self.steps, 1
            else: self.stopped = True
        for n, x in d.items():
            if not np.isfinite(x): s.violate("torque-not-finite", "the torque of %s in cycle %d is %r (sensors reported %r)", n, self.steps, x, self.reading and self.reading.get(n))
            if abs(x) > LIMIT * (1 + 1e-12): s.violate("torque-limit", "the torque of %s in cycle %d is %.9g, the limit is %g", n, self.steps, x, LIMIT)
        if self.stopped: s.violate("command-after-stop", "torques were sent in cycle %d after the motion had been interrupted or failed", self.steps)
        self.command = dict(self.command or {}, **d)
        self.commands += 1
        for n, x in d.items(): self.tau[self.joints.index(n)] = x

    def stepSimulation(self):
        self.call()
        if self.command is None or len(self.command) != NJ: self.s.violate("no-command", "the simulation was stepped in cycle %d with torques for %d of %d joints", self.steps, len(self.command or {}), NJ)
        self.s.mix(np.array([self.command[n] for n in sorted(self.command)]).tobytes())
        W.check(self)
        self.sent.append(self.command)
        for j in range(len(self.joints)):
            if j in self.fixed: continue
            self.vel[j] = 0.98 * self.vel[j] + 1e-3 * 20 * self.tau[j]
            self.pos[j] += 1e-3 * self.vel[j]
        k = self.steps
        self.base = [0.01 * np.sin(k / 300.0), 0.02 * np.cos(k / 200.0), 0.3 + 0.01 * np.sin(k / 100.0)]
        a = 0.1 * np.sin(k / 250.0); self.orn = [float(np.sin(a)), 0.0, 0.0, float(np.cos(a))]
        self.bv = [0.01 * np.cos(k / 300.0), 0.0, 0.02, 0.0, 0.1 * np.cos(k / 250.0), 0.0]
        self.command = None
        self.steps += 1
        self.s.sim_us += 1e3


class Interp:
    """piecewise linear, held at both ends"""
    def __init__(self, tv, vals):
        self.tv, self.v = tv, vals

    def __call__(self, t):
        tv, v = self.tv, self.v
        if t <= tv[0]: return v[0]
        if t >= tv[-1]: return v[-1]
        i = int(np.searchsorted(tv, t, side="right")) - 1
        return v[i] + (v[i + 1] - v[i]) * ((t - tv[i]) / (tv[i + 1] - tv[i]))


def scenario(s, prop):
    s.watch([me, rs, rw])
    s.limit = 8_000_000
    order = s.pick(0, 1, 2, 3)
    legs = [(0, 1, 2, 3), (1, 0, 3, 2), (2, 3, 0, 1), (1, 2, 0, 3)][order]
    W.order = [2 * l + k for l in legs for k in range(2)]
    names = ["HL_HFE", "HL_KFE", "HR_HFE", "HR_KFE", "FL_HFE", "FL_KFE", "FR_HFE", "FR_KFE"]
    jl = [l + "_" + j for l in LEGS for j in ("HFE", "KFE", "ANKLE")]
    k = s.choose(4)
    jl = jl[3 * k:] + jl[:3 * k]
    b = W.bullet = Bullet(s, names, jl)
    n = 1 + s.choose(24)
    dt = s.pick(0.1, 0.05, 0.2, 0.5, 0.013, 0.0004)
    uneven = s.flag(1, 4)
    rng = np.random.RandomState(s.choose(1 << 16))
    steps = dt * (rng.uniform(0.5, 1.5, n) if uneven else np.ones(n))
    tv = np.zeros(n)
    for i in range(n - 1): tv[i + 1] = tv[i] + steps[i]
    amp = s.pick(0.3, 3.0, 30.0)
    kin = [types.SimpleNamespace(robot_posture=types.SimpleNamespace(joint_positions=rng.uniform(-amp, amp, NJ)), robot_velocity=types.SimpleNamespace(joint_velocities=rng.uniform(-amp, amp, NJ)),
                                 com=rng.uniform(-1, 1, 3), lmom=rng.uniform(-1, 1, 3), amom=rng.uniform(-.1, .1, 3)) for _ in range(n)]
    frc = rng.uniform(0, 1, (n, 4, 3))
    dyn = [types.SimpleNamespace(effForce=(lambda e, i=i: frc[i][e].copy()), effNum=lambda: 4) for i in range(n)]
    weight = s.pick(20.0, 200.0)
    feedback = None
    if s.flag(1, 2):
        K = rng.uniform(-1, 1, (n, 12, 9)) * s.pick(1.0, 100.0)
        feedback = types.SimpleNamespace(forceGain=lambda i: K[i].copy())
    setting = types.SimpleNamespace(get=lambda p: weight if p == "PlannerDoubleParam_RobotWeight" else stubs.unknown("PlannerSetting")("get")())
    for _ in range(s.choose(3)):
        kind = s.pick("pos_", "vel_", "base_", "bvel_") + s.pick("nan", "jump", "inf", "frozen", "huge") if not s.flag(1, 8) else "contacts_lost"
        a = s.choose(SETTLE + MOTION)
        b.faults.append((kind, a, a + s.pick(1, 10, 500, 6000), s.choose(9) - 1))
    if s.flag(1, 4):
        b.fail_at, b.fail_kind = 10 + s.choose(30000), s.pick("interrupt", "error")
    if s.flag(1, 4):
        s.async_at, s.async_exc = 200 + s.choose(1 << 21), KeyboardInterrupt()      # at any line of the repository's code
    tune = s.flag(1, 6)
    plotting = s.flag(1, 2)
    again = 0
    answers = []
    if tune:
        # one more execution after the gains were changed, then an interrupt ends the session
        for _ in range(s.choose(3)): answers += [s.pick(str(s.choose(8)), "x", "9", "-1")] + [s.pick("", "12.5", "abc", "nan"), s.pick("", "0.7")]
        answers.append("stop")
        again = 1
    it = iter(answers)

    def ask(*a):
        try: return next(it)
        except StopIteration:
            b.stopped = True
            s.fault("interrupt_at_prompt"); raise KeyboardInterrupt()
    me.input = ask

    ip = {k: Interp(tv, [getattr(x.robot_posture if k == "joint_positions" else x.robot_velocity if k == "joint_velocities" else x, k) for x in kin]) for k in ("joint_positions", "joint_velocities", "com", "lmom", "amom")}
    model = stubs.Model(W.order)
    gains = {"P": 10.0 * np.ones(8), "D": 0.3 * np.ones(8)}
    st = types.SimpleNamespace(q0=None, lawchecks=0, first=0, prev=None, skip=False)
    ex = {}

    def measured(b):
        q, dq = np.zeros(NQ), np.zeros(NV)
        for nme, (x, v) in b.reading.items():
            i = model.names.index(nme)
            q[5 + i], dq[4 + i] = x, v
        return q, dq

    for i, nme in enumerate(names):
        g = model.names[model.getJointId(nme)]
        if "HFE" in g or "F" == g[0]: gains["D"][i] = 0.5

    def check(b):
        """the command of this cycle against the control law"""
        q, dq = measured(b)
        pos = {n: model.names.index(n) - 2 for n in names}
        j, v = q[7:], dq[6:]
        k = b.steps
        if k < b.settle:
            law = gains["P"] * (st.q0 - j) - gains["D"] * v
        else:
            if st.skip: return
            c = (k - b.settle) % MOTION
            t = c / 1e3
            law = gains["P"] * (ip["joint_positions"](t) - j) + gains["D"] * (ip["joint_velocities"](t) - v)
            q[:3], q[3:7] = b.base, b.orn
            i = min(int(np.searchsorted(tv, t - 1e-9)), n - 1)
            if abs(tv[i] - t) < 1e-9 or (i > 0 and abs(tv[i - 1] - t) < 1e-9): st.prev = q; return   # between two steps: either force
            f = frc[i] * weight
            f = f.reshape(-1)
            if feedback is not None:
                if st.prev is None: d = np.zeros(NV)
                else: d = flat(stubs.difference(None, st.prev, q)) / (0.001 if c else 1e300)
                mo = stubs.momentum(q, d)
                cur = np.hstack((stubs.com(q), mo))
                des = np.hstack((ip["com"](t), ip["lmom"](t), ip["amom"](t)))
                f = f + Interp(tv, K)(t) @ (cur - des)
            J = np.vstack([stubs.jacobian(q, stubs.FRAMES.index(l + "_ANKLE"))[:3] for l in ("FR", "FL", "HR", "HL")])
            law = law + (J.T @ f)[6:]
            st.prev = q
        if any(a <= k + 1 and k - 1 <= z for _, a, z, _ in b.faults): return      # the limits hold, the law is not judged on false readings
        if not np.all(np.isfinite(law)): return
        want = np.clip(law, -LIMIT, LIMIT)
        st.lawchecks += 1
        for nme in names:
            w, g = want[pos[nme]], b.command[nme]
            if abs(w - g) > 1e-6 * (1 + abs(law[pos[nme]])):
                s.violate("control-law" if k >= b.settle else "settling-law", "the torque of %s in cycle %d (time %.3f of the motion, plan of %.3f s with %d states) is %.9g, the control law gives %.9g", nme, k, (k - b.settle) / 1e3, tv[-1], n, g, w)
    W.check = check

    s.event("plan of %d states, dt %g%s, %.3f s, amplitude %g, weight %g, feedback %d, model order %s, joints %d, faults %r, fail %r, tune %r, plot %d", n, dt, " uneven" if uneven else "", tv[-1], amp, weight, feedback is not None, legs, k, b.faults, (b.fail_at, b.fail_at and b.fail_kind), answers, plotting)
    out = "?"
    recorded = []
    try:
        x = me.MotionExecutor(types.SimpleNamespace(kinematics_states=kin), types.SimpleNamespace(dynamics_states=dyn), feedback, setting, tv)
        st.q0 = flat(kin[0].robot_posture.joint_positions)
        x.plot_execution = lambda t_vec, loop, des, act, sw: recorded.append((loop, np.array(t_vec), {k: np.array(v) for k, v in des.items()}, {k: np.array(v) for k, v in act.items()}))
        x.plot_torques = lambda t_vec, loop, tau, sw: recorded.append((loop, np.array(tau)))
        x.plot_forces = lambda t_vec, loop, f, sw: recorded.append((loop, np.array(f)))
        if tune: st.skip = False
        orig = x.tunePD

        def tuned(P, D):
            st.skip = True       # gains of the operator's choice from here on
            return orig(P, D)
        x.tunePD = tuned
        x.execute_motion(plotting=plotting, tune_online=tune)
        out = "done"
    except error as e:
        out = "error"
    except KeyboardInterrupt:
        out = "interrupt"
    except Exception as e:
        import traceback
        s.violate("execution-failed", "executing a motion of %.3f s (%d states) failed in cycle %d: %s: %s", tv[-1], n, b.steps, type(e).__name__, "".join(traceback.format_exception(e))[-600:])
    s.event("%s after %d cycles, %d commands, law checked %d times", out, b.steps, b.commands, st.lawchecks)
    s.nontriv = b.steps > b.settle
    s.count("probe.law_checked", st.lawchecks)
    s.count("probe.cycles", b.steps)
    s.count("probe.end." + out)
    s.state(n, dt, out, b.steps // 500, len(b.faults))
    s.sample("%d states over %.2f s, %s, faults %s, %s after %d cycles" % (n, tv[-1], "feedback" if feedback is not None else "no feedback", [f[0] for f in b.faults], out, b.steps))
    if s.async_fired: s.fault("interrupt_at_line")
    failed = s.async_fired or b.fail_at and b.calls >= b.fail_at
    if failed and not s.async_fired and b.fail_kind == "error" and out != "error": s.violate("error-swallowed", "an error of the robot interface in cycle %d did not reach the caller (%s)", b.steps, out)
    if not failed and out == "done" and not tune and b.steps != b.settle + MOTION: s.violate("cycles", "the execution ended after %d cycles, expected %d", b.steps, b.settle + MOTION)
    if not len(b.sent) <= b.commands <= len(b.sent) + (1 if b.command else 0) + b.extra: s.violate("commands", "%d commands were sent in %d cycles", b.commands, len(b.sent))
    if plotting and out == "done" and not failed and not tune:
        if len(recorded) != 3: s.violate("recording", "%d of 3 plots were drawn", len(recorded))
        (loop, t_vec, des, act), (l2, tau), (l3, frcs) = recorded
        if not (loop == l2 == l3 == MOTION): s.violate("recording", "%d cycles were recorded, expected %d", loop, MOTION)
        sent = np.array([[c[model.names[2 + i]] for i in range(NJ)] for c in b.sent[b.settle:]])
        if tau[:MOTION].shape != sent.shape or not np.array_equal(tau[:MOTION], sent): s.violate("recording", "the recorded torques are not those sent")
        if np.max(np.abs(t_vec[:MOTION] - np.arange(MOTION) / 1e3)) > 1e-9: s.violate("recording", "the recorded times are not those of the cycles")
        want = np.array([ip["joint_positions"](c / 1e3) for c in range(MOTION)])
        if np.max(np.abs(des["joint_configs"] - want)) > 1e-9 * (1 + amp): s.violate("recording", "the recorded desired positions are not those of the plan")
        s.count("probe.recording_checked")


if __name__ == "__main__":
    sys.exit(psim.main(sys.argv, scenario))
