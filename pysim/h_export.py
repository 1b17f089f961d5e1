"""C17: planning a motion and exporting it to files on a faulty disk."""
import builtins, errno, io, os, shutil, sys, tempfile, types
import psim

_open, _ioopen = builtins.open, io.open


class Disk:
    """files below the scratch directory; writes can fail from a chosen byte on"""
    root = None
    sim = None

    def reset(self):
        self.sim = None
        self.kind, self.left, self.file_no = None, 0, 0
        self.short = False
        self.shorts = self.last = 0
        self.opened = 0
        self.hit = False
        self.live = []

    def err(self, e, what):
        self.hit = True
        self.sim.fault(what)
        self.sim.event("disk: %s", what)
        raise OSError(e, os.strerror(e))


DISK = Disk()
DISK.reset()


class Raw(io.FileIO):
    def write(self, b):
        d = DISK
        b = memoryview(b).cast("B")
        if d.sim is None:
            return super().write(b)
        n = len(b)
        if d.kind in ("full", "io") and self.no >= d.file_no:
            if d.left <= 0:
                d.err(errno.ENOSPC if d.kind == "full" else errno.EIO, "disk_full" if d.kind == "full" else "write_error")
            if n > d.left:
                n = d.left
            d.left -= n
        elif d.short and n > 1:
            d.shorts += 1
            if d.shorts <= 40:  # the rest follows a fixed pattern, to keep replay files small
                d.last = 1 + d.sim.choose(n)
                d.sim.fault("short_write")
            n = max(1, min(n, d.last + d.shorts % 7))
        return super().write(b[:n])

    def close(self):
        was = self.closed
        super().close()
        if not was:
            if self in DISK.live: DISK.live.remove(self)
            if DISK.sim is not None and DISK.kind == "close" and self.no == DISK.file_no:
                DISK.kind = None
                DISK.err(errno.EIO, "close_error")


def simopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if d.sim is None or isinstance(file, int) or not any(c in mode for c in "wxa+") or not os.path.realpath(file).startswith(d.root):
        return _ioopen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    d.opened += 1
    no = d.opened
    if d.kind == "open" and no == d.file_no:
        d.err(d.sim.pick(errno.EACCES, errno.EMFILE, errno.ENOSPC), "open_error")
    raw = Raw(file, mode.replace("b", "").replace("t", ""))
    raw.no = no
    d.live.append(raw)
    if buffering == 0:
        return raw
    buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw, 512 if buffering in (-1, 1) else buffering)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


builtins.open = io.open = simopen
import numpy as np
import stubs
from stubs import W

stubs.install()
import momentumopt.motion_planner as mp
import momentumopt.kinoptpy.create_data_file as cdf
import momentumopt.motion_execution as me
import momentumopt.kino_dyn_planner as kdp

NJ = 8
EFF = ("FR", "FL", "HR", "HL")


class Fail(Exception):
    """an error of the planner"""


class Plan:
    """what the optimisers come up with in one round"""
    def __init__(self, rng, n, dts, amp):
        u = lambda *sh: rng.uniform(-amp, amp, sh)
        self.n = n
        self.q, self.dq, self.ddq = u(n, NJ + 7), u(n, NJ + 6), u(n, NJ + 6)
        self.kcom, self.klmom, self.kamom = u(n, 3), u(n, 3), u(n, 3)
        self.f = np.where(rng.uniform(size=(n, 4, 1)) < 0.3, 0.0, np.abs(u(n, 4, 3)))
        self.pos, self.dcom = u(n, 4, 3), u(n, 3)
        self.me = {k: u(n, 12) for k in ("trajectory", "velocity", "trajectory_wrt_base", "velocity_wrt_base")}
        self.K = u(n, 12, 9)
        self.dts = dts


class Seq(list):
    pass


def states(sim, p, kind, faulty):
    """the list of states the bindings give out: copies, and possibly errors"""
    ns = types.SimpleNamespace

    class Kin:
        def __init__(self, i): self.i = i
        com = property(lambda s: p.kcom[s.i].copy())
        lmom = property(lambda s: p.klmom[s.i].copy())
        amom = property(lambda s: p.kamom[s.i].copy())
        robot_posture = property(lambda s: ns(joint_positions=p.q[s.i, 7:].copy(), generalized_joint_positions=p.q[s.i].copy(), base_position=p.q[s.i, :3].copy(), base_orientation=p.q[s.i, 3:7].copy()))
        robot_velocity = property(lambda s: ns(joint_velocities=p.dq[s.i, 6:].copy(), generalized_joint_velocities=p.dq[s.i].copy()))
        robot_acceleration = property(lambda s: ns(joint_accelerations=p.ddq[s.i, 6:].copy(), generalized_joint_accelerations=p.ddq[s.i].copy()))

    class Dyn:
        def __init__(self, i): self.i = i
        com = property(lambda s: p.dcom[s.i].copy())
        lmom = property(lambda s: p.klmom[s.i].copy())
        amom = property(lambda s: p.kamom[s.i].copy())
        dt = property(lambda s: float(p.dts[s.i]))
        def effNum(self): return 4
        def effForce(self, e): faulty(); return p.f[self.i, e].copy()
        def effPosition(self, e): return p.pos[self.i, e].copy()
        def effActivation(self, e): return bool(np.any(p.f[self.i, e]))
    c = Kin if kind == "kin" else Dyn
    return [c(i) for i in range(p.n)]


def interp(tv, v, ts):
    v = np.asarray(v, float).reshape(len(tv), -1)
    return np.stack([np.interp(ts, tv, v[:, k]) for k in range(v.shape[1])], axis=1) if len(tv) else v


def swap(a, perm):
    return a.reshape(len(a), 4, 3)[:, perm, :].reshape(len(a), 12)


def wanted(p, tv, weight, which, lqr):
    """contents of every file: (has a time stamp, values), independently of the exporting code"""
    T = tv[-1]
    if which == "files":
        ts = np.arange(int(round(T * 1000))) / 1e3
    else:
        ts = np.arange((int(T) + 1 if T - int(T) > 0.001 else int(T)) * 1000) / 1e3
    I = lambda v: interp(tv, v, ts)
    o = {}
    if which == "files":
        o = {"quadruped_positions.dat": I(p.q[:, 7:]), "quadruped_velocities.dat": I(p.dq[:, 6:]), "quadruped_forces.dat": weight * I(p.f), "quadruped_generalized_positions.dat": I(p.q),
             "quadruped_generalized_velocities.dat": I(p.dq), "quadruped_generalized_acceleration.dat": I(p.ddq), "quadruped_com_old.dat": I(p.kcom), "quadruped_lmom_old.dat": I(p.klmom), "quadruped_amom_old.dat": I(p.kamom)}
        o = {k: (True, v, ts) for k, v in o.items()}
        if lqr:
            t2 = np.arange((int(T) + 1 if T - int(T) > 0.001 else int(T)) * 1000) / 1e3
            o["quadruped_positions_abs_with_horizon_part.dat"] = (True, swap(interp(tv, p.me["trajectory"], t2), [3, 2, 1, 0]), t2)
        return o
    P = [1, 0, 3, 2]
    six = lambda a: np.concatenate([np.concatenate([a.reshape(len(a), 4, 3)[:, e], np.zeros((len(a), 3))], axis=1) for e in range(4)], axis=1)
    f = swap(I(p.f), P)
    fw = p.f * weight
    mom = np.stack([sum(np.cross(p.pos[i, e] - p.dcom[i], fw[i, e]) for e in range(4)) for i in range(p.n)])
    o = {"quadruped_positions.dat": (1, I(p.q[:, 7:])), "quadruped_velocities.dat": (1, I(p.dq[:, 6:])), "quadruped_positions_eff.dat": (0, six(swap(I(p.me["trajectory_wrt_base"]), P))), "quadruped_velocities_eff.dat": (0, six(swap(I(p.me["velocity_wrt_base"]), P))),
         "quadruped_com.dat": (1, I(p.kcom)), "quadruped_com_vel.dat": (1, I(p.klmom) / (weight / 9.81)), "quadruped_centroidal_forces.dat": (1, I(fw.sum(axis=1))), "quadruped_centroidal_moments.dat": (1, I(mom)),
         "quadruped_quaternion.dat": (1, I(p.q[:, 3:7])), "quadruped_base_ang_velocities.dat": (1, I(p.dq[:, 3:6])), "quadruped_positions_abs.dat": (1, swap(I(p.me["trajectory"]), P)), "quadruped_velocities_abs.dat": (1, swap(I(p.me["velocity"]), P)),
         "quadruped_contact_activation.dat": (1, (f.reshape(len(f), 4, 3)[:, :, 2] > 0).astype(float)), "quadruped_gain_ratio.dat": (1, None)}
    return {k: (bool(a), v, ts) for k, (a, v) in o.items()}


def scenario(s, prop):
    s.watch([mp, cdf, me, kdp])
    s.limit = 20_000_000
    n = 1 + s.choose(s.pick(8, 16))
    dt = s.pick(0.05, 0.1, 0.01, 0.025, 0.2) if not s.flag(1, 12) else 0.3
    uneven = s.flag(1, 4)
    rng = np.random.RandomState(s.choose(1 << 16))
    amp = s.pick(1.0, 1e-4, 50.0)
    weight = s.pick(20.0, 9.81, 150.0)
    iters = s.choose(3)
    lqr = s.flag(1, 3)
    rounds = []
    size = types.SimpleNamespace(n=n)

    def newplan():
        k = size.n
        p = Plan(rng, k, dt * (rng.uniform(0.5, 1.5, k) if uneven else np.ones(k)), amp)
        rounds.append(p)
        return p
    cur = types.SimpleNamespace(p=None, log=[], calls=0, fail_at=0, failed=False)

    def faulty():
        cur.calls += 1
        if cur.calls == cur.fail_at:
            cur.failed = True
            s.fault("planner_error")
            raise Fail("the bindings failed")

    class Setting:
        def initialize(self, *a): cur.log.append("setting")
        def get(self, k):
            if k == "PlannerDoubleParam_RobotWeight": return weight
            if k == "PlannerIntParam_KinDynIterations": return iters
            if k == "PlannerStringParam_ConfigFile": return "cfg"
            return 0

    class Any:
        def __getattr__(self, k):
            if k.startswith("__"): raise AttributeError(k)
            return lambda *a, **kw: cur.log.append(k)

    class DynOpt:
        def initialize(self, *a): cur.log.append("dyn-initialize")
        def optimize(self, ini, cnt, kin, track=False):
            faulty()
            cur.log.append(("dyn", kin.round, bool(track)))
            cur.p = newplan()
        def dynamicsSequence(self):
            p = cur.p
            return types.SimpleNamespace(dynamics_states=states(s, p, "dyn", faulty) if p else [], round=len(rounds))

    class KinOpt:
        def __init__(self): self.kinematics_sequence = types.SimpleNamespace(kinematics_states=[], round=0); self.motion_eff = None
        def initialize(self, setting, **k): cur.log.append("kin-initialize")
        def optimize(self, ini, cnt, dynseq, plotting=False):
            faulty()
            cur.log.append(("kin", dynseq.round))
            self.kin = newplan()
            self.kinematics_sequence = types.SimpleNamespace(kinematics_states=states(s, self.kin, "kin", faulty), round=len(rounds))
            self.motion_eff = self.kin.me

    class Feedback:
        def initialize(self, *a): cur.log.append("lqr-initialize")
        def optimize(self, ini, seq): faulty(); cur.log.append(("lqr", seq.round)); self.p = cur.p
        def forceGain(self, i): return self.p.K[i].copy()
    W.make = lambda name, *a: {"PlannerSetting": Setting, "DynamicsOptimizer": DynOpt, "DynamicsFeedback": Feedback}.get(name, Any)()
    # ---- plan
    whole = s.flag(1, 4)  # through the planner program
    if whole: kdp.MomentumKinematicsOptimizer = KinOpt; KinOpt.inv_kin, KinOpt.snd_order_inv_kin, KinOpt.endeff_traj_generator = (types.SimpleNamespace() for _ in range(3))
    planner = kdp.build_optimization("cfg", object, lqr) if whole else mp.MotionPlanner("cfg", KinOpt, object, lqr)

    def make():
        """plans a motion (maybe after a failed attempt); what the files must describe"""
        cur.calls, cur.fail_at, cur.failed = 0, 1 + s.choose(2 + 2 * iters) if s.flag(1, 5) else 0, False
        exc = None
        first = len(cur.log)
        run = lambda: kdp.optimize_motion(planner) if whole else planner.optimize_motion(plot_com_motion=False)
        res = None
        try:
            res = run()
        except Fail as e:
            exc = e
        except Exception as e:
            s.violate("planning-failed", "optimize_motion failed: %s: %s", type(e).__name__, e)
        cur.fail_at = 0
        if cur.failed:
            if exc is None: s.violate("error-swallowed", "an error of an optimiser did not reach the caller of optimize_motion")
            s.count("probe.planning_error")
            cur.failed = False
            first = len(cur.log)
            res = run()
        calls = [x for x in cur.log[first:] if isinstance(x, tuple)]
        # kinematics see the latest dynamics, dynamics the latest kinematics, and track them after the first round
        last = len(rounds) - 2 * iters
        want = [("dyn", False)]
        for i in range(iters):
            want += [("kin", last + 2 * i), ("dyn", last + 2 * i + 1, True)]
        if lqr: want.append(("lqr", len(rounds)))
        got = [(c[0], c[2]) if i == 0 and c[0] == "dyn" else c for i, c in enumerate(calls)]
        if got != want: s.violate("plan-order", "with %d iterations the optimisers were called as %r, expected %r", iters, got, want)
        if iters == 0:
            # the user runs the kinematics
            planner.kin_optimizer.optimize(None, None, planner.dyn_optimizer.dynamicsSequence())
        # the exported plan: dynamics of the last round, kinematics of the last round
        kin, dyn = planner.kin_optimizer.kin, cur.p
        tv = np.concatenate([[0.0], np.cumsum(dyn.dts[:-1])])
        got = np.asarray(planner.time_vector())
        if got.shape != tv.shape or np.max(np.abs(got - tv)) > 1e-9: s.violate("time-vector", "the time vector is %s, expected %s", got, tv)
        # what planning returned is that plan, too
        if len(res) != 6: s.violate("returned-plan", "planning returned %d values", len(res))
        rk, rm, rd, rf, rs, rt = res
        rt = np.asarray(rt)
        if rt.shape != tv.shape or np.max(np.abs(rt - tv)) > 1e-9: s.violate("returned-plan", "the returned time vector is %s, expected %s", rt, tv)
        same = lambda a, b: len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
        if not same([x.effForce(e) for x in rd.dynamics_states for e in range(4)], [f for r in dyn.f for f in r]): s.violate("returned-plan", "the returned momentum plan is not that of the last round (%d iterations)", iters)
        if iters and (not same([x.com for x in rk.kinematics_states], kin.kcom) or rm is None or not same([rm[k] for k in sorted(kin.me)], [kin.me[k] for k in sorted(kin.me)])): s.violate("returned-plan", "the returned motion is not that of the last round (%d iterations)", iters)
        if (rf is not None) != lqr or lqr and rf.p is not dyn: s.violate("returned-plan", "the returned feedback is not that of the last momentum plan")
        if rs is not planner.planner_setting: s.violate("returned-plan", "planning returned other settings")
        p = types.SimpleNamespace(**vars(kin))
        p.f, p.pos, p.dcom, p.dts = dyn.f, dyn.pos, dyn.dcom, dyn.dts
        return p, tv
    p, tv = make()
    # ---- export, twice: the first one may be disturbed
    home = os.getcwd()
    root = tempfile.mkdtemp(prefix="psim")
    DISK.root = os.path.realpath(root)
    os.chdir(root)
    hist = []
    try:
        for nth in range(1 + s.choose(3)):
            which = s.pick("files", "qp")
            if nth and s.flag(1, 2):
                # another motion with the same planner
                DISK.sim = None
                s.async_at = 0
                if s.flag(1, 2): size.n = 1 + s.choose(8)
                p, tv = make()
                hist.append("planned again")
            fault = s.choose(9) if s.flag(2, 3) else 0
            nfiles = 15 if which == "qp" else 10
            DISK.reset()
            s.async_at = 0
            s.async_fired = False
            cur.calls, cur.fail_at, cur.failed = 0, 0, False
            kindname = "none"
            if fault in (1, 2): DISK.kind, DISK.file_no, DISK.left = "full", 1 + s.choose(2 * nfiles), s.choose(1 << s.pick(4, 10, 16, 20)); kindname = "disk full"
            elif fault == 3: DISK.kind, DISK.file_no, DISK.left = "io", 1 + s.choose(2 * nfiles), s.choose(1 << s.pick(4, 10, 16)); kindname = "write error"
            elif fault == 4: DISK.kind, DISK.file_no = "open", 1 + s.choose(2 * nfiles); kindname = "open error"
            elif fault == 5: DISK.kind, DISK.file_no = "close", 1 + s.choose(2 * nfiles); kindname = "close error"
            elif fault == 6: DISK.short = True; kindname = "short writes"
            elif fault == 7: cur.fail_at = 1 + s.choose(1 << s.pick(3, 9, 13)); kindname = "planner error"
            elif fault == 8: s.async_at, s.async_exc = s.ticks + 1 + s.choose(1 << s.pick(8, 14, 18)), s.pick(KeyboardInterrupt, MemoryError)(); kindname = "interrupted"
            DISK.sim = s
            out = "done"
            try:
                planner.save_files() if which == "files" else planner.save_qp_files()
            except (OSError, Fail, KeyboardInterrupt, MemoryError) as e:
                out = type(e).__name__
            except Exception as e:
                out = "failed"
                if not (which == "files" and tv[-1] * 1000 < 1): s.violate("export-failed", "exporting a plan of %.4f s with %d states (%s) failed: %s: %s", tv[-1], len(tv), kindname, type(e).__name__, e)
            hit = DISK.hit or cur.failed or s.async_fired
            live = len(DISK.live)
            DISK.sim = None
            s.async_at = 0
            if s.async_fired: s.fault("interrupt" if s.async_exc.__class__ is KeyboardInterrupt else "no_memory")
            hist.append("%s(%s)->%s" % (which, kindname, out))
            s.event("export %s with %s: %s, fault met %d, files opened %d", which, kindname, out, hit, DISK.opened)
            s.count("probe.export.%s.%s" % (which, out))
            if out not in ("done", "failed") and not hit: s.violate("export-failed", "exporting failed with %s although nothing went wrong (%s)", out, "; ".join(hist))
            if hit: s.nontriv = True
            if out == "done":
                if hit and not s.async_fired: s.violate("export-error-hidden", "%s during the export did not reach the caller (%s)", kindname, "; ".join(hist))
                if live: s.violate("file-left-open", "%d files were left open (%s)", live, "; ".join(hist))
                files = wanted(p, tv, weight, which, lqr)
                for name, (stamp, v, ts) in sorted(files.items()):
                    try:
                        with _open(name) as fh: rows = [[float(x) for x in l.split()] for l in fh]
                    except (OSError, ValueError) as e:
                        s.violate("file-broken", "%s of a finished export cannot be read: %s (%s)", name, e, "; ".join(hist))
                    if len(rows) != len(ts): s.violate("lines", "%s has %d lines, the plan of %.4f s has %d samples (%s)", name, len(rows), tv[-1], len(ts), "; ".join(hist))
                    a = np.array(rows).reshape(len(rows), -1) if rows else np.zeros((0, 0))
                    if not len(a): continue
                    if stamp:
                        if np.max(np.abs(a[:, 0] - np.arange(len(a)))) > 1e-6: s.violate("time-stamp", "line %d of %s has time stamp %g", int(np.argmax(np.abs(a[:, 0] - np.arange(len(a))))), name, a[int(np.argmax(np.abs(a[:, 0] - np.arange(len(a)))))][0])
                        a = a[:, 1:]
                    if v is None: continue
                    if a.shape != v.shape: s.violate("columns", "%s has %d values per line, expected %d (%s)", name, a.shape[1], v.shape[1], "; ".join(hist))
                    e = np.abs(a - v) - 1e-6 * (np.abs(v) + 1e-3 * amp)
                    if name == "quadruped_contact_activation.dat":
                        fz = swap(interp(tv, p.f, ts), [1, 0, 3, 2]).reshape(len(a), 4, 3)[:, :, 2]
                        e = np.where(fz < 1e-12 * amp, e * (fz == 0), e)
                    if not np.all(e <= 0):
                        i, j = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
                        s.violate("file-content", "line %d (%.3f s) of %s has %.9g as value %d, the plan has %.9g (%d states over %.4f s%s; %s)", i, i / 1e3, name, a[i, j], j, v[i, j], len(tv), tv[-1], ", uneven steps" if uneven else "", "; ".join(hist))
                s.count("probe.files_checked", len(files))
                s.nontriv = True
    finally:
        DISK.sim = None
        os.chdir(home)
        shutil.rmtree(root, ignore_errors=True)
    s.state(n, dt, uneven, iters, lqr, tuple(hist))
    s.sample("%d states, %.2f s, %d iterations%s: %s" % (n, tv[-1], iters, ", feedback" if lqr else "", "; ".join(hist)))


if __name__ == "__main__":
    sys.exit(psim.main(sys.argv, scenario))
