"""C22: tracking gains computed from the exported files of a plan, on a faulty disk."""
import builtins, errno, io, os, shutil, sys, tempfile
import psim

_open, _ioopen = builtins.open, io.open


class Disk:
    """the plan files below the scratch directory: reading and writing can fail from a chosen byte on"""
    sim, root = None, None

    def reset(self):
        self.sim, self.kind, self.op, self.no, self.left, self.short, self.hit, self.opened, self.live, self.log = None, None, "r", 0, 0, False, False, 0, [], []

    def err(self, e, what):
        self.hit = True
        self.sim.fault(what)
        self.sim.event("disk: %s", what)
        raise OSError(e, os.strerror(e))


DISK = Disk()
DISK.reset()


class Raw(io.FileIO):
    mine = False

    def writable_here(self):
        return DISK.sim is not None and DISK.op == "w" and self.no >= DISK.no

    def readinto(self, b):
        d = DISK
        if d.sim is not None and d.op == "r" and self.no == d.no:
            b = memoryview(b).cast("B")
            if d.kind == "io":
                if d.left <= 0: d.err(errno.EIO, "read_error")
                b = b[:min(len(b), d.left)]
                n = super().readinto(b)
                d.left -= n
                return n
        elif d.sim is not None and d.short:
            b = memoryview(b).cast("B")
            d.sim.count("fault.short_read")
            return super().readinto(b[:1 + (len(b) * 7919 + d.opened) % min(len(b), 173)])
        return super().readinto(b)

    def write(self, b):
        d = DISK
        b = memoryview(b).cast("B")
        n = len(b)
        if self.writable_here() and d.kind in ("full", "io"):
            if d.left <= 0: d.err(errno.ENOSPC if d.kind == "full" else errno.EIO, "disk_full" if d.kind == "full" else "write_error")
            n = min(n, d.left)
            d.left -= n
        elif d.sim is not None and d.short and n > 1:
            d.sim.count("fault.short_write")
            n = 1 + (n * 7919) % min(n, 173)
        return super().write(b[:n])

    def close(self):
        was = self.closed
        super().close()
        if not was and self.mine:
            if self in DISK.live: DISK.live.remove(self)
            if DISK.kind == "close" and self.writable_here():
                DISK.kind = None
                DISK.err(errno.EIO, "close_error")


def simopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if d.sim is None or isinstance(file, int) or not os.path.realpath(file).startswith(d.root):
        return _ioopen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    d.opened += 1
    w = any(c in mode for c in "wxa+")
    d.log.append((os.path.basename(os.path.realpath(file)), w))
    no = sum(1 for _, x in d.log if x == w)
    if d.kind == "open" and d.op == ("w" if w else "r") and no == d.no:
        d.err(d.sim.pick(errno.EACCES, errno.EMFILE, errno.ENOSPC), "open_error")
    raw = Raw(file, mode.replace("b", "").replace("t", ""))
    raw.no, raw.mine = no, True
    raw.no = no if d.op == ("w" if w else "r") else -1
    d.live.append(raw)
    if buffering == 0: return raw
    buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw, 512) if w else io.BufferedReader(raw, 512)
    return buf if "b" in mode else io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


builtins.open = io.open = simopen
import numpy as np
import stubs

stubs.install(pinocchio=False)
import momentumopt.kinoptpy.lqr_gain_manifold as lgm

DT, M, G = 1e-3, 2.17, 9.81
I0 = np.diag([0.00578574, 0.01938108, 0.02476124])
OUT = "quadruped_centroidal_gains_manifold.dat"
COLS = {"quadruped_com.dat": 3, "quadruped_com_vel.dat": 3, "quadruped_quaternion.dat": 4, "quadruped_base_ang_velocities.dat": 3, "quadruped_centroidal_forces.dat": 3, "quadruped_centroidal_moments.dat": 3, "quadruped_contact_activation.dat": 4}


# ---- the model, written down independently (orientations as matrices, errors in the world frame)
def mat(q):
    x, y, z, w = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def expm(w):
    a = np.linalg.norm(w)
    W = hat(w)
    return np.eye(3) + (np.sin(a) / a * W + (1 - np.cos(a)) / a ** 2 * W @ W if a > 1e-9 else W + W @ W / 2)


def logm(R):
    v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    s, c = np.linalg.norm(v), (np.trace(R) - 1) / 2
    return v if s < 1e-9 else v / s * np.arctan2(s, c)


def step(x, u, on):
    c, v, R, w = x
    I = R @ I0 @ R.T
    return c + DT * v, v + DT * (on * u[:3] / M - np.array([0, 0, G])), expm(DT * w) @ R, w + DT * np.linalg.solve(I, on * u[3:] - np.cross(w, I @ w))


def plus(x, d):
    return x[0] + d[:3], x[1] + d[3:6], expm(d[6:9]) @ x[2], x[3] + d[9:]


def minus(a, b):
    return np.concatenate([a[0] - b[0], a[1] - b[1], logm(a[2] @ b[2].T), a[3] - b[3]])


def derivatives(x, u, on, h=1e-4):
    fx, fu = np.zeros((12, 12)), np.zeros((12, 6))
    f = step(x, u, on)
    for i in range(12):
        d = np.zeros(12)
        d[i] = h
        fx[:, i] = (minus(step(plus(x, d), u, on), f) - minus(step(plus(x, -d), u, on), f)) / (2 * h)
    for i in range(6):
        d = np.zeros(6)
        d[i] = h
        fu[:, i] = (minus(step(x, u + d, on), f) - minus(step(x, u - d, on), f)) / (2 * h)
    return fx, fu


def riccati(X, U, on, Q, R):
    """deviations dx from the trajectory cost dx'Q dx / 2 each step and dx'Q dx at the end, controls u'Ru / 2; u = U - k - K dx"""
    N = len(U)
    V, v, K, k, c = 2 * Q[N], np.zeros(12), np.zeros((N, 6, 12)), np.zeros((N, 6)), np.zeros(N + 1)
    for t in range(N - 1, -1, -1):
        fx, fu = derivatives(X[t], U[t], on[t])
        S = R[t] + fu.T @ V @ fu
        K[t], k[t] = np.linalg.solve(S, fu.T @ V @ fx), np.linalg.solve(S, R[t] @ U[t] + fu.T @ v)
        c[t] = c[t + 1] + U[t] @ R[t] @ U[t] / 2 - k[t] @ S @ k[t] / 2
        v, V = fx.T @ v - K[t].T @ (R[t] @ U[t] + fu.T @ v), Q[t] + fx.T @ V @ fx - (fx.T @ V @ fu) @ K[t]
    return K, k, c


class Plan:
    def __init__(self, s, rng, N):
        n = N + 1
        u = lambda a, *sh: rng.uniform(-a, a, sh)
        a = s.pick(1.0, 0.1, 3.0)
        q = rng.normal(size=4)
        q /= np.linalg.norm(q)
        kind = s.choose(3)  # a plan that moves smoothly, one of unrelated samples, one at rest
        w = u(2 * a, 3)
        if kind == 1:
            Q = rng.normal(size=(n, 4))
            Q /= np.linalg.norm(Q, axis=1, keepdims=True)
        else: Q = np.tile(q, (n, 1))
        self.d = {"quadruped_com.dat": u(0.5, 3) + np.cumsum(u(0.01 * a, n, 3), axis=0), "quadruped_com_vel.dat": u(a, n, 3), "quadruped_quaternion.dat": Q, "quadruped_base_ang_velocities.dat": u(2 * a, n, 3) if kind == 1 else np.tile(0 * w if kind == 2 else w, (n, 1)),
                  "quadruped_centroidal_forces.dat": np.array([0, 0, M * G]) + u(10 * a, n, 3), "quadruped_centroidal_moments.dat": u(0.5 * a, n, 3), "quadruped_contact_activation.dat": self.contacts(s, n)}
        if kind == 2: self.d["quadruped_com_vel.dat"] *= 0
        self.N = N

    def contacts(self, s, n):
        """stance, flight, or single feet coming and going"""
        kind = s.choose(4)
        c = np.ones((n, 4))
        if kind == 1: c[:] = 0
        elif kind == 2: c[s.choose(n):] = 0
        elif kind == 3:
            for e in range(4): a = s.choose(n); b = s.choose(n); c[min(a, b):max(a, b) + s.choose(2), e] = 0
        return c

    def write(self, root):
        t = np.arange(self.N + 1)
        for f, v in self.d.items(): np.savetxt(os.path.join(root, f), np.column_stack([t, v]))

    def trajectory(self):
        d = self.d
        self.on = [1.0 if c.any() else 0.0 for c in d["quadruped_contact_activation.dat"]]
        self.U = np.hstack([d["quadruped_centroidal_forces.dat"], d["quadruped_centroidal_moments.dat"]])[:-1]
        X = [(d["quadruped_com.dat"][0], d["quadruped_com_vel.dat"][0], mat(d["quadruped_quaternion.dat"][0]), d["quadruped_base_ang_velocities.dat"][0])]
        for t in range(self.N): X.append(step(X[t], self.U[t], self.on[t]))
        return X


def flat(x):
    return np.concatenate([x[0], x[1], x[2].ravel(), x[3]])


def damage(s, root, p):
    """one of the files is not what it should be; what happened"""
    f = s.pick(*sorted(COLS))
    path = os.path.join(root, f)
    with _open(path) as h: lines = h.read().splitlines(True)
    kind = s.choose(6)
    i = s.choose(len(lines))
    if kind == 0: os.unlink(path); return "%s is missing" % f
    if kind == 1:
        parts = lines[i].split()
        keep = s.choose(len(parts))
        lines[i:] = [" ".join(parts[:keep])]
        if keep == 0: lines[i:] = []
        what = "%s ends in line %d after %d values" % (f, i, keep)
    elif kind == 2:
        parts = lines[i].split()
        parts[s.choose(len(parts))] = s.pick("x", "1.0.0", "--", "1e")
        lines[i] = " ".join(parts) + "\n"; what = "%s is not numeric" % f
    elif kind == 3:
        if i == p.N: i = 0
        parts = lines[i].split()
        j = 1 + s.choose(len(parts) - 1)
        if f == "quadruped_contact_activation.dat": return None
        if f not in ("quadruped_centroidal_forces.dat", "quadruped_centroidal_moments.dat"): i = 0
        if f == "quadruped_quaternion.dat": pass
        parts[j] = s.pick("nan", "inf")
        lines[i] = " ".join(parts) + "\n"; what = "%s is not finite" % f
        if not p.on[i] and f.startswith("quadruped_centroidal"): what += " in flight"
    elif kind == 4:
        lines = lines + [lines[-1]] * (1 + s.choose(3)); what = "%s has samples too many" % f
    else:
        f = "quadruped_quaternion.dat"; path = os.path.join(root, f)
        with _open(path) as h: lines = h.read().splitlines(True)
        if i == p.N: i = 0
        parts = lines[i].split()
        k = s.pick(1.05, 0.9, 0.0, 2.0)
        lines[i] = " ".join([parts[0]] + ["%.18e" % (k * float(x)) for x in parts[1:]]) + "\n"; what = "an orientation is not a unit quaternion"
    with _open(path, "w") as h: h.writelines(lines)
    return what


def scenario(s, prop):
    s.watch([lgm])
    s.limit = 30_000_000
    rng = np.random.RandomState(s.choose(1 << 16))
    root = tempfile.mkdtemp(prefix="psim")
    hist = []
    held = []  # objects and what they must hold
    try:
        for nth in range(1 + s.choose(3)):
            sub = os.path.join(root, "p%d" % nth)
            os.mkdir(sub)
            p = Plan(s, rng, 1 + s.choose(s.pick(3, 3, 6, 15)))
            p.write(sub)
            X = p.trajectory()
            load(s, sub, p, X, hist, held)
            for _ in range(1 + s.choose(2)):
                if held: compute(s, rng, held[s.choose(len(held))], hist)
    finally:
        DISK.sim = None
        shutil.rmtree(root, ignore_errors=True)
    s.state(tuple(hist))
    s.sample("; ".join(hist))


def guarded(s, f, where, kindname):
    """runs f with the faults armed; name of the exception or done"""
    DISK.sim = s
    DISK.root = os.path.realpath(where)
    r, out = None, "done"
    try: r = f()
    except (Exception, KeyboardInterrupt) as e: out = type(e).__name__; s.event("%s: %s", out, str(e).replace(where, "")[:80])
    live = len(DISK.live)
    DISK.sim = None
    s.async_at = 0
    hit = DISK.hit or s.async_fired
    if s.async_fired: s.fault("interrupt" if isinstance(s.async_exc, KeyboardInterrupt) else "no_memory")
    if hit: s.nontriv = True
    if out == "done" and live: s.violate("file-left-open", "%d files are left open", live)
    return r, out, hit


def load(s, sub, p, X, hist, held):
    DISK.reset()
    s.async_at, s.async_fired = 0, False
    fault = s.choose(6) if s.flag(1, 2) else 0
    kindname, bad = "none", None
    if fault == 1: bad = damage(s, sub, p); kindname = bad or "none"
    elif fault == 2: DISK.kind, DISK.no = "open", 1 + s.choose(8); kindname = "open error"
    elif fault == 3: DISK.kind, DISK.no, DISK.left = "io", 1 + s.choose(8), s.choose(1 << s.pick(4, 8, 10)); kindname = "read error"
    elif fault == 4: DISK.short = True; kindname = "short reads"
    elif fault == 5: s.async_at, s.async_exc = s.ticks + 1 + s.choose(1 << s.pick(5, 8, 10)), s.pick(KeyboardInterrupt, MemoryError)(); kindname = "interrupted"
    before = {f: _read(sub, f) for f in COLS}
    o, out, hit = guarded(s, lambda: lgm.CentroidalLqr(sub), sub, kindname)
    hist.append("load %d (%s)->%s" % (p.N, kindname, out))
    s.event("load %d samples with %s: %s", p.N + 1, kindname, out)
    s.count("probe.load." + ("done" if out == "done" else "failed"))
    if bad: s.fault("damaged_file"); s.nontriv = True
    if {f: _read(sub, f) for f in COLS} != before: s.violate("files-changed", "loading a plan changed its files (%s)", hist[-1])
    if out != "done":
        if not hit and not bad: s.violate("load-failed", "loading an intact plan failed: %s (%s)", out, "; ".join(hist))
        p.write(sub)
        return
    if hit: s.violate("error-hidden", "%s while the plan was read did not reach the caller (%s)", kindname, "; ".join(hist))
    if bad and not bad.endswith("finite") and not bad.endswith("in flight"): s.violate("damage-accepted", "a plan was loaded although %s", bad)
    if bad:
        # values that are not finite must at the latest end the computation of the gains
        DISK.reset()
        _, out, hit = guarded(s, o.compute_gains, sub, "none")
        if out == "done": s.violate("damage-accepted", "gains were computed although %s", bad)
        p.write(sub)
        return
    h = (o, p, X, sub)
    holds(s, h, hist)
    remember(o, p)
    held.append(h)


def remember(o, p):
    """the weights the object was given"""
    p.Q, p.R = [np.array(q) for q in o.Q], [np.array(r) for r in o.R]


def _read(sub, f):
    try:
        with _open(os.path.join(sub, f), "rb") as h: return h.read()
    except OSError: return None


def holds(s, h, hist):
    """the trajectory of the object is the one of the plan"""
    o, p, X, sub = h
    x0, u0 = np.asarray(o.x0), np.asarray(o.u0)
    if x0.shape != (p.N + 1, 13) or u0.shape != (p.N, 6) or o.N != p.N: s.violate("size", "a plan of %d steps gives %s states and %s controls", p.N, x0.shape, u0.shape)
    if not np.array_equal(u0, p.U): s.violate("controls", "the controls are not the forces and moments of the plan (%s)", "; ".join(hist))
    for t in range(p.N + 1):
        got = (x0[t, :3], x0[t, 3:6], mat(x0[t, 6:10]), x0[t, 10:])
        e = np.max(np.abs(flat(got) - flat(X[t])) / (1 + np.abs(flat(X[t]))))
        if not e < 1e-9 or not abs(np.linalg.norm(x0[t, 6:10]) - 1) < 1e-6: s.violate("trajectory", "state %d is %.3g away from the motion under the plan's forces (%s)", t, e, "; ".join(hist))
    s.count("probe.trajectory")


def spd(rng, n, lo, hi, full):
    """weights, of single components or coupled ones"""
    D = np.diag(10 ** rng.uniform(lo, hi, n))
    B = np.linalg.qr(rng.normal(size=(n, n)))[0] if full else np.eye(n)
    A = B @ D @ B.T
    return (A + A.T) / 2


def compute(s, rng, h, hist, again=False):
    o, p, X, sub = h
    if not again and s.flag(1, 2):
        z = s.choose(3)
        full = s.flag(1, 3)
        o.Q = [spd(rng, 12, -1, 1, full) for _ in range(p.N + 1)] if z else [np.eye(12)] * (p.N + 1)
        o.R = [spd(rng, 6, -4, 0, full) for _ in range(p.N)] if z != 1 else [1e-3 * np.eye(6)] * p.N
        remember(o, p)
        s.event("weights changed")
    DISK.reset()
    s.async_at, s.async_fired = 0, False
    fault = s.choose(8) if not again and s.flag(1, 2) else 0
    kindname = "none"
    DISK.op, DISK.no = "w", 1 + s.choose(2)  # the file is opened twice: emptied, then written
    if fault in (1, 2): DISK.kind, DISK.left = ("full", "io")[fault - 1], s.choose(1 << s.pick(8, 11, 14)); kindname = "disk full" if fault == 1 else "write error"
    elif fault == 3: DISK.kind = "open"; kindname = "open error"
    elif fault == 4: DISK.kind = "close"; kindname = "close error"
    elif fault == 5: DISK.short = True; kindname = "short writes"
    elif fault >= 6:
        s.async_at, s.async_exc = s.ticks + 1 + s.choose(1 << s.pick(12, 15, 18)), s.pick(KeyboardInterrupt, MemoryError)(); kindname = "interrupted"
        if s.flag(1, 2): arm(s, p)
    before = {f: _read(sub, f) for f in COLS}
    _, out, hit = guarded(s, o.compute_gains, sub, kindname)
    if REAL is not None: lgm.linalg = REAL
    hist.append("gains %d (%s)->%s" % (p.N, kindname, out))
    s.event("gains with %s: %s", kindname, out)
    s.count("probe.gains." + ("done" if out == "done" else "failed"))
    if {f: _read(sub, f) for f in COLS} != before: s.violate("files-changed", "computing gains changed the files of the plan (%s)", hist[-1])
    if out != "done":
        if not hit: s.violate("gains-failed", "computing gains failed: %s (%s)", out, "; ".join(hist))
        if s.flag(1, 2): compute(s, rng, h, hist, True)
        return
    if hit: s.violate("error-hidden", "%s while the gains were computed did not reach the caller (%s)", kindname, "; ".join(hist))
    holds(s, h, hist)
    if not all(np.array_equal(a, b) for a, b in zip(list(o.Q) + list(o.R), p.Q + p.R)): s.violate("weights-changed", "the object no longer holds the weights it was given (%s)", "; ".join(hist))
    K, k, c = riccati(X, p.U, p.on, p.Q, p.R)
    gK, gk = np.asarray(o.kfb), np.asarray(o.kff)
    if gK.shape != K.shape or gk.shape != k.shape: s.violate("size", "gains %s and %s for %d steps", gK.shape, gk.shape, p.N)
    e1 = np.abs(gK - K).max() / (1e-6 + np.abs(K).max())
    e2 = np.abs(gk - k).max() / (1e-3 + np.abs(k).max())
    # the code's second differences of the cost (step 1e-6) carry the rounding of the whole cost
    noise = sum(2.2e-16 * (u @ np.asarray(r) @ u) / 4e-12 for u, r in zip(p.U, p.R))
    if not e1 < TOLK + 2 * noise: s.violate("gains", "the feedback gains are %.3g away from those of the recursion (%s)", e1, "; ".join(hist))
    if not e2 < TOLk: s.violate("feedforward", "the feedforward terms are %.3g away from those of the recursion (%s)", e2, "; ".join(hist))
    e3 = np.abs(np.asarray(o.value) - c).max() / (1e-3 + sum(u @ np.asarray(r) @ u for u, r in zip(p.U, p.R)))
    if not e3 < TOLk: s.violate("cost-to-go", "the cost to go is %.3g away from that of the recursion (%s)", e3, "; ".join(hist))
    try: a = np.array([[float(v) for v in l.split()] for l in (_read(sub, OUT) or b"").decode().splitlines()])
    except ValueError as e: s.violate("gain-file", "the gain file is malformed: %s", e)
    if a.shape != (p.N, 72) or not np.array_equal(a, gK.reshape(p.N, 72)): s.violate("gain-file", "the gain file does not hold the gains (%s, %s)", a.shape, "; ".join(hist))
    s.count("probe.gains_checked")
    s.nontriv = True


TOLK, TOLk = 1e-2, 1e-2
REAL = getattr(lgm, "linalg", None)


class Alg:
    """scipy.linalg for the code under test; one call runs out of memory"""
    def __init__(self, s, at): self.s, self.at, self.n = s, at, 0

    def __getattr__(self, k):
        f = getattr(REAL, k)
        if not callable(f) or isinstance(f, type): return f

        def call(*a, **kw):
            self.n += 1
            if self.n == self.at:
                self.s.async_fired = True
                raise self.s.async_exc
            return f(*a, **kw)
        return call


def arm(s, p):
    if REAL is None: return
    s.async_at = 0
    lgm.linalg = Alg(s, 1 + s.choose(p.N * s.pick(42, 1 + 42)))


if __name__ == "__main__":
    sys.exit(psim.main(sys.argv, scenario))
