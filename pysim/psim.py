"""Deterministic simulation of the Python parts.

One run = one forked process that executes real repository code against
simulated parties.  Every decision (inputs, faults, their position, what the
other parties answer) is drawn from one stream of choices; the stream is
recorded and can be replayed and minimised.  A progress counter on the
repository's own lines (sys.monitoring, local to its code objects) bounds every
run and is the clock against which asynchronous faults are placed.
The command line is that of the C++ simulators.
"""
import hashlib, json, os, pickle, signal, struct, sys, time, traceback

REPO = os.environ.get("VF_REPO", "/repo")


class Violation(BaseException):
    pass


class Stop(BaseException):
    """ends the run without a violation"""


class Budget(BaseException):
    pass


class Sim:
    def __init__(self, seed, index, choices=None, trace=None):
        self.src = choices
        self.rng = hashlib.sha256(b"%d/%d" % (seed, index)).digest()
        self.buf, self.pos, self.ctr = b"", 0, 0
        self.ch = []
        self.hash = hashlib.sha256()
        self.events = self.ticks = 0
        self.limit = 20_000_000
        self.cnt, self.states, self.samp, self.nontriv = {}, set(), "", False
        self.sim_us = 0.0
        self.trace = trace
        self.async_at, self.async_exc, self.async_fired = 0, None, False

    # --- choices
    def u32(self):
        if self.pos + 4 > len(self.buf):
            self.buf, self.pos = hashlib.sha256(self.rng + struct.pack("<Q", self.ctr)).digest(), 0
            self.ctr += 1
        v = struct.unpack_from("<I", self.buf, self.pos)[0]
        self.pos += 4
        return v

    def choose(self, n):
        """0..n-1; 0 is the plainest choice"""
        if n <= 1:
            return 0
        if self.src is not None:
            v = self.src[len(self.ch)] % n if len(self.ch) < len(self.src) else 0
        else:
            v = self.u32() % n
        self.ch.append(v)
        return v

    def flag(self, num, den):
        """true with probability num/den"""
        return self.choose(den) >= den - num

    def pick(self, *a):
        return a[self.choose(len(a))]

    def real(self, lo, hi, steps=64):
        return lo + (hi - lo) * self.choose(steps + 1) / steps

    # --- record
    def event(self, fmt, *a):
        s = fmt % a if a else fmt
        self.events += 1
        self.hash.update(s.encode())
        self.hash.update(b"\n")
        if self.trace:
            self.trace.write("[%d] %s\n" % (self.ticks, s))

    def mix(self, b):
        self.events += 1
        self.hash.update(b)

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def fault(self, k):
        self.count("fault." + k)

    def state(self, *a):
        if len(self.states) < 512:
            self.states.add(hashlib.sha256(repr(a).encode()).hexdigest()[:16])

    def sample(self, s):
        self.samp = s[:400]

    def violate(self, cls, fmt, *a):
        raise Violation(cls, fmt % a if a else fmt)

    # --- progress of repository code; asynchronous exceptions at a chosen line
    def watch(self, modules):
        mon = sys.monitoring
        mon.use_tool_id(mon.DEBUGGER_ID, "psim")
        seen = set()

        def codes(c):
            if c in seen:
                return
            seen.add(c)
            mon.set_local_events(mon.DEBUGGER_ID, c, mon.events.LINE)
            for k in c.co_consts:
                if hasattr(k, "co_code"):
                    codes(k)

        def line(code, no):
            self.ticks += 1
            if self.ticks == self.async_at:
                self.async_fired = True
                raise self.async_exc
            if self.ticks > self.limit:
                self.limit += 1 << 60
                raise Budget()
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, line)
        for m in modules:
            for o in list(vars(m).values()):
                for f in [o] + (list(vars(o).values()) if isinstance(o, type) else []):
                    f = getattr(f, "__func__", f)
                    c = getattr(f, "__code__", None)
                    if c is not None and os.path.realpath(c.co_filename).startswith(os.path.realpath(REPO)):
                        codes(c)


def _child(scn, prop, seed, index, choices, tracef, wfd):
    sim = Sim(seed, index, choices, open(tracef, "w") if tracef else None)
    verdict, cls, msg = 1, "-", ""
    out = os.open(os.devnull, os.O_WRONLY)
    os.dup2(out, 1)
    os.dup2(out, 2)
    try:
        scn(sim, prop)
    except Violation as e:
        verdict, cls, msg = 2, e.args[0], e.args[1]
    except Stop:
        pass
    except Budget:
        verdict, cls, msg = 2, "no-progress", "the run did not end within %d lines of repository code" % (sim.limit & ((1 << 60) - 1))
    except BaseException as e:
        verdict, cls, msg = 2, "harness-exception", "".join(traceback.format_exception(e))[-3000:]
    if verdict == 2:
        sim.event("VIOLATION %s: %s", cls, msg)
    if sim.trace:
        sim.trace.close()
    d = (verdict, cls, msg, sim.hash.hexdigest()[:16], sim.ch, sim.ticks, sim.events, sim.cnt, sim.states, sim.samp, sim.nontriv, sim.sim_us)
    b = pickle.dumps(d)
    while b:
        n = os.write(wfd, b)
        b = b[n:]


def run_one(scn, prop, seed, index, choices=None, trace=None, hang=60):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        rc = 0
        try:
            signal.alarm(hang)
            _child(scn, prop, seed, index, choices, trace, w)
        except BaseException:
            rc = 1
        os._exit(rc)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 1 << 20)
        if not x:
            break
        b += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        return list(pickle.loads(b))
    except Exception:
        return [2, "died", "the simulated run died with status %d" % st, "0" * 16, choices or [], 0, 0, {}, set(), "", False, 0.0]


def shrink(scn, prop, best, cls, secs):
    t0, tries = time.time(), 0
    end = lambda: time.time() - t0 > secs

    def trim(c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        return c

    def test(c):
        nonlocal tries
        tries += 1
        r = run_one(scn, prop, 0, 0, c)
        if r[0] == 2 and r[1] == cls:
            return trim(r[4] if len(r[4]) < len(c) else c)
        return None
    best = test(trim(best)) or best
    changed = True
    while changed and not end():
        changed = False
        chunk = max(len(best) // 2, 1)
        while chunk >= 1 and not end():
            i = 0
            while i < len(best) and not end():
                c = best[:i] + best[i + chunk:]
                o = test(c) if len(c) < len(best) else None
                if o is not None and len(o) < len(best):
                    best, changed = o, True
                    continue
                z = best[:i] + [0] * len(best[i:i + chunk]) + best[i + chunk:]
                if z != best:
                    o = test(z)
                    if o is not None:
                        best, changed = o, True
                i += chunk
            chunk //= 2
        i = 0
        while i < len(best) and not end():
            for w in (1, best[i] // 2, best[i] - 1):
                if 0 <= w < best[i]:
                    c = list(best)
                    c[i] = w
                    o = test(c)
                    if o is not None:
                        best, changed = o, True
                        if i >= len(best):
                            break
            i += 1
    return best, tries


def main(argv, scn):
    def arg(k, d=None):
        for i, a in enumerate(argv[:-1]):
            if a == k:
                return argv[i + 1]
        return d
    mode, prop, seed = argv[1], arg("--prop", ""), int(arg("--seed", "1"))
    if mode in ("replay", "one"):
        if mode == "replay":
            r = run_one(scn, prop, 0, 0, [int(x) for x in open(arg("--file")).read().split()], arg("--trace"))
        else:
            r = run_one(scn, prop, seed, int(arg("--index", "0")), None, arg("--trace"))
        print("RESULT verdict=%d hash=%s choices=%d class=%s" % (r[0], r[3], len(r[4]), r[1] if r[0] == 2 else "-") + (" ticks=%d" % r[5] if mode == "one" else ""))
        if r[0] == 2:
            print("MESSAGE " + r[2])
        if mode == "one":
            for k in sorted(r[7]):
                print("  %s = %d" % (k, r[7][k]))
        return 3 if r[0] == 2 else 0
    start, step, maxn = int(arg("--start", "0")), int(arg("--step", "1")), int(arg("--count", "1000000000"))
    secs, shr = float(arg("--secs", "10")), float(arg("--shrink", "20"))
    known = set(arg("--known", "").split("|"))
    d = dict(runs=0, nontrivial=0, distinct=0, ticks=0, events=0, choices=0, sim_us=0.0, counters={}, known={}, samples=[], hashes=[])
    states, hashes = set(), set()
    t0 = time.time()
    n = 0
    while n < maxn and not (n and time.time() - t0 > secs):
        idx = start + n * step
        n += 1
        r = run_one(scn, prop, seed, idx)
        d["runs"] += 1
        d["ticks"] += r[5]
        d["events"] += r[6]
        d["choices"] += len(r[4])
        d["sim_us"] += r[11]
        for k, v in r[7].items():
            d["counters"][k] = d["counters"].get(k, 0) + v
        if len(d["hashes"]) < 200:
            d["hashes"].append([idx, r[3]])
        if r[0] == 2 and r[1] in known:
            d["known"][r[1]] = d["known"].get(r[1], 0) + 1
        elif r[0] == 2:
            r2, r3 = run_one(scn, prop, seed, idx), run_one(scn, prop, 0, 0, r[4])
            v = dict(index=idx, message=r[2], orig_choices=len(r[4]), hash=r[3], deterministic=True, detmsg="", tries=0, choices=r[4], min_message="", min_hash="")
            v["class"] = r[1]
            if not all(x[0] == 2 and x[1] == r[1] and x[3] == r[3] for x in (r2, r3)):
                v["deterministic"], v["detmsg"] = False, "first %s / again %s / from choices %s" % (r[1], r2[1], r3[1])
            else:
                v["choices"], v["tries"] = shrink(scn, prop, r[4], r[1], shr)
                rm = run_one(scn, prop, 0, 0, v["choices"])
                v["min_message"], v["min_hash"] = rm[2], rm[3]
                if rm[0] != 2 or rm[1] != r[1]:
                    v["deterministic"], v["detmsg"] = False, "minimised list does not reproduce"
            d["violation"] = v
            break
        if r[10]:
            d["nontrivial"] += 1
            hashes.add(r[3])
        states |= r[8]
        if len(d["samples"]) < 3 and r[9]:
            d["samples"].append(r[9])
    d["distinct"], d["states"] = len(hashes), sorted(states)[:20000]
    with open(arg("--out"), "w") as f:
        json.dump(d, f)
    return 3 if "violation" in d else 0
