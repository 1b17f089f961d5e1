#!/usr/bin/env python3
"""Runs one property's simulation campaign:  check.py Cxx [quick|thorough]
   or replays a violation:                    check.py replay FILE
"""
import json, os, re, subprocess, sys, tempfile, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import specs

VERIF = B.VERIF
WORKERS = int(os.environ.get("VF_WORKERS", "8"))


def known_for(prop):
    out, path = [], os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def exe_env():
    e = dict(os.environ)
    for k in ("SIM_QUIET", "SIM_SHOWERR", "LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
        e.pop(k, None)
    e.update(PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    return e


def run_batch(cmd, prop, seed, start, step, secs, shrink, known, count=None, timeout=None):
    fd, out = tempfile.mkstemp(prefix="vfout")
    os.close(fd)
    c = cmd + ["batch", "--prop", prop, "--seed", str(seed), "--start", str(start), "--step", str(step),
               "--secs", str(secs), "--shrink", str(shrink), "--out", out, "--known", "|".join(known)]
    if count:
        c += ["--count", str(count)]
    try:
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=exe_env(), timeout=timeout)
        txt = open(out).read()
        try:
            d = json.loads(txt)
        except ValueError:
            raise SystemExit("ERROR: simulator died (%d): %s %s" % (r.returncode, " ".join(c), r.stdout[-2000:]))
        return d
    finally:
        os.unlink(out)


def replay_choices(cmd, prop, choices, trace=None):
    fd, f = tempfile.mkstemp(prefix="vfrep")
    os.write(fd, (" ".join(map(str, choices)) + "\n").encode())
    os.close(fd)
    c = cmd + ["replay", "--prop", prop, "--file", f]
    if trace:
        c += ["--trace", trace]
    try:
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=exe_env(), text=True, errors="replace")
        m = re.search(r"RESULT verdict=(\d+) hash=(\w+) choices=(\d+) class=(.*?)(?: ticks=.*)?$", r.stdout, re.M)
        msg = re.search(r"^MESSAGE (.*)", r.stdout, re.M | re.S)
        if not m:
            return None, None, None, r.stdout
        return int(m.group(1)), m.group(2), m.group(4).strip(), (msg.group(1) if msg else "")
    finally:
        os.unlink(f)


def merge(acc, d):
    for k in ("runs", "nontrivial", "distinct", "ticks", "events", "choices", "sim_us"):
        acc[k] = acc.get(k, 0) + d.get(k, 0)
    for k in ("counters", "known"):
        a = acc.setdefault(k, {})
        for n, v in d.get(k, {}).items():
            a[n] = a.get(n, 0) + v
    acc.setdefault("samples", []).extend(d.get("samples", []))
    acc.setdefault("states", set()).update(d.get("states", []))


def main():
    prop = sys.argv[1]
    if prop == "replay":
        return do_replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.CHECKS[prop]
    t0 = time.time()
    total = float(os.environ.get("VF_SECS", spec["secs"][0 if tier == "quick" else 1]))
    shrink = 25 if tier == "quick" else 60
    stages = spec["stages"]
    try:
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            cmds = list(ex.map(lambda s: specs.command(s["target"], s.get("flavour")), stages))
    except B.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    tb = time.time() - t0
    known = known_for(prop)
    kn = [k for k, _ in known]
    acc, viol, per_stage, doubtful = {}, None, [], []
    det_checked = 0
    share = sum(s.get("share", 1.0) for s in stages)
    for s, cmd in zip(stages, cmds):
        secs = total * s.get("share", 1.0) / share
        ts = time.time()
        with cf.ThreadPoolExecutor(max_workers=WORKERS) as ex:
            futs = [ex.submit(run_batch, cmd, prop, seed, w, WORKERS, secs, shrink, kn) for w in range(WORKERS)]
            res = [f.result() for f in futs]
        st = {}
        for r in res:
            merge(acc, r)
            merge(st, r)
        wall = time.time() - ts
        per_stage.append({"target": s["target"], "flavour": s.get("flavour", "-"), "runs": st["runs"], "wall_s": round(wall, 1),
                          "runs_per_hour": int(st["runs"] / max(wall, 1e-9) * 3600), "what": s.get("what", "")})
        vs = [r["violation"] for r in res if "violation" in r]
        for v in vs:
            v["stage"], v["cmd"] = s, cmd
        for v in sorted(vs, key=lambda v: not v["deterministic"]):
            if viol is None and v["deterministic"] and reproduce(prop, seed, v):
                viol = v
        if viol:
            break
        if vs:
            # seen, but its replay differs: the code under test reads memory it does not own or never wrote.
            # Another stage may pin it down; if none does, it is reported as seen.
            doubtful += vs
            continue
        # the same seeds in a fresh process give the same executions
        w = 0
        n = min(len(res[w]["hashes"]), 6)
        again = run_batch(cmd, prop, seed, w, WORKERS, 600, 1, kn, count=n)
        for a, b in zip(res[w]["hashes"], again["hashes"]):
            det_checked += 1
            if a != b:
                v = again_differs(cmd, prop, seed, s, a, b)
                if v is None:
                    print("ERROR: simulation is not deterministic: run %s hash %s, again %s (%s)" % (a[0], a[1], b[1], s))
                    return 2
                doubtful.append(v)
                break
    rc = 0
    for k, txt in known:
        print("KNOWN-FINDING: property=%s %s (class %s, met in %d runs)" % (prop, txt, k, acc.get("known", {}).get(k, 0)))
    if viol is None and doubtful:
        viol = doubtful[0]
        viol["unstable"] = True
    if viol:
        rc = report(prop, seed, viol)
    wall = time.time() - t0
    fired = {k[6:]: v for k, v in acc.get("counters", {}).items() if k.startswith("fault.")}
    probes = {k: v for k, v in acc.get("counters", {}).items() if not k.startswith("fault.")}
    search = max(wall - tb, 1e-9)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(acc["runs"]), "distinct_nontrivial": int(acc["distinct"]), "rule": spec["rule"],
            "samples": acc["samples"][:8] or ["(none recorded)"],
            "simulated_runs": int(acc["runs"]), "runs_per_hour": int(acc["runs"] / search * 3600),
            "seeds_per_hour": int(acc["runs"] / search * 3600),
            "simulated_time_s": round(acc["sim_us"] / 1e6, 3), "instrumented_steps": int(acc["ticks"]),
            "decisions_taken": int(acc["choices"]), "events": int(acc["events"]),
            "faults_injected": fired, "probes": probes,
            "distinct_states": len(acc["states"]), "state_measure": spec.get("measure", "hash of the whole execution (choices, events, results)"),
            "determinism_rechecks": det_checked, "stages": per_stage,
            "real_code": spec["real"], "stubbed": spec["stub"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": 1 if viol and rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print("OK property=%s tier=%s seed=%d runs=%d distinct=%d states=%d build=%.0fs search=%.0fs" % (
            prop, tier, seed, acc["runs"], acc["distinct"], len(acc["states"]), tb, search))
    return rc


def base_of(prop, seed, v):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    return os.path.join(VERIF, "replays", "%s-seed%d-run%d" % (prop, seed, v["index"]))


def reproduce(prop, seed, v):
    """the minimised execution fails in the same way, and exactly so, in fresh processes"""
    base = base_of(prop, seed, v)
    verdict, h, cls, msg = replay_choices(v["cmd"], prop, v["choices"], trace=base + ".trace")
    verdict2, h2, cls2, _ = replay_choices(v["cmd"], prop, v["choices"])
    return verdict == 2 and cls == v["class"] and (verdict2, h2, cls2) == (verdict, h, cls)


def again_differs(cmd, prop, seed, stage, a, b):
    """the same seed gave two executions.  The simulator decides everything it knows of, so the code under test
    depends on memory it never wrote or does not own - provided the difference shows again."""
    seen = set()
    for k in range(6):
        r = subprocess.run(cmd + ["one", "--prop", prop, "--seed", str(seed), "--index", str(a[0])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(exe_env(), VF_PAD="x" * (k * 777)), text=True, errors="replace")
        m = re.search(r"RESULT verdict=(\d+) hash=(\w+)", r.stdout)
        if m:
            seen.add(m.group(2))
    if not seen - {a[1]} and not seen - {b[1]}:
        return None
    return {"index": int(a[0]), "class": "not-repeatable", "message": "run %s ends differently each time (%s, %s): results depend on memory that was never written or is not owned" % (a[0], a[1], b[1]),
            "min_message": "as above", "deterministic": False, "detmsg": "", "tries": 0, "orig_choices": 0, "hash": a[1], "min_hash": a[1], "choices": [], "stage": stage, "cmd": cmd}


def report(prop, seed, v):
    base = base_of(prop, seed, v)
    if v.get("unstable"):
        print("note: the execution is not exactly repeatable (%s): the code under test reads memory it never wrote or does not own" % (v["detmsg"] or "results differ between processes"))
        v["min_message"] = v["min_message"] or v["message"]
    rep = {"property": prop, "seed": seed, "run": v["index"], "class": v["class"], "message": v["min_message"],
           "first_message": v["message"], "target": v["stage"]["target"], "flavour": v["stage"].get("flavour"),
           "original_choices": v["orig_choices"], "minimising_runs": v["tries"], "hash": v["min_hash"], "choices": v["choices"],
           "replay": "python3 vf/check.py replay %s" % (base + ".json")}
    try:
        rep["trace"] = open(base + ".trace", errors="replace").read().splitlines()[-400:]
    except OSError:
        pass
    with open(base + ".json", "w") as f:
        json.dump(rep, f, indent=1)
    print("class: %s" % v["class"])
    print("first seen: %s" % v["message"][:1500])
    print("minimised (%d choices): %s" % (len(v["choices"]), v["min_message"][:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, base + ".json"))
    return 1


def do_replay(path):
    rep = json.load(open(path))
    cmd = specs.command(rep["target"], rep["flavour"])
    if not rep["choices"]:
        seen = set()
        for k in range(6):
            r = subprocess.run(cmd + ["one", "--prop", rep["property"], "--seed", str(rep["seed"]), "--index", str(rep["run"])], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=dict(exe_env(), VF_PAD="x" * (k * 777)), text=True, errors="replace")
            sys.stdout.write(r.stdout)
            seen |= set(re.findall(r"RESULT verdict=\d+ hash=(\w+)", r.stdout))
        if len(seen) > 1:
            print("VIOLATION property=%s replay=%s" % (rep["property"], path))
            return 1
        return 0
    fd, tr = tempfile.mkstemp(prefix="vftrace")
    os.close(fd)
    verdict, h, cls, msg = replay_choices(cmd, rep["property"], rep["choices"], trace=tr)
    sys.stdout.write(open(tr, errors="replace").read())
    os.unlink(tr)
    print("class: %s  hash: %s (recorded: %s %s)" % (cls, h, rep["class"], rep["hash"]))
    print(msg)
    if verdict == 2:
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
