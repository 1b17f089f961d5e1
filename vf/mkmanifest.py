#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = specs.B.VERIF
NA = {
    "C18": "Pure functions of their arguments: no schedule, clock, I/O, randomness or fault can change the result, so there is nothing for a simulator to control; generating inputs alone would be property-based testing, another technique.",
}
PENDING = "The check for this property is not built yet."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.CHECKS:
        s = specs.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 vf/check.py %s quick" % i, "thorough_cmd": "python3 vf/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": s.get("technique", "deterministic simulation with fault injection (seeded schedule and fault search)"),
                       "level": "exploration", "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "bash vf/setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks are compiled into /repo: every seam is a symbol (pthread, malloc, clock, file calls), compiler instrumentation or a user callback supplied by the harness.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs from /repo's working tree into /verif/_build (git-ignored, keyed by content). 'python3 vf/check.py replay FILE' re-executes a reported violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
