#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import plans

NA = {}
TECH = "TLA+ specification ({m}); recorded executions of the real code, driven by generated scenarios and perturbed schedules, decided by TLC against the specification's guards for this property"
NOTE = ("Every execution explored is decided exactly by the specification (trace validation with TLC, {m}); the set of executions is sampled: "
        "generated scenarios, run undisturbed and with goroutines held at chosen points, in virtual time where possible. "
        "Trusts the recorder's order of events, the go scheduler below the yield points, and miniredis as a stand-in for redis.")

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        mods = sorted({plans.FAMILIES[r[0]].module for r in pl.rows} | {m[0] for m in pl.models})
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.format(m=", ".join(mods)), "level": pl.level,
                       "level_note": NOTE.format(m=", ".join(mods))})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none: the checks instrument a copy through 'go test -overlay', /repo carries no hooks",
               "enable": "lib/vf.py builds the driver with an overlay generated by harness/instr", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
