#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and the git history of /repo."""
import json, subprocess, sys
sys.path.insert(0, "/verif")
from plan import PLAN
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = {"C21": "pure functions of their arguments: no concurrency, time, I/O or multi-party behaviour for a simulated schedule or fault to reach"}
checks = []
for p in props:
    if p not in PLAN: continue
    c = PLAN[p]
    checks.append(dict(property=p, quick_cmd=f"python3 run.py check {p} --tier quick", thorough_cmd=f"python3 run.py check {p} --tier thorough",
        technique="deterministic simulation with fault injection: " + c.get("tech", "seeded search over schedules and faults, invariants and a reference model checked in every simulated run"),
        level="exploration", level_note=c.get("note", "seeded search; nothing is exhausted")))
na = [dict(property=p, reason=NA.get(p, "not built yet")) for p in props if p not in PLAN]
m = dict(version=1, setup_cmd="python3 run.py setup", hooks=dict(guard="none: no hook is needed in /repo, the simulator is compiled in through a build overlay", enable="go build -overlay (see run.py)", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
