#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in vsim/props."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    p = os.path.join(V, "vsim", "props", i.lower() + ".py")
    if os.path.exists(p) and i not in NA:
        src = open(p).read()
        note = "the unmodified cernan binary runs under a libc-level deterministic simulator; seeded random schedules and faults, judged by an independent reference model; absence of violations over the explored seeds, not a proof"
        checks.append({"property": i, "quick_cmd": "python3 check.py run %s quick" % i, "thorough_cmd": "python3 check.py run %s thorough" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences", "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "build/build.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
