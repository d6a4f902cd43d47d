#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties (checks/defs.py) and properties.jsonl.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "checks"))
import defs
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in defs.CHECKS:
        tech, note = defs.NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 checks/run.py {i} quick", "thorough_cmd": f"python3 checks/run.py {i} thorough",
                       "technique": tech, "level": defs.LEVEL.get(i, "model_checking"), "level_note": note})
    else:
        na.append({"property": i, "reason": defs.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the real library by the drivers in harness/. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
