#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Properties without a check go under not_applicable with a reason."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
ORACLE = {}
exec(open(HERE + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds its harness against /repo's working tree. No hooks in /repo are needed: the monitors observe the public interface."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
