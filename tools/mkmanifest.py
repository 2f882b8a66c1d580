#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(H, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": PLAN[i]["technique"], "level": "model_checking", "level_note": PLAN[i]["note"]})
    else:
        na.append({"property": i, "reason": "not claimed yet: its specification and conformance driver are still being built"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
