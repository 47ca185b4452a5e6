#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: property -> (technique, level note)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
from manifest_data import CLAIMED, NA
checks = []
for i in ids:
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup",
     "hooks": {"guard": "none", "enable": "No hooks: every check uses the public macro and the code it generates, built from /repo's working tree.", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "No check built yet.")} for i in ids if i not in CLAIMED],
     "notes": "Runtime monitoring. DESIGN.md describes the method; known-findings.txt lists findings and repairs."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
