#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "tools", "claims.py")).read())  # CLAIMS, NA, NOTES
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMS:
        continue
    tech, note = CLAIMS[i]
    checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": LEVEL, "level_note": note})
m = {"version": 1, "setup_cmd": "bash run.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in props if p["id"] not in CLAIMS],
     "notes": NOTES}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
