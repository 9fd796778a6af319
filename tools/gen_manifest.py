#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans that exist and the property list."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plans
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(here, "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick",
                       "thorough_cmd": f"python3 tools/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check still under construction in this session"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
