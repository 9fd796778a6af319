#!/usr/bin/env python3
"""Applies each planted bug to /repo in turn, runs its property's quick check, undoes it (not part of any check)."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(root, "seeded")))
for i in ids:
    d = os.path.join(root, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, prop, "DOES NOT APPLY", flush=True)
        continue
    try:
        p = subprocess.run([sys.executable, os.path.join(root, "tools/check.py"), prop, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    l = [x for x in p.stdout.splitlines() if "not a behaviour" in x or "does not follow" in x or "ended the process" in x or "BROKEN" in x]
    print(i, prop, {1: "caught", 0: "MISSED"}.get(p.returncode, f"rc={p.returncode}"), (l or [""])[0][:160], flush=True)
