#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- runs the check of one property (cwd-independent)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, plans

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(vlib.Check(pid, tier, seed).run(plans.PLANS[pid]))
