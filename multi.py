#!/usr/bin/env python3
"""multi.py [ids...]: run several checks in one process, sharing the compiled
program (a convenience for development; not registered in the manifest)."""
import os
import traceback
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
import framework

sys.setrecursionlimit(20000)
import checks

checks.load()
tier = os.environ.get("VERIF_TIER", "quick")
bad = []
for i in sys.argv[1:] or sorted(framework.CHECKS):
    try:
        r = framework.main(i, tier, evidence=False)
    except Exception:
        traceback.print_exc()
        r = 9
    if r:
        bad.append("%s=%d" % (i, r))
print("NONZERO:", " ".join(bad) or "none")
