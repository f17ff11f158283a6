#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
import framework

if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    a = sys.argv[1:]
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    sys.modules["framework"] = framework
    sys.exit(framework.main(a[0], tier))
