#!/usr/bin/env python3
"""check.py <property id> [--thorough]"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from rules.registry import CHECKS


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod, fn, meta = CHECKS[pid]
    try:
        m = importlib.import_module("rules." + mod)
        rc = core.run_check(pid, getattr(m, fn), tier, meta)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % pid)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
