#!/usr/bin/env python3
"""usage: check.py PROPERTY    (environment: VERIF_SEED, VERIF_TIER)"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
from vlib import Broken, Check


def main():
    prop = sys.argv[1] if len(sys.argv) > 1 else ""
    f = checks.CHECKS.get(prop)
    if f is None:
        print(f"no check for {prop!r}; there are {' '.join(sorted(checks.CHECKS))}")
        return 2
    os.makedirs(checks.TARGET, exist_ok=True)
    c = Check(prop)
    try:
        f(c)
    except Broken as e:
        print(f"ERROR: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    c.finish()


if __name__ == "__main__":
    sys.exit(main())
