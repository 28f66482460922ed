#!/usr/bin/env python3
"""Run one property's check: check.py <property-id> [quick|thorough]"""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
import harness
from props import REGISTRY


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod, args = REGISTRY[pid]
    try:
        res = importlib.import_module("props." + mod).run(pid, tier, **args)
    except harness.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % pid)
        return 3
    return harness.finish(pid, res, t0, tier)


if __name__ == "__main__":
    sys.exit(main())
