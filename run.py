#!/usr/bin/env python3
"""python3 run.py PROPERTY [--tier quick|thorough] [--seed N]

exit 0: the property held on everything explored
exit 1: VIOLATION property=.. replay=..
exit 2: the machinery failed
"""
import sys
sys.dont_write_bytecode = True
import argparse
import os
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
import checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    try:
        return core.run_check(checks.load(a.property), a.tier, a.seed)
    except core.MachineryError as e:
        print("MACHINERY ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
