#!/usr/bin/env python3
"""python3 checks/run.py PROPERTY [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Check, Broken
import defs


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn = defs.CHECKS[pid]
    c = Check(pid, tier, defs.LEVEL.get(pid, "model_checking"), seed)
    try:
        rc = fn(c)
    except Broken as e:
        print(f"check {pid} gives no answer: {e}")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
