#!/usr/bin/env python
"""run.py C01 [quick|thorough] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import common

def main():
    a = sys.argv[1:]
    if len(a) > 1 and a[1] == "--replay":
        sys.exit(common.replay(a[0], a[2]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(common.run_check(a[0], tier, int(os.environ.get("VERIF_SEED", "1"))))

main()
