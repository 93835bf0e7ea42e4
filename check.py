#!/usr/bin/env python3
"""python3 check.py <property id>  --  VERIF_TIER=quick|thorough, VERIF_SEED=n"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.harness import run_main

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module('props.' + pid.lower())
    run_main(pid, mod.check)
