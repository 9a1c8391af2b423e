#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys
sys.setrecursionlimit(10000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ffstatic import report

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("ffstatic.rules." + prop.lower())
    sys.exit(report.run(prop, mod.run, tier))
