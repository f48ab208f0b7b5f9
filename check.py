#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":      # same iteration order, hence same report, on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tool"))
import harness
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(harness.main(sys.argv[1], tier if tier in ("quick", "thorough") else "quick"))
