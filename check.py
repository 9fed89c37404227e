#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough] [--only SUB] | check.py --replay FILE"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import prop
if sys.argv[1] == "--replay":
    sys.exit(prop.replay(sys.argv[2]))
only = None
scale = 1.0
a = sys.argv[1:]
if "--only" in a:
    i = a.index("--only"); only = a[i + 1]; del a[i:i + 2]
if "--scale" in a:
    i = a.index("--scale"); scale = float(a[i + 1]); del a[i:i + 2]
sys.exit(prop.run_check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"), only, scale))
