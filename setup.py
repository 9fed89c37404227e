"""Sanity check of the tool chain; the checks build everything else themselves."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build as B
print(B.build(B.cfg("hydro"), "-O0"))
