#!/usr/bin/env python3
"""DESIGN.md = design_head.md + a section per property (from props.py and the check modules) + design_tail.md"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
H = props.HERE
out = open(os.path.join(H, "tools/design_head.md")).read()
out += "\n# Properties\n"
for p in props.P:
    out += "\n## %s %s\n\n" % (p["id"], p["title"])
    out += "*Decided by*: %s.\n\n*Quantifies over*: %s.  *Why tests cannot*: %s\n\n" % (p["technique"], p["quantifier"]["text"], p["why_tests_cant"])
    m = os.path.join(H, "checks", p["id"] + ".py")
    if os.path.exists(m):
        t = open(m).read()
        d = re.match(r'\s*"""(.*?)"""', t, re.S)
        if d:
            out += d.group(1).strip() + "\n\n"
    else:
        out += "(check not built yet)\n\n"
    out += "*Bounds*: %s\n" % p["note"]
t = os.path.join(H, "tools/design_tail.md")
if os.path.exists(t):
    out += "\n" + open(t).read()
open(os.path.join(H, "DESIGN.md"), "w").write(out)
