#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py (patches are made against /repo's HEAD)."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only:
        continue
    out = os.path.join(H, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    patch = ""
    for f in dict.fromkeys(e[0] for e in s["edits"]):
        t = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True, encoding="latin-1").stdout
        n = t
        for e in s["edits"]:
            if e[0] != f:
                continue
            k = e[3] if len(e) > 3 else None
            parts = n.split(e[1])
            if k is None:
                assert len(parts) == 2, (s["id"], f, e[1], len(parts) - 1)
                k = 0
            assert len(parts) > k + 1, (s["id"], e[1])
            n = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
        with tempfile.TemporaryDirectory() as d:
            for x, c in (("a", t), ("b", n)):
                os.makedirs(os.path.join(d, x, os.path.dirname(f)))
                open(os.path.join(d, x, f), "w", encoding="latin-1").write(c)
            patch += subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=d, capture_output=True, text=True, encoding="latin-1").stdout
    open(os.path.join(out, "patch.diff"), "w", encoding="latin-1").write(patch)
    open(os.path.join(out, "demo.sh"), "w").write("#!/bin/bash\n# " + s["breaks"].replace("\n", " ") + "\n" + ('. "$(dirname "$0")/lib.sh"\n' if s.get("lib", 1) else "") + s["demo"].lstrip("\n"))
    if s.get("lib", 1):
        for x in ("lib.sh", "demo.c"):
            shutil.copy(os.path.join(H, "tools/demo", x), out)
    for name, text in s.get("files", {}).items():
        open(os.path.join(out, name), "w").write(text)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
