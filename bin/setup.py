#!/usr/bin/env python3
"""Builds everything once; a harness that does not build is reported but does not stop the others."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS
need = {}
for c in CHECKS.values():
    for b in c["bins"]:
        need.setdefault(b.get("variant", "rel"), set()).update([b["bin"]] + b.get("needs", []))
bad = 0
for v, t in need.items():
    ok, log = B.build(v, sorted(t))
    if not ok:
        print(log[-3000:])
        bad = 1
sys.exit(bad)
