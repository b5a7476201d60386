#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 bin/check.py {p} quick", "thorough_cmd": f"python3 bin/check.py {p} thorough",
                 "technique": "model checking: " + CHECKS[p]["technique"], "level": "model_checking", "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "no check has been built yet"} for p in props if p not in CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
