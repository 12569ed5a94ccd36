#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique=t[0], level="model_checking", level_note=t[1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 vlib/vbuild.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; no hooks in /repo (interception is by link-time wrapping in the harness).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
