#!/usr/bin/env python3
"""Writes MANIFEST.json: what has a check (vf/checks/cNN.py) is claimed, the rest is listed with a reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CLAIMS and os.path.exists(os.path.join(V, "vf", "checks", p.lower() + ".py")):
        tech, level, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check " + p + " thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": NOT_YET.get(p, "no check yet: work in progress")})
json.dump({"version": 1, "setup_cmd": "python3 -m vf.build", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
