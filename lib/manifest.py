#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks and properties."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
from not_applicable import NA
m = {"version": 1, "setup_cmd": "make -s -j8 -C tools", "checks": [], "not_applicable": []}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "../properties.jsonl"))]
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i,
                            "technique": c.technique, "level": c.level, "level_note": c.note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no static argument built yet for this property")})
json.dump(m, open(os.path.join(HERE, "../MANIFEST.json"), "w"), indent=1)
