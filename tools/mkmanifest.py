#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        s = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py " + p, "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
