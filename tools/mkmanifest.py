#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.runner import static_meta
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(V, "tools", "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(path) and i not in NA:
        m = static_meta(i)
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python run.py %s" % i,
            "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % i,
            "technique": m.get("TECHNIQUE", "property-based testing: generated cases against an explicit oracle (hypothesis), shrunk to a replay file"),
            "level": "exploration",
            "level_note": m.get("NOTE", m["RULE"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
