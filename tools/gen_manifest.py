#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has props/<id>.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        t = TECH.get(i, {})
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": t.get("technique", "runtime monitoring"), "level": "exploration",
                            "level_note": t.get("note", "Holds on every execution explored; not a proof.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
