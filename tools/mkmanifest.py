#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        tech, note = plan.NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick",
                            "thorough_cmd": f"python3 tools/check.py {i} thorough",
                            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
