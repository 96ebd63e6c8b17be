#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": notes[i]["technique"],
            "level": "model_checking",
            "level_note": notes[i]["note"]})
    else:
        na.append({"property": i,
                   "reason": notes.get(i, {}).get("na", "check under construction")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks are needed; all "
                     "checks use the public API of the unmodified code",
                     "source_commits": []}},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
