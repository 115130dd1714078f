#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "notes": "Every check: python3 run.py <property> [quick|thorough]; see DESIGN.md. The checks need no hooks in /repo: no guarded code was added."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                              "evidence_file": "evidence/%s.json" % i, "technique": checks.technique(i), "level": checks.level(i), "level_note": checks.note(i)})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_YET})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
