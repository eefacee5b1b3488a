#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks/*.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = {}
for n in sorted(os.listdir(V + "/checks")):
    specs.update(json.load(open(V + "/checks/" + n)))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in specs:
        s = specs[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
          "thorough_cmd": "python3 check.py %s thorough" % i, "technique": s["technique"],
          "level": s["level"], "level_note": s["level_note"]})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
