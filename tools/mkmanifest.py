#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check module."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
INFO = json.load(open(R + "/tools/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(R + "/lib/checks/%s.py" % i.lower()) and i in INFO:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": INFO[i]["technique"],
                       "level": INFO[i].get("level", "model_checking"), "level_note": INFO[i]["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; no hooks in /repo are needed. See DESIGN.md."},
          open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
