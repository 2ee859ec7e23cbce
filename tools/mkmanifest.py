#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property modules that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", "props", i.lower() + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "TLA+ specification (%s), TLC; recorded runs of the real code judged by TLC trace specifications" % NOTES[i]["spec"],
                       "level": "model_checking", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "specification and conformance check not built yet")})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC; no hooks in /repo are needed because the public API exposes the abstract state."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
