#!/usr/bin/env python3
"""claim.py PROP SPEC NOTE [fixed-line...] - register a finished property."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(H, "levels.json")
d = json.load(open(p))
if sys.argv[1] != "-":
    d[sys.argv[1]] = {"spec": sys.argv[2], "note": sys.argv[3] + " Trusts TLC, the JSON bridge and the record writer in harness/."}
    json.dump(d, open(p, "w"), indent=1)
k = os.path.join(H, "..", "known_findings.json")
f = json.load(open(k))
f["fixed"] += ["fixed: " + x for x in sys.argv[4:]]
json.dump(f, open(k, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(H, "mkmanifest.py")])
