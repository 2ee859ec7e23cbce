#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design/*.md, levels.json, known_findings.json and
seeded/*/meta.json (so that the tables cannot drift from the files)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(H, "..")
D = os.path.join(H, "design")
rd = lambda n: open(os.path.join(D, n)).read().strip() + "\n\n"
out = rd("10_head.md")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
lev = json.load(open(os.path.join(H, "levels.json")))
out += "## Per property\n\nEvery property is decided by the method of the previous sections; what is\nparticular to it follows.\n\n"
for p in props:
    i = p["id"]
    out += "### %s %s\n\n" % (i, p["title"])
    if i in lev:
        out += "Specification: %s. %s\n\n" % (lev[i]["spec"], lev[i]["note"].replace(
            " Trusts TLC, the JSON bridge and the record writer in harness/.", ""))
    else:
        out += "Not claimed yet.\n\n"
    f = os.path.join(D, i + ".md")
    if os.path.exists(f):
        out += rd(i + ".md")
out += "## Genuine defects found\n\n"
k = json.load(open(os.path.join(V, "known_findings.json")))
out += "Repaired (each one `fix:` commit in /repo; the check reports it again if it returns):\n\n"
for x in k["fixed"]:
    a = x.split(" ", 3)
    out += "- %s `%s` %s\n" % (a[1].split("=")[1], a[2], a[3])
out += "\nRecorded but not repaired:\n\n"
out += "".join("- %s\n" % json.dumps(x) for x in k["findings"]) or "none\n"
out += "\n" + rd("80_alarms.md")
out += "## Planted bugs\n\n" + rd("90_seeded.md")
out += "| id | property | needs | result |\n|---|---|---|---|\n"
try:
    res = json.load(open(os.path.join(H, "seedresults.json")))
except FileNotFoundError:
    res = {}
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "not run"))
out += "\n" + rd("95_limits.md")
open(os.path.join(V, "DESIGN.md"), "w").write(out)
