#!/usr/bin/env python3
"""Write DESIGN.md from design.src.md, the planted bugs and the known findings."""
import os, json, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(top + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (top, d)))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
fixes = []
for l in open(top + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixes.append("* %s `%s`: %s" % m.groups())
s = open(top + "/tools/design.src.md").read()
s = s.replace("@@SEEDS@@", "\n".join(rows)).replace("@@FIXES@@", "\n".join(fixes))
open(top + "/DESIGN.md", "w").write(s)
