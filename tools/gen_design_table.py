#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.json (which checks were seen to catch which bug)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + "/tools/caught.json"))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = m.split("/")[-2]
    d = json.load(open(m))
    rows.append((d["property"], i, d["what_it_breaks"], d["needs"], ", ".join(caught.get(i, [])) or "none"))
rows.sort()
out = ["| bug | breaks | what it does | needs | caught by |", "|---|---|---|---|---|"]
for p, i, w, n, c in rows:
    out.append("| %s | %s | %s | %s | %s |" % (i, p, w.strip().replace("|", "/"), n.strip().replace("|", "/"), c))
d = open(root + "/DESIGN.md").read()
a, b = "<!-- planted bugs -->", "<!-- end -->"
d = d[:d.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + d[d.index(b):]
open(root + "/DESIGN.md", "w").write(d)
