#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(V + "/DESIGN.md").read()
mark = "<!-- bugs -->\n"
head = text.split(mark)[0]
notes = {}
if os.path.exists(V + "/tools/bugnotes.json"):
    notes = json.load(open(V + "/tools/bugnotes.json"))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), notes.get(d, m["property"])))
open(V + "/DESIGN.md", "w").write(head + mark + "\n".join(rows) + "\n")
