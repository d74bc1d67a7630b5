#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m.get("caught", m["property"]), m["needs"], m["what_it_breaks"]))
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t)
else:
    s = re.sub(r"\| bug \| caught by.*?(?=\n\n)", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
