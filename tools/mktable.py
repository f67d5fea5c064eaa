#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cat = json.load(open(os.path.join(top, "tools", "catches.json")))
rows = ["| id | property | needs | quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(top, "seeded"))):
    m = json.load(open(os.path.join(top, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], cat.get(i, "not run yet")))
fn = os.path.join(top, "DESIGN.md")
s = open(fn).read()
k = s.index("## Planted bugs")
k = s.index("\n\n", s.index("`seeded/", k))
open(fn, "w").write(s[:k] + "\n\n" + "\n".join(rows) + "\n")
