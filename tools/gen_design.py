#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check that catches it | needs | effect |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append(f"| {p.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
d = os.path.join(here, "DESIGN.md")
s = open(d).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(d, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
