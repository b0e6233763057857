#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
tools/catch.json holds, per planted bug, the checks that report it (filled in by hand after runs)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "<!-- planted bugs -->\n"
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
c = json.load(open(os.path.join(R, "tools/catch.json"))) if os.path.exists(os.path.join(R, "tools/catch.json")) else {}
rows = ["| change | property | breaks | needs | reported by |", "|---|---|---|---|---|"]
ids = [d for d in os.listdir(os.path.join(R, "seeded"))]
for prop, d, m in sorted((json.load(open(os.path.join(R, "seeded", d, "meta.json")))["property"], d, json.load(open(os.path.join(R, "seeded", d, "meta.json")))) for d in ids):
    rows.append("| %s | %s | %s | %s | %s |" % (d, prop, m["what_it_breaks"], m["needs"], ", ".join(c.get(d, [prop]))))
s = s[:s.index(M)] + M + "\n".join(rows) + "\n"
open(p, "w").write(s)
