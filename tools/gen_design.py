#!/usr/bin/env python3
"""Rewrite the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split("<!-- seeds -->")[0]
rows = ["| planted bug | caught by | what breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {', '.join(m.get('caught_by', [m['property']]))} | {m['what_it_breaks']} |")
open(p, "w").write(head + "<!-- seeds -->\n\n" + "\n".join(rows) + "\n")
