#!/usr/bin/env python3
"""Rewrites the generated tables at the end of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], cell(m["what_it_breaks"]), cell(m["needs"])))
t = "| change | caught by | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, b = "<!-- plants -->\n", "<!-- /plants -->\n"
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(p, "w").write(s)
print(len(rows), "plants")
