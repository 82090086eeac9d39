#!/usr/bin/env python3
"""Writes the table of the seeded changes and the checks which catch them into DESIGN.md, from tools/plants/results.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/plants/results.json"))
rows = ["| change | property | what it needs | checks |", "| --- | --- | --- | --- |"]
n = c = 0
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    r = {k: v for k, v in res.get(i, {}).items() if k != "confirmed"}
    t = ", ".join("%s %s" % (k, v) for k, v in sorted(r.items())) or "not run"
    n += 1
    c += any(v == "caught" for v in r.values())
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), t))
d = open(V + "/DESIGN.md").read()
a = d.index("<!-- SEEDED -->")
d = d[:a] + "<!-- SEEDED -->\n\n%d changes, %d caught by a check run as registered, with VERIF_SEED=1 (made by `tools/seeded_table.py`).\n\n" % (n, c) + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(d)
print(n, c)
