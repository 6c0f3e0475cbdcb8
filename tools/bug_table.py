#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1]); m = json.load(open(d + "meta.json"))
    esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, esc(m["what_it_breaks"]), esc(m["needs"]), caught.get(i, "not run")))
s = open(V + "/DESIGN.md").read()
k = "<!-- bug table -->"
if k not in s: s = s.rstrip() + "\n\n" + k + "\n"
s = s[:s.index(k)] + k + "\n\n| bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
print(len(rows))
