#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from a sweep (JSON: id -> [property, caught, family, seconds])."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sweep = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
rows = []
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    x = sweep.get(d)
    fam = "?" if x is None else (x[2] if x[1] else "missed")
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {fam} |")
p = f"{here}/DESIGN.md"
s = open(p).read()
a, _, _ = s.partition("<!-- table -->")
open(p, "w").write(a + "<!-- table -->\n| bug | check that catches it | needs | family |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
