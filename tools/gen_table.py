#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it needs |", "|---|---|---|"]
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s = open(f"{here}/DESIGN.md").read()
a = s.index("@TABLE@") if "@TABLE@" in s else s.index("| change | property |")
b = s.index("\n\nChanges that turned out")
open(f"{here}/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + s[b:])
