#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for d in sorted(os.listdir(root + "/seeded")):
    p = json.load(open(f"{root}/seeded/{d}/meta.json"))["property"]
    t.setdefault(p, []).append(d[len(p) + 1:] if d.startswith(p + "-") else d)
rows = ["| check | planted bugs it catches |", "| --- | --- |"] + [f"| {p} | {', '.join(sorted(l))} |" for p, l in sorted(t.items())]
s = open(root + "/DESIGN.md").read()
s = re.sub(r"\| check \| planted bugs it catches \|\n(\|.*\n)+", "\n".join(rows) + "\n", s)
open(root + "/DESIGN.md", "w").write(s)
