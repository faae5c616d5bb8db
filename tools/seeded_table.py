#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    t = [" ".join(m[k].replace("|", "/").split()) for k in ("needs", "what_it_breaks")]
    rows.append(f"| {i} | {t[0]} | {t[1]} |")
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
d = open(here + "/DESIGN.md").read()
head, rest = d.split(a)
tail = rest.split(b)[1]
open(here + "/DESIGN.md", "w").write(head + a + "| change | needs | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n" + b + tail)
