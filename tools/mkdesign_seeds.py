#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seeds/caught.json."""
import glob, json, os, re
V = "/verif/"
caught = json.load(open(V + "tools/seeds/caught.json")) if os.path.exists(V + "tools/seeds/caught.json") else {}
rows = []
for f in sorted(glob.glob(V + "seeded/*/meta.json")):
    n, m = f.split("/")[-2], json.load(open(f))
    rows.append((m["property"], n, m["what_it_breaks"], caught.get(n, "")))
rows.sort()
t = "\n## Planted bugs\n\nMade with `tools/seeds/mkseed.py`; the last column says what its property's quick check said (seconds).\n\n| property | bug | what it breaks | quick check |\n|---|---|---|---|\n"
t += "".join(f"| {p} | {n} | {w} | {c} |\n" for p, n, w, c in rows)
d = open(V + "DESIGN.md").read()
d = re.split(r"@@SEEDS@@\n|\n## Planted bugs\n", d)[0].rstrip() + "\n" + t
open(V + "DESIGN.md", "w").write(d)
