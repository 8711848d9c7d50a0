#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md: planted.py [ID caught|missed [note]]... ; the verdicts are kept in the table itself."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
text = open(p).read()
head, rest = text.split("<!-- table:planted -->\n", 1)
old = dict(re.findall(r"^\| `([^`]+)` \|.*\| ([^|]*) \|$", rest, re.M))
rest = re.sub(r"^\|.*\n", "", rest, flags=re.M).lstrip("\n")
args = sys.argv[1:]
for i in range(0, len(args), 2):
    old[args[i]] = args[i + 1]
rows = []
for d in os.listdir(os.path.join(V, "seeded")):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append((m["property"], d, "| `%s` | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].rstrip(".").replace("|", "/"), old.get(d, "?"))))
table = "| bug | property | what it breaks | outcome |\n|---|---|---|---|\n" + "\n".join(r[2] for r in sorted(rows))
open(p, "w").write(head + "<!-- table:planted -->\n" + table + "\n\n" + rest)
