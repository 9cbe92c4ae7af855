#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json (maintenance only; no check runs it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["property"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = "| planted | property | what it breaks | caught by |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n## 5.", i)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
