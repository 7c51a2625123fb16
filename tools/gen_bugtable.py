#!/usr/bin/env python3
"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["what_it_breaks"], m["needs"]))
t = "## Planted bugs\n\nEach is caught by the check of its property (`tools/trybug.sh`, vcheck).\n\n| property | bug | breaks | shows with |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % tuple(x.replace("|", "/").replace("\n", " ") for x in r) for r in sorted(rows))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"## Planted bugs\n.*?(?=\n## |\Z)", "", s, flags=re.S).rstrip() + "\n\n" + t
open(p, "w").write(s)
