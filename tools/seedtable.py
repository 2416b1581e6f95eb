#!/usr/bin/env python3
"""rewrites the table of planted bugs of DESIGN.md (a document; no check reads it)"""
import collections
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    by[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
table = "| check | catches |\n|---|---|\n" + "".join(f"| {p} | {', '.join(v)} |\n" for p, v in sorted(by.items()))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a = s.index("| check | catches |")
b = s.index("\n\n", a) + 1
open(p, "w").write(s[:a] + table + s[b:])
