#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md (between the header row and the next blank line)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
p = V + "/DESIGN.md"
s = open(p).read()
head = "|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])
