#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.

Only the record is written from seeded/; no check reads it.
"""
import json, os, re, textwrap
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    by.setdefault(m["property"], []).append(d)
lines = []
for p in sorted(by):
    lines += textwrap.wrap("* %s: %s" % (p, ", ".join(by[p])), 79, subsequent_indent="  ", break_on_hyphens=False)
path = root + "/DESIGN.md"
s = open(path).read()
new = "<!-- planted -->\n" + "\n".join(lines) + "\n<!-- end -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", new)
else:
    s = re.sub(r"<!-- planted -->.*<!-- end -->", lambda _: new, s, flags=re.S)
open(path, "w").write(s)
