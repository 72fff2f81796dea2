#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(R + "/DESIGN.md").read()
mark = "## Planted bugs"
d = d[:d.index(mark)] if mark in d else d
t = mark + """

Each was written from the property's text and the code, confirmed in a scratch worktree (compiles, the
existing tests pass, its demonstration fails only with it), and then run against the quick check of
its property (`tools/hunt.sh`). All those below are caught (exit 1, VIOLATION line).

| property = check that catches it | bug | what it needs |
|---|---|---|
"""
rows = []
for f in glob.glob(R + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
for r in sorted(rows):
    t += "| %s | %s | %s |\n" % r
t += """
Missed at first, and what was strengthened: a mutable access of an absent key that inserted (P18 now
includes `get_mut` of absent keys in the reads); lazy trees claiming exactness (P15 got the lazy
expressions); keys beyond 36 bits in materialising (P11 got depth 7 and 8); writes through shared views
(P26 histories now write through `key_values_mut`); more than 17 operands (P07/P08 got 16..33).
"""
open(R + "/DESIGN.md", "w").write(d + t)
