#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, Z = '<!-- bugs -->', '<!-- /bugs -->'
rows = ['| bug | check | needs | breaks |', '|---|---|---|---|']
for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(p))
    c = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append(f"| {p.split(os.sep)[-2]} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
i, j = s.index(A) + len(A), s.index(Z)
open(f, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
