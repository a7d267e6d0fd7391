#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not part of any check)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in os.listdir(here + '/seeded'):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs'], m['what_it_breaks']))
txt = open(here + '/DESIGN.md').read()
head = '| bug | property | needs | what breaks |\n|---|---|---|---|\n'
txt = txt[:txt.index(head)] + head + ''.join(f'| {d} | {p} | {n} | {w} |\n' for p, d, n, w in sorted(rows))
open(here + '/DESIGN.md', 'w').write(txt)
