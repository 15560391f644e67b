#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(here + '/seeded'):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    rows.append((m['property'], i, m['needs'], m['what_it_breaks']))
rows.sort()
table = '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + ''.join(f'| `{i}` | {p} | {n} | {b} |\n' for p, i, n, b in rows)
d = open(here + '/DESIGN.md').read()
d = re.sub(r'\| bug \| caught by .*?\n(?!\|)', lambda m: table, d, count=1, flags=re.S)
open(here + '/DESIGN.md', 'w').write(d)
