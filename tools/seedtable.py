#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(V + '/seeded'), key=lambda s: int(s[1:])):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    f = re.search(r'^\+\+\+ b/CHECLabPy/(\S+)',
                  open(f'{V}/seeded/{s}/patch.diff').read(), re.M).group(1)
    t = m['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    rows.append(f'| {s} | {m["property"]} | {f} | {t[:150]} |')
p = V + '/DESIGN.md'
t = open(p).read()
a = t.index('| id | caught by |')
b = t.index('\n\n', a)
t = t[:a] + '| id | caught by | file | breaks |\n|---|---|---|---|\n' + \
    '\n'.join(rows) + t[b:]
open(p, 'w').write(t)
