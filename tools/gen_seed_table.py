#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = os.path.join(V, 'DESIGN.md')
d = open(p).read()
mark = '<!-- planted bugs -->\n'
d = d[:d.index(mark) + len(mark)]
d += '| change | caught by the check of | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(d)
