#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json and
seeded/caught.json (seeded id -> list of checks that reported it)."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__)); S = os.path.join(V, 'seeded')
c = json.load(open(os.path.join(V, 'caught.json'))) if os.path.exists(os.path.join(V, 'caught.json')) else {}
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(c.get(d, [])) or 'missed'))
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
t = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = s.replace('SEEDED_TABLE', t) if 'SEEDED_TABLE' in s else re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
