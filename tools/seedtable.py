#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md"""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read(); h = '## 8. Table of planted bugs\n'
rows = []
extra = json.load(open(V + '/tools/caughtby.json')) if os.path.exists(V + '/tools/caughtby.json') else {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    c = ', '.join([m['property']] + [x for x in extra.get(d, []) if x != m['property']])
    rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), c))
open(V + '/DESIGN.md', 'w').write(s[:s.index(h)] + h + '\n| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
