#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers), from seeded/*/meta.json and tools/seeds/results.json (what tryseed.sh showed)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = json.load(open(V + '/tools/seeds/results.json'))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json')); rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), R.get(d, m['property'] + ' (quick)')))
s = open(V + '/DESIGN.md').read(); a, b = '<!-- seeds -->', '<!-- /seeds -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(V + '/DESIGN.md', 'w').write(s)
