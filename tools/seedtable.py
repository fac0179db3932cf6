#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from
seeded/*/meta.json. Caught by: the check of the property, unless meta says otherwise."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(d + '/seeded')):
    m = json.load(open(f'{d}/seeded/{s}/meta.json'))
    rows.append('| %s | %s | %s |' % (s, m.get('caught_by', m['property']), m['needs'].replace('|', '/')))
p = d + '/DESIGN.md'
t = open(p).read()
mark = '<!-- planted changes -->\n'
t = t[:t.index(mark)] + mark + '| change | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(t)
