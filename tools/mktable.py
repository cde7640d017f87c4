#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    also = d.get('missed')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['what_it_breaks'].replace('|', '\\|'), d['needs'].replace('|', '\\|'), 'missed' if also else d['property']))
p = V + '/DESIGN.md'
s = open(p).read()
mark = '<!-- planted bugs -->\n'
s = s.replace('CATCHTABLE\n', mark).split(mark)[0].rstrip('\n') + '\n\n' + mark + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
