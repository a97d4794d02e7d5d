#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, Z = '<!-- seeds -->\n', '<!-- /seeds -->\n'
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(HERE + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/'), m['property']))
p = HERE + '/DESIGN.md'
t = open(p).read()
i, j = t.index(A) + len(A), t.index(Z)
open(p, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
