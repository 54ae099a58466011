#!/usr/bin/env python3
"""development aid: rewrite the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and tools/catches.tsv"""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rep = {}
p = H + '/tools/catches.tsv'
if os.path.exists(p):
    for l in open(p):
        i, t = l.rstrip('\n').split('\t', 1)
        rep[i] = t
rows = {}
for d in sorted(glob.glob(H + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.setdefault(m['property'], []).append(os.path.basename(d))
out = ['| property | planted bug: first case of the quick check that reports it |', '|---|---|']
for c in sorted(rows):
    out.append('| %s | %s |' % (c, '; '.join('`%s`%s' % (i, ': ' + rep[i] if i in rep else '') for i in rows[c])))
t = open(H + '/DESIGN.md').read()
a, b = '<!-- table -->', '<!-- /table -->'
t = t[:t.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + t[t.index(b):]
open(H + '/DESIGN.md', 'w').write(t)
print(sum(map(len, rows.values())), 'bugs')
