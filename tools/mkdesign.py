"""Writes DESIGN.md: the text, and a table of the planted bugs."""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
res = {}
f = os.path.join(here, 'measured.json')
if os.path.exists(f):
    res = json.load(open(f))
out = [open(os.path.join(here, 'design_head.md')).read(),
       '| planted bug | property | needs | caught by |', '|---|---|---|---|']
for p in sorted(glob.glob(os.path.join(verif, 'seeded', '*', 'meta.json'))):
    d = json.load(open(p))
    i = os.path.basename(os.path.dirname(p))
    c = [k for k, v in res.get(i, {}).items() if v == 'caught']
    out.append('| %s | %s | %s | %s |' % (
        i, d['property'], d['needs'].replace('|', '/'),
        ', '.join(c) if i in res else 'not measured'))
with open(os.path.join(verif, 'DESIGN.md'), 'w') as o:
    o.write('\n'.join(out) + '\n')
