#!/usr/bin/env python3
"""Puts the table of planted changes (from seeded/*/meta.json and the given
matrix file: lines 'ID PROPERTY rc=.. v=.. ..s') into DESIGN.md."""
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        w = l.split()
        if len(w) >= 4 and w[2].startswith('rc='):
            res.setdefault(w[0], {})[w[1]] = 'caught' if w[2] == 'rc=1' and w[3] != 'v=0' else 'missed' if w[2] == 'rc=0' else 'no answer'
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    r = res.get(i, {})
    own = r.get(m['property'], '?')
    also = sorted(p for p, x in r.items() if p != m['property'] and x == 'caught')
    rows.append((m['property'], i, m['needs'], own, ' '.join(also)))
rows.sort()
out = ['| planted change | property | needs | own check | also caught by |', '|---|---|---|---|---|']
for p, i, n, o, a in rows:
    out.append(f'| {i} | {p} | {n} | {o} | {a} |')
d = open(V + '/DESIGN.md').read()
d = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda m: m.group(1) + '\n'.join(out) + '\n' + m.group(2), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
print(len(rows), 'rows;', sum(r[3] == 'caught' for r in rows), 'caught')
