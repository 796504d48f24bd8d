#!/usr/bin/env python3
"""The table of planted changes in DESIGN.md: seedtable.py <log of tryseeds.py>..."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(c\d\d-\S+)\s+C\d\d rc=\d (.*)', l)
        if m: res[m.group(1)] = m.group(2).strip()
rows = ['| planted change | property | needs | outcome of the check |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r = res.get(i, '?')
    r = {'CAUGHT': 'caught, with an input', 'CAUGHT (no input)': 'caught by the failed obligation (no input)', 'MISSED': 'missed'}.get(r, r)
    rows.append('| `%s` | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), r))
p = V + '/DESIGN.md'; s = open(p).read()
a = '<!-- seedtable -->\n'; z = '<!-- /seedtable -->'
t = a + '\n'.join(rows) + '\n' + z
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(re.escape(a) + '.*?' + re.escape(z), lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
