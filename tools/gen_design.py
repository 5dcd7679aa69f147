#!/usr/bin/env python3
# Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/strengthened.json.
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st = json.load(open(V + '/tools/strengthened.json'))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    s = st.get(i, '')
    rows.append('| %s: %s | %s | %s |' % (i, d['what_it_breaks'].strip().rstrip('.').replace('|', '/').replace('\n', ' '), 'missed' if s.startswith('missed') else d['property'], s))
p = V + '/DESIGN.md'; t = open(p).read()
a = t.index('| --- | --- | --- |\n') + len('| --- | --- | --- |\n')
b = t.index('\n\n', a) if '\n\n' in t[a:] else len(t)
open(p, 'w').write(t[:a] + '\n'.join(rows) + t[b:])
