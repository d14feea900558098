"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['needs'].replace('|', '/').replace('\n', ' '), m['property']))
p = V + '/DESIGN.md'
s = open(p).read()
h = '| bug | needs | caught by |\n|---|---|---|\n'
a = s.index(h) + len(h)
rest = s[a:].split('\n')
k = 0
while k < len(rest) and rest[k].startswith('|'):
    k += 1
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n' + '\n'.join(rest[k:]))
