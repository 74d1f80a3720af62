"""Rewrites the catch table at the end of DESIGN.md from seeded/*/meta.json and tools/seed_history.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hist = json.load(open(os.path.join(here, 'tools', 'seed_history.json')))
rows = []
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append((m['property'], i, m['what_it_breaks'].replace('|', '/'), hist.get(i, 'caught')))
rows.sort()
out = ['| check | planted bug | what it breaks | result |', '|---|---|---|---|']
out += ['| %s | %s | %s | %s |' % r for r in rows]
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
