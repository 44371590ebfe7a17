"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
head = open(p).read().split('\n| bug | needs |')[0].rstrip()
rows = ['| bug | needs | breaks |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
open(p, 'w').write(head + '\n\n' + '\n'.join(rows) + '\n')
