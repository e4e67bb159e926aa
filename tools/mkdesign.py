"""Rewrites the seed table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- seeds -->'
text = open(H + '/DESIGN.md').read()
head = text.split(MARK)[0]
rows = ['| planted bug | what it breaks | needs |', '|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s |' % (n, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
open(H + '/DESIGN.md', 'w').write(head + MARK + '\n' + '\n'.join(rows) + '\n')
