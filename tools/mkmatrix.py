"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json and seeded/caught.json"""
import json
import os
import re

V = '/verif'
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| planted change | manifests with | caught by |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), caught.get(d, '–')))
s = open(V + '/DESIGN.md').read()
a, b = '<!-- matrix -->', '<!-- end matrix -->'
i, j = s.index(a) + len(a), s.index(b)
open(V + '/DESIGN.md', 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
