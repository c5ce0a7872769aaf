"""DESIGN.md from tools/design.md and the table of planted bugs (tools/catch.json: which checks report each)"""
import json, os
V = '/verif'
catch = json.load(open(V + '/tools/catch.json')) if os.path.exists(V + '/tools/catch.json') else {}
rows = ['## Planted bugs', '', 'Each is in `seeded/` with its demonstration; "caught" lists the checks that report it.', '', '| id | property | what it breaks | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), ', '.join(catch.get(i, [])) or 'not measured'))
s = open(V + '/tools/design.md').read().replace('@SEEDS@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
