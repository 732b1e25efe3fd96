"""seedtable.py: writes the table of planted bugs into DESIGN.md, with the results tools/seedtest.sh recorded"""
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(root, 'tools', 'seed_results.txt')):
    i, p, demo, check = l.split()
    res[i] = 'caught by ' + p if check == '1' else 'missed' if check == '0' else 'no answer (%s)' % check
rows = []
for i in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    rows.append((m['property'], i, m['needs'], m['what_it_breaks'], res.get(i, 'not run')))
rows.sort()
t = ['| bug | needs | breaks | result |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % r[1:] for r in rows]
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- table -->'), s.index('<!-- end -->')
open(p, 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(t) + '\n' + s[b:])
