"""muttable.py: writes the results tools/mutate.py recorded into DESIGN.md"""
import collections
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(root, 'tools', 'mutants', 'results.json')))
c = collections.defaultdict(collections.Counter)
odd = collections.defaultdict(list)
for n, (kind, out) in sorted(res.items()):
    c[n.split(':')[0]][kind, out] += 1
    if (kind, out) not in (('bug', 'reported'), ('ref', 'quiet')):
        odd[{'bug': 'change', 'ref': 'rewrite', 'open': 'open'}[kind] + ', ' + out].append(n)
t = ['Besides these, `tools/mutate.py` tries the changes and behaviour-preserving rewrites in `tools/mutants/`.',
     'Each is compiled and analysed, but the repository\'s tests are not run on it. A change counts as',
     'reported if a check among those listed with it reports it. Recorded results (`forms` and `mix` are of the',
     'analysis as it is now but for the last repair in section 3; most of the others are one version older):', '',
     '| list | changes | reported | rewrites | quiet |', '|---|---|---|---|---|']
tot = collections.Counter()
for l in sorted(c):
    row = [sum(v for (k, o), v in c[l].items() if k == 'bug'), c[l]['bug', 'reported'], sum(v for (k, o), v in c[l].items() if k == 'ref'), c[l]['ref', 'quiet']]
    for i, v in enumerate(row):
        tot[i] += v
    t.append('| %s | %s |' % (l, ' | '.join(map(str, row))))
t.append('| all | %s |' % ' | '.join(str(tot[i]) for i in range(4)))
t += ['', 'The others (undecided means exit 0 with the obligation listed as undecided):', '']
t += ['* %s: %s' % (k, ', '.join('`%s`' % n for n in v)) for k, v in sorted(odd.items())]
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- mutants -->'), s.index('<!-- mutants end -->')
open(p, 'w').write(s[:a] + '<!-- mutants -->\n' + '\n'.join(t) + '\n' + s[b:])
