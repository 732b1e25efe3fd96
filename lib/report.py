"""Verdicts, known findings and evidence files."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []     # dicts: key, where, rule, what
        self.undecided = []      # strings
        self.obligations = []    # (name, 'ok' | 'undecided' | 'violated')
        self.coverage = {}
        self.assumptions = []
        self.fatal = None

    def ok(self, name):
        self.obligations.append((name, 'ok'))

    def unsure(self, name, why):
        self.obligations.append((name, 'undecided'))
        self.undecided.append('%s: %s' % (name, why))

    def violation(self, name, key, where, rule, what):
        """key: stable identification without line numbers; where: file:line (function)"""
        self.obligations.append((name, 'violated'))
        if any(v['key'] == key for v in self.violations):
            return
        self.violations.append({'key': key, 'where': where, 'rule': rule, 'what': what})

    def error(self, why):
        """an anchor of the analysis is missing: the check cannot answer"""
        self.fatal = why


def known_findings():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                # known: property=<id> key=<exact key> | <what fails>
                head, what = line[len('known: '):].split(' | ', 1)
                prop, key = head.split(' key=', 1)
                out[(prop[len('property='):], key)] = what
    return out


def finish(rep, technique):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    known = known_findings()
    fresh = []
    for v in rep.violations:
        k = (rep.prop, v['key'])
        if k in known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (rep.prop, known[k], v['where']))
        else:
            fresh.append(v)
    n = len(rep.obligations)
    done = sum(1 for _, s in rep.obligations if s == 'ok')
    cov = {
        'explanation': technique,
        'obligations': n,
        'discharged': done,
        'undecided': sum(1 for _, s in rep.obligations if s == 'undecided'),
        'obligation_list': [{'obligation': a, 'result': b} for a, b in rep.obligations][:400],
    }
    cov.update(rep.coverage)
    if rep.undecided:
        cov['undecided_notes'] = rep.undecided[:100]
    ev = {
        'property': rep.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'wall_s': round(time.time() - rep.t0, 3), 'violations': len(fresh),
        'assumptions': rep.assumptions,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated' % (
        rep.prop, n, done, cov['undecided'], len(rep.violations)))
    for u in rep.undecided[:20]:
        print('undecided: ' + u)
    if fresh:
        rp = os.path.join(ROOT, 'evidence', rep.prop + '.violation.txt')
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('%s\n  rule: %s\n  %s\n  key: %s\n\n' % (v['where'], v['rule'], v['what'], v['key']))
        for v in fresh:
            print('%s: %s' % (v['where'], v['rule']))
            print('    ' + v['what'].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    if rep.fatal:
        print('ERROR: %s' % rep.fatal)
        return 3
    return 0
