"""mutate.py [LIST[:NAME]]...: applies the changes in tools/mutants/*.py one at a time to scratch clones of /repo, analyses each
with the checks of its properties and records the outcome in tools/mutants/results.json. Nothing of a changed tree is run."""
import glob
import importlib
import json
import os
import queue
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(dump, props):
    sys.path.insert(0, os.path.join(root, 'lib'))
    sys.setrecursionlimit(20000)
    import absint
    import gentpl
    import report
    gentpl.dump = lambda: absint.Prog(dump)
    ns = {}
    s = open(os.path.join(root, 'check.py')).read()
    exec(s[s.index('TECH = {'):s.index('def main')], ns)
    res = {}
    for p in props:
        rep = report.Report(p)
        try:
            getattr(importlib.import_module(ns['TECH'][p][0]), 'check_' + p)(rep)
            res[p] = {'violations': [v['key'] for v in rep.violations][:3], 'undecided': [str(u)[:200] for u in rep.undecided][:3], 'error': str(rep.fatal or '')}
        except Exception as e:
            res[p] = {'violations': [], 'undecided': [], 'error': repr(e)[:200]}
    print('RESULT ' + json.dumps(res))


def main():
    base = os.environ.get('MUTATE_DIR', '/tmp/mutate')
    n = int(os.environ.get('MUTATE_JOBS', '5'))
    os.makedirs(base, exist_ok=True)
    q = queue.Queue()
    for i in range(n):
        d = '%s/r%d' % (base, i)
        if not os.path.exists(d):
            subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        q.put(d)
    todo = []
    for f in sorted(glob.glob(os.path.join(root, 'tools', 'mutants', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        l = os.path.basename(f)[:-3]
        for m in ns['M']:
            if not sys.argv[1:] or l in sys.argv[1:] or l + ':' + m[0] in sys.argv[1:]:
                todo.append((l + ':' + m[0],) + tuple(m[1:]))
    path = os.path.join(root, 'tools', 'mutants', 'results.json')
    results = json.load(open(path)) if os.path.exists(path) else {}

    def run(x):
        name, kind, props, edits = x
        d = q.get()
        t = time.time()
        try:
            subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'])
            for f, es in edits.items():
                s = open(d + '/' + f, newline='').read().replace('\r\n', '\n')
                for o, new in es:
                    if s.count(o) != 1:
                        return name, kind, 'stale', '%d matches of %r' % (s.count(o), o[:50])
                    s = s.replace(o, new)
                open(d + '/' + f, 'w').write(s)
            env = dict(os.environ, VERIF_REPO=d)
            r = subprocess.run(['bash', root + '/tools/dump.sh', d + '.json'], env=env, capture_output=True, text=True)
            if r.returncode:
                return name, kind, 'does not compile', (r.stdout + r.stderr)[-900:]
            try:
                r = subprocess.run([sys.executable, os.path.abspath(__file__), '--one', d + '.json'] + props, env=env, capture_output=True, text=True, timeout=3000)
            except subprocess.TimeoutExpired:
                return name, kind, 'timeout', ''
            l = [y for y in r.stdout.split('\n') if y.startswith('RESULT ')]
            if not l:
                return name, kind, 'error', r.stderr[-300:]
            res = json.loads(l[0][7:])
            v = [p for p in res if res[p]['violations']]
            u = [p for p in res if res[p]['undecided']]
            e = [p for p in res if res[p]['error']]
            out = 'reported' if v else 'error' if e else 'undecided' if u else 'quiet'
            return name, kind, out, ' '.join(v or e or u) + ' ' + str([(res[p]['violations'] or res[p]['error'] or res[p]['undecided']) for p in (v or e or u)][:1])[:260] + ' %d s' % (time.time() - t)
        finally:
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        for name, kind, out, what in ex.map(run, todo):
            flag = '' if (kind, out) in (('bug', 'reported'), ('ref', 'quiet')) else ' <--'
            print(name, kind, out, what[:330] if flag else what[-6:], flag, flush=True)
            results[name] = [kind, out]
            json.dump(results, open(path, 'w'), indent=0, sort_keys=True)


if sys.argv[1:2] == ['--one']:
    one(sys.argv[2], sys.argv[3:])
else:
    main()
