"""P21-P24: what the command does with files, derived from its main function."""
import absint
import gentpl
import models
from fsmodel import *
from inst import NoReturn
from terms import *


KINDS = ['Other', 'NotFound', 'PermissionDenied', 'AlreadyExists', 'InvalidData', 'IsADirectory', 'NotADirectory', 'Interrupted', 'UnexpectedEof']


class Cli:
    def __init__(self, rep):
        self.rep = rep
        p = self.p = gentpl.dump()
        mains = [i for i, b in enumerate(p.bodies) if b['path'] == 'main' and b['crate'] != 'packetc_lib']
        if len(mains) != 1:
            raise absint.Anchor('the main function of the command')
        self.bid = mains[0]
        comp = [i for i, b in enumerate(p.bodies) if b['crate'] == 'packetc_lib' and b['path'].split('::')[-1] == 'compile' and b['nargs'] == 1]
        if not comp:
            raise absint.Anchor('the compile function')

        def opaque(eng, st, args, rty, site):
            return models.effect('compile')(eng, st, args, None, rty, site)
        e = absint.Engine(p, models.M, opaque={i: opaque for i in comp})
        e.heads, _ = p.rec_heads(self.bid, set(comp))
        self.eng = e
        self.sm = e.summary(self.bid)
        self.inst = FsInst(e)
        self.outs = [(s, r, {}) for s, r, _ in self.sm['outs']]
        self.outs += [(s, mk('exitcode', e.deep(s, c)), {}) for s, c, _ in e.exits]
        self.is_res = e.is_res(self.bid)
        self.hints()
        self.inst.makers = {x.a[0] for x in self.ops if x.a[0] in ('create_dir', 'create_dir_all')}
        b = p.bodies[self.bid]
        sp = b['ispan']
        self.where = '%s:%s (%s)' % (sp[0], sp[1], b['path'])
        rep.coverage['analysed'] = {'command': {
            'root': b['path'], 'outcomes': len(self.outs),
            'recursive_functions': {p.bodies[h]['path']: len(self.inst.summary(h)['outs']) for h in e.rec},
            'loops_summarised': len([k for k, v in e.loops_seen.items() if v]), 'loops_not_summarised': len(e.loop_fail),
            'unmodelled_functions': sorted(e.unknown), 'file_operations': sorted({'%s in %s' % (x.a[0], x.a[3][0]) for x in self.ops}),
            'names_in_conditions': sorted(self.names), 'numbers_in_conditions': sorted(self.nums)}}
        rep.assumptions += ['file and path functions of the standard library behave as documented (Unix paths)',
                            'the derived outcomes are compared with the rules on a finite family of file trees and failing operations, '
                            'extended by every name and number the conditions mention']
        self.n = self.stuck = 0

    def hints(self):
        self.names, self.nums, self.ops = set(), set(), set()
        roots = [(s, r) for s, r, _ in self.outs]
        for h in self.eng.rec:
            roots += [(s, r) for s, r, _ in self.inst.summary(h)['outs']]
        seen = set()

        def cond(t):
            for x in absint.subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.t == 'str':
                    for q in x.a[0]:
                        if isinstance(q, str) and 0 < len(q) < 40 and '\n' not in q:
                            self.names.add(q)
                elif x.t == 'lin' and x.a[0]:
                    self.nums.add(abs(x.a[0]))
        for s, r in roots:
            for f in s.facts:
                cond(f)
            for x in absint.subterms(s.mem[absint.EV]):
                if x.t == 'ev' and len(x.a) > 3:
                    self.ops.add(x)
                if x.t == 'if':
                    for q, _ in x.a[0]:
                        cond(q)
        self.names -= {'invalid path'}

    def opts(self, path, out):
        ty = None
        for t in self.p.types:
            if t['k'] == 'adt' and t.get('path', '').split('::')[-1] == 'Opts' and t.get('variants'):
                ty = t
        if ty is None:
            raise Stuck('options')
        texts = [path, out]
        fs = []
        for f in ty['variants'][0]['fields']:
            ft = self.p.types[f['ty']]
            if ft.get('enum'):
                fs.append(V([v['name'] for v in ft['variants']].index('TypeScript') if 'TypeScript' in [v['name'] for v in ft['variants']] else 0, []))
            elif texts:
                fs.append(texts.pop(0))
            else:
                raise Stuck('options')
        return V(0, fs)

    def run(self, sc):
        """('ok' | 'err' | 'none', events)"""
        i = self.inst
        i.tree = sc.tree
        i.memo = {}
        env = {'#frame': 0, mk('sym', 'opts'): self.opts(sc.path, sc.out)}
        try:
            (s, r, _), e2 = i.choose1(self.outs, env, 'the command')
            v = i.ev(r, e2) if (self.is_res or r.t == 'exitcode') else V(0, [])
        except NoReturn as e:
            return 'none', []
        evs = i.events({'st': s, 'env': e2})
        if not isinstance(v, V):
            raise Stuck('result of main')
        return ('ok' if v.variant == 0 else 'err'), evs

    def each(self, scs):
        for sc in scs:
            for k in KINDS:
                self.inst.kind, self.inst.kind_used = k, False
                try:
                    r, evs = self.run(sc)
                except Stuck as e:
                    self.stuck += 1
                    self.rep.unsure('tree ' + sc.label, str(e))
                    break
                self.n += 1
                sc.kind = k if self.inst.kind_used else None
                yield sc, r, evs
                if not self.inst.kind_used:
                    break

    def done(self, what):
        self.rep.coverage.setdefault('file_trees', {})[what] = {'decided': self.n, 'undecided': self.stuck}
        self.n = self.stuck = 0


def opened(rep):
    try:
        return Cli(rep)
    except absint.Anchor as e:
        rep.error('%s was not found' % e)
        return None


# ---------------------------------------------------------------- scenarios

class Scenario:
    def __init__(self, label, nodes, path, out, faults=(), order=False):
        self.label = label
        nodes = {p: ('text of ' + p if t == '' else t) for p, t in nodes.items()}
        self.tree = Tree(nodes, faults, order)
        self.path, self.out = path, out
        self.faults = list(faults)
        self.kind = None

    def expected(self):
        """{source: (text, resolved output)}"""
        tr = self.tree
        r = resolve(self.path)
        if tr.nodes.get(r, '') is not None:
            if r not in tr.nodes:
                return {}
            return {r: (tr.nodes[r], resolve(join(self.out, with_extension(file_name(self.path), 'ts'))))}
        res = {}
        pre = r if r.endswith('/') else r + '/'
        for q, t in tr.nodes.items():
            if t is not None and q.startswith(pre) and split_name(file_name(q))[1] == 'pkt':
                res[q] = (t, resolve(join(self.out, with_extension(q[len(pre):], 'ts'))))
        return res

    def show(self):
        return 'packetc ts %s %s\n    %s%s' % (
            self.path, self.out, ', '.join(repr(p[len(CWD) + 1:] if p.startswith(CWD + '/') else p) + ('/' if t is None else '')
                                           for p, t in sorted(self.tree.nodes.items()) if p not in ('/', CWD)),
            ''.join('\n    fails: %s %s%s' % (o, p, ' (%s)' % self.kind if self.kind else '') for o, p in self.faults))


def files(*ps):
    return {p: '' for p in ps}


BIG = files('in/a.pkt', 'in/b.PKT', 'in/c.pkt.bak', 'in/.pkt', 'in/pkt', 'in/d.txt', 'in/e.f.pkt', 'in/.hidden.pkt', 'in/noext',
            'in/x.pktx', 'in/x.pk', 'in/x.xpkt', 'in/sp ace.pkt', 'in/ünï.pkt', 'in/dir.pkt/g.pkt', 'in/sub/a.pkt', 'in/sub/deep/deeper/h.pkt',
            'in/.dot/k.pkt', 'in/sub/in/z.pkt', 'in/a/b.pkt', 'in/a.b.pkt', 'in/a.ts', 'in/pkts/q.pkt', 'in/out/r.pkt', 'in/v1.2/s.3.pkt',
            'in/_under.pkt', 'in/UPPER.pkt', 'in/index.pkt', 'in/a.pkt.pkt', 'in/ts.ts.pkt', 'in/sub/noext', 'in/trailing..pkt', 'in/target/t.pkt',
            'in/node_modules/n.pkt', 'in/tests/t.pkt', 'in/123.pkt', 'in/dead.PKT/in.pkt')
BIG['in/empty'] = None
MID = files('in/a.pkt', 'in/m/b.pkt', 'in/m/n/c.pkt', 'in/z.pkt', 'in/m/other.txt', 'in/m/n/d.pkt')
ROOTS = [('in', 'out'), ('./in', './out'), ('in/', 'out/'), ('/w/in', '/w/out'), ('in', 'new/deep/out'), ('in/sub', 'out'),
         ('in/v1.2', 'out.d/x.y'), ('in', 'in'), ('in', '.'), ('in', 'in/gen'), ('.', 'out'), ('../w/in', 'out'), ('in/sub/deep', '../w/out')]


def plain_trees(cli):
    for path, out in ROOTS:
        for order in (False, True):
            yield Scenario('big %s to %s%s' % (path, out, ' reversed' if order else ''), BIG, path, out, order=order)
    yield Scenario('one file in a directory', files('in/a.pkt'), 'in', 'out')
    yield Scenario('one file deep down', files('in/a/b/c/d/e/f/g/h/i/j.pkt'), 'in', 'out')
    yield Scenario('no schema', files('in/a.txt', 'in/sub/b.md'), 'in', 'out')
    d = {'in': None}
    yield Scenario('empty directory', d, 'in', 'out')
    yield Scenario('existing outputs', dict(BIG, **{'out/a.ts': '', 'out/sub/a.ts': 'old' * 100}), 'in', 'out')
    yield Scenario('existing outputs of a file', dict(BIG, **{'out/a.ts': 'old' * 100}), 'in/a.pkt', 'out')
    yield Scenario('many files', files(*['in/f%d.pkt' % i for i in range(40)]), 'in', 'out')
    for n in sorted(cli.nums):
        if n <= 30:
            for k in (n, n + 1, n + 2):
                yield Scenario('depth %d' % k, files('in/' + 'd/' * k + 'x.pkt'), 'in', 'out')
        if n <= 300:
            for k in (n - 1, n, n + 1, n + 2):
                if k > 0:
                    yield Scenario('%d files' % k, files(*['in/f%d.pkt' % i for i in range(k)]), 'in', 'out')
                    if k < 250:
                        yield Scenario('name of %d' % k, files('in/' + 'n' * k + '.pkt', 'in/' + 'n' * (max(k - 4, 1)) + '.pkt'), 'in', 'out')
    names = set()
    for s in cli.names:
        s = s.strip('/').replace('/', '_')
        if s and s not in ('.', '..'):
            names |= {s, s.lower(), s.upper()}
    for s in sorted(names):
        fs = files('in/%s.pkt' % s, 'in/%s' % s, 'in/x%s' % s, 'in/x.%s' % s, 'in/%sx.pkt' % s, 'in/x%s.pkt' % s, 'in/x.%s.pkt' % s, 'in/a.pkt',
                   'in/sub/%s.pkt' % s, 'in/y%s/m.pkt' % s, 'in/%sy/m.pkt' % s, 'in/x.pkt.%s' % s, 'in/x.pkt%s' % s)
        yield Scenario('names with %s' % s, fs, 'in', 'out')
        yield Scenario('directory %s' % s, files('in/%s/m.pkt' % s, 'in/q/%s/m.pkt' % s, 'in/a.pkt'), 'in', 'out')
        yield Scenario('input %s' % s, files('%s/m.pkt' % s, '%s/q/m.pkt' % s), s, 'out')
        yield Scenario('output %s' % s, files('in/m.pkt', 'in/q/m.pkt'), 'in', s)


def single_files(cli):
    fs = dict(BIG)
    fs.update(files('top.pkt', 'top', 'in/dir.name/v1.2.pkt', 'in/multi.dot.name.pkt', 'in/.pkt.pkt'))
    for p in ['in/a.pkt', 'top.pkt', 'top', 'in/e.f.pkt', 'in/d.txt', 'in/noext', 'in/.pkt', 'in/sub/deep/deeper/h.pkt', '/w/in/a.pkt', './in/a.pkt',
              'in/dir.name/v1.2.pkt', 'in/multi.dot.name.pkt', 'in/b.PKT', './top.pkt', 'in/ünï.pkt', 'in/.hidden.pkt', 'in/c.pkt.bak',
              'in/../in/a.pkt', 'in/a.pkt.pkt', 'in/sub/in/z.pkt', 'in/.pkt.pkt', 'in/trailing..pkt', 'in/a.ts']:
        for o in ['out', 'out/', 'new/deep', '.', '/w/out', 'dots.v1/out.d', './out', '..', 'in/sub', 'in']:
            yield Scenario('file %s to %s' % (p, o), fs, p, o)
    for s in sorted(cli.names):
        s = s.strip('/').replace('/', '_')
        if s and s not in ('.', '..'):
            for n in ('%s.pkt' % s, s, 'x' + s, s + 'x.pkt', 'x.' + s, '%s/m.pkt' % s):
                yield Scenario('file %s' % n, files(n), n, 'out')


def fault_trees(cli):
    """(scenario, is the failure before anything may be written)"""
    for path, out in [('in', 'out'), ('in/', './out'), ('/w/in', 'new/deep')]:
        for order in (False, True):
            tag = '%s to %s%s' % (path, out, ' reversed' if order else '')

            def sc(what, nodes, *faults):
                return Scenario('%s: %s' % (tag, what), nodes, path, out, faults, order)
            base = sc('', MID)
            srcs = base.expected()
            yield sc('input missing', files('other/a.pkt')), True
            yield sc('input not accessible', MID, ('stat', path)), True
            for d in ('in', 'in/m', 'in/m/n'):
                yield sc('listing of ' + d, MID, ('list', d)), True
            for f in srcs:
                yield sc('entry ' + f, MID, ('entry', f)), True
            for d in ('in/m', 'in/m/n'):
                yield sc('entry ' + d, MID, ('entry', d)), True
            for f, (t, o) in srcs.items():
                yield sc('reading ' + f, MID, ('read', f)), True
                yield sc('compiling ' + f, MID, ('compile', t)), True
                yield sc('writing ' + o, MID, ('write', o)), False
            for d in sorted({o.rsplit('/', 1)[0] for _, o in srcs.values()}):
                yield sc('creating ' + d, MID, ('mkdir', d)), False
            # several at once, and only the last one
            ts = [t for t, _ in srcs.values()]
            yield sc('compiling all', MID, *[('compile', t) for t in ts]), True
            yield sc('writing all', MID, *[('write', o) for _, o in srcs.values()]), False
            yield sc('an empty schema', dict(MID, **{'in/m/b.pkt': ' '}), ('compile', ' ')), True
            for f, (t, o) in srcs.items():
                yield sc('directory at ' + o, dict(MID, **{o: None})), False
                if o.rsplit('/', 1)[0] != resolve(out):
                    yield sc('file at ' + o.rsplit('/', 1)[0], dict(MID, **{o.rsplit('/', 1)[0]: 'x'})), False
            yield sc('file at the output directory', dict(MID, **{out: 'x'})), False
            yield sc('name not UTF-8', dict(MID, **{'in/m/\udcff.pkt': ''})), None
            yield sc('directory not UTF-8', dict(MID, **{'in/\udcff/b.pkt': ''})), None
            yield sc('only one and it fails', files('in/a.pkt'), ('compile', 'text of in/a.pkt')), True
            yield sc('only one and it cannot be read', files('in/a.pkt'), ('read', 'in/a.pkt')), True
            yield sc('only one and it cannot be written', files('in/a.pkt'), ('write', join(out, 'a.ts'))), False
            yield sc('missing with another extension', files('in/a.txt', 'in/s/b.pkt'), ('compile', 'text of in/s/b.pkt')), True
    for p in ('in/a.pkt', 'in/m/n/c.pkt', 'in/m/other.txt'):
        for out in ('out', 'new/deep', '.'):
            t = 'text of ' + p
            o = join(out, with_extension(file_name(p), 'ts'))

            def sc(what, nodes, *faults):
                return Scenario('file %s to %s: %s' % (p, out, what), nodes, p, out, faults)
            yield sc('missing', {'in': None}), True
            yield sc('not accessible', MID, ('stat', p)), True
            yield sc('reading', MID, ('read', p)), True
            yield sc('compiling', MID, ('compile', t)), True
            yield sc('empty', dict(MID, **{p: ' '}), ('compile', ' ')), True
            yield sc('writing', MID, ('write', o)), False
            yield sc('directory at ' + o, dict(MID, **{o: None})), False
            if out != '.':
                yield sc('creating', MID, ('mkdir', out)), False
                yield sc('file at the output directory', dict(MID, **{out: 'x'})), False


# ---------------------------------------------------------------- effects

MAKE = ('write', 'create_dir_all', 'create_dir', 'file_create', 'file_options_open', 'write_all', 'rename', 'copy')


def outputs(evs, tree):
    """resolved path -> list of contents written (one per time the file is replaced)"""
    out = {}
    tails = {}
    for _, name, vals, site in evs:
        if name == 'write':
            out.setdefault(resolve(vals[0]), []).append(vals[1])
        elif name == 'file_create':
            out.setdefault(resolve(vals[0]), []).append('')
        elif name == 'file_options_open':
            fl = vals[0][1]
            q = resolve(vals[1])
            if fl.get('write') or fl.get('append'):
                old = (out.get(q) or [tree.nodes.get(q) or ''])[-1]
                out.setdefault(q, []).append(old if fl.get('append') else '')
                if old and not (fl.get('append') or fl.get('truncate') or fl.get('create_new')):
                    tails[q] = old
        elif name in ('write_all', 'write_some'):
            out.setdefault(resolve(vals[0][1]), [''])
            out[resolve(vals[0][1])][-1] += vals[1] if isinstance(vals[1], str) else '?'
        elif name == 'rename':
            src = out.pop(resolve(vals[0]), None)
            if src is None:
                raise Stuck('rename')
            out.setdefault(resolve(vals[1]), []).append(src[-1])
        elif name == 'copy':
            src = out.get(resolve(vals[0]))
            if src is None:
                raise Stuck('copy')
            out.setdefault(resolve(vals[1]), []).append(src[-1])
        elif name in ('remove_file', 'remove_dir_all', 'remove_dir', 'hard_link'):
            raise Stuck(name)
    for q, old in tails.items():
        if q in out:
            out[q][-1] += old[len(out[q][-1]):]
    return out


def at(site):
    if not site:
        return None
    return '%s:%s (%s)' % (site[1][0], site[1][1], site[0])


def where(cli, evs, names):
    for e in evs:
        if e[1] in names and e[3]:
            return at(e[3])
    return cli.where


def rel(p):
    return p[len(CWD) + 1:] if p.startswith(CWD + '/') else p


def check_P21(rep):
    cli = opened(rep)
    if not cli:
        return
    for sc, r, evs in cli.each([s for s, _ in fault_trees(cli)]):
        if r != 'ok':
            rep.ok('tree ' + sc.label)
            continue
        if not sc.faults and sc.tree.exists(sc.path):
            # nothing failed: fine if everything was written
            try:
                done = outputs(evs, sc.tree)
            except Stuck as e:
                rep.unsure('tree ' + sc.label, str(e))
                continue
            if all(code(t) in [x for l in done.values() for x in l] for t, _ in sc.expected().values()):
                rep.ok('tree ' + sc.label)
                continue
        what = sc.faults[0][0] if sc.faults else 'input'
        kind = {'stat': 'the input path cannot be read', 'list': 'a directory cannot be listed', 'entry': 'a directory cannot be listed',
                'read': 'a schema file cannot be read', 'compile': 'a schema file cannot be compiled', 'write': 'an output cannot be written',
                'mkdir': 'an output directory cannot be created', 'input': 'a file or directory was not processed'}[what]
        if what == 'input' and ' at ' in sc.label:
            kind = 'an output cannot be written'
        if what == 'input' and not sc.tree.exists(sc.path):
            kind = 'the input path cannot be read'
        ops = {'stat': ('metadata',), 'list': ('read_dir',), 'entry': ('read_dir',), 'read': ('read_to_string', 'read'), 'compile': ('compile',),
               'write': ('write', 'file_create', 'write_all'), 'mkdir': ('create_dir_all', 'create_dir')}.get(what, ())
        rep.violation('tree ' + sc.label, kind, where(cli, evs, ops), 'every failure makes the command fail',
                      'the command reports success although %s\n  %s' % (kind, sc.show()))
    cli.done('failures')
    for sc, r, evs in cli.each(list(plain_trees(cli)) + list(single_files(cli))):
        if r != 'ok':
            rep.ok('tree ' + sc.label)
            continue
        try:
            done = [x for l in outputs(evs, sc.tree).values() for x in l]
        except Stuck as e:
            rep.unsure('tree ' + sc.label, str(e))
            continue
        miss = [q for q, (t, o) in sc.expected().items() if code(t) not in done]
        if miss:
            rep.violation('tree ' + sc.label, 'success without output', cli.where, 'success means that every schema file was compiled and written',
                          'the command reports success, but nothing is written for %s\n  %s' % (rel(miss[0]), sc.show()))
        else:
            rep.ok('tree ' + sc.label)
    cli.done('no failure')


def check_P22(rep):
    cli = opened(rep)
    if not cli:
        return
    for sc, r, evs in cli.each([s for s, early in fault_trees(cli) if early is True and s.faults and s.faults[0][0] in ('read', 'compile')]):
        made = [e for e in evs if e[1] in MAKE]
        if made:
            rep.violation('tree ' + sc.label, 'created before a failure', at(made[0][3]) or cli.where, 'nothing is created unless every schema compiled',
                          '%s is done although %s fails\n  %s' % (made[0][1], ' '.join(sc.faults[0]), sc.show()))
        else:
            rep.ok('tree ' + sc.label)
    cli.done('failures')
    for sc, r, evs in cli.each(list(plain_trees(cli)) + list(single_files(cli))):
        if r != 'ok':
            rep.unsure('tree ' + sc.label, 'the command fails')
            continue
        first = next((i for i, e in enumerate(evs) if e[1] in MAKE), len(evs))
        late = [e for e in evs[first:] if e[1] in ('read_to_string', 'read', 'compile')]
        if late:
            rep.violation('tree ' + sc.label, 'created before ' + late[0][1], at(evs[first][3]) or cli.where, 'nothing is created unless every schema compiled',
                          '%s is done before %s\n  %s' % (evs[first][1], late[0][1], sc.show()))
            continue
        try:
            done = outputs(evs, sc.tree)
        except Stuck as e:
            rep.unsure('tree ' + sc.label, str(e))
            continue
        texts = {code(t): q for q, t in sc.tree.nodes.items() if t is not None}
        own = {o: q for q, (t, o) in sc.expected().items()}
        w = where(cli, evs, ('write', 'write_all', 'file_create'))
        bad = None
        for p, l in sorted(done.items()):
            if len(l) > 1:
                bad = ('written more than once', '%s is written %d times' % (rel(p), len(l)))
            elif l[0] not in texts:
                bad = ('wrong content', '%s receives %r' % (rel(p), l[0]))
            elif p in own and own[p] != texts[l[0]]:
                bad = ('code of another schema', '%s receives the code of %s' % (rel(p), rel(texts[l[0]])))
            if bad:
                break
        if bad is None:
            n = {}
            for p, l in done.items():
                n.setdefault(l[0], []).append(p)
            dup = [x for x in n.values() if len(x) > 1]
            if dup:
                bad = ('written more than once', 'the same code is written to %s' % ' and '.join(rel(x) for x in dup[0]))
        if bad:
            rep.violation('tree ' + sc.label, bad[0], w, 'each output is written once with the code of its own schema', bad[1] + '\n  ' + sc.show())
        else:
            rep.ok('tree ' + sc.label)
    cli.done('no failure')


def check_P23(rep):
    cli = opened(rep)
    if not cli:
        return
    for sc, r, evs in cli.each(list(plain_trees(cli)) + list(single_files(cli))):
        exp = sc.expected()
        single = sc.tree.isfile(sc.path)
        kind = 'file' if single else 'directory'
        try:
            done = outputs(evs, sc.tree)
        except Stuck as e:
            rep.unsure('tree ' + sc.label, str(e))
            continue
        w = where(cli, evs, ('write', 'file_create'))
        if r != 'ok':
            rep.violation('tree ' + sc.label, 'no output: input is a ' + kind, cli.where, 'the output is written at the mirrored path',
                          'the command fails (%s) although nothing fails in the file system\n  %s' % ('no result' if r == 'none' else 'error', sc.show()))
            continue
        want = {o: q for q, (t, o) in exp.items()}
        extra = sorted(set(done) - set(want))
        miss = sorted(set(want) - set(done))
        # only outputs of files that should be compiled are this property's business
        known = {code(t): o for t, o in exp.values()}
        bad = None
        for p, l in sorted(done.items()):
            if l[-1] in known and known[l[-1]] != p:
                bad = 'the output for %s is written to %s instead of %s' % (rel(want[known[l[-1]]]), rel(p), rel(known[l[-1]]))
                break
        if bad is None and miss and extra:
            bad = '%s is written, %s is not' % (rel(extra[0]), rel(miss[0]))
        if bad:
            rep.violation('tree ' + sc.label, 'output path: input is a ' + kind, w, 'the output is written at the mirrored path', bad + '\n  ' + sc.show())
            continue
        # parents exist when the file is written
        have = set()
        for e in evs:
            if e[1] == 'create_dir_all':
                q = resolve(e[2][0])
                while q != '/':
                    have.add(q)
                    q = q.rsplit('/', 1)[0] or '/'
            elif e[1] == 'create_dir':
                have.add(resolve(e[2][0]))
            elif e[1] in ('write', 'file_create', 'file_options_open'):
                f = e[2][1] if e[1] == 'file_options_open' else e[2][0]
                q = resolve(f).rsplit('/', 1)[0] or '/'
                if q not in have and not sc.tree.isdir(q):
                    bad = 'the directory %s does not exist when %s is written' % (rel(q), rel(resolve(f)))
                    break
        if bad:
            rep.violation('tree ' + sc.label, 'missing parent: input is a ' + kind, w, 'missing parent directories are created', bad + '\n  ' + sc.show())
        else:
            rep.ok('tree ' + sc.label)
    cli.done('no failure')


def check_P24(rep):
    cli = opened(rep)
    if not cli:
        return
    for sc, r, evs in cli.each(list(plain_trees(cli)) + list(single_files(cli))):
        exp = {t: q for q, (t, o) in sc.expected().items()}
        got = [e[2][0] for e in evs if e[1] == 'compile']
        w = where(cli, evs, ('compile',))
        extra = sorted(t for t in got if t not in exp)
        miss = sorted(q for t, q in exp.items() if t not in got)
        if extra:
            rep.violation('tree ' + sc.label, 'compiled though it is no schema file', w, 'nothing but .pkt files is compiled', '%r is compiled\n  %s' % (extra[0], sc.show()))
        elif miss:
            rep.violation('tree ' + sc.label, 'not compiled', cli.where, 'every .pkt file is compiled', '%s is not compiled%s\n  %s' % (
                rel(miss[0]), '' if r == 'ok' else ' (the command fails)', sc.show()))
        else:
            rep.ok('tree ' + sc.label)
    cli.done('no failure')
