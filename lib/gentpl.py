"""The generator's output template, its instantiations, and their TypeScript structure."""
import json
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
import absint
import models
import inst
import report
import pipe
from inst import Shape, BUILTINS, Stuck

HERE = os.path.dirname(os.path.abspath(__file__))


def dump():
    out = os.path.join(report.ROOT, '.build', 'dump-%d.json' % os.getpid())
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(['bash', os.path.join(report.ROOT, 'tools', 'dump.sh'), out], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise absint.Anchor('the sources do not compile to an analysable representation:\n' + (r.stdout + r.stderr)[-1500:])
    try:
        return absint.Prog(out)
    finally:
        os.unlink(out)


def find_root(prog, name, want):
    """body by path suffix, else by the predicate `want(body)`"""
    b = prog.find(name)
    b = [x for x in b if not x['path'].endswith('}')]
    if not b:
        b = [x for x in prog.bodies if want(x)]
    if len(b) != 1:
        raise absint.Anchor('%d candidates for %s' % (len(b), name))
    return prog.bodies.index(b[0])


def strip_ref(prog, ty):
    t = prog.types[ty]
    while t['k'] == 'ref':
        ty = t['t']
        t = prog.types[ty]
    return ty, t


def is_generate(prog):
    def f(b):
        if b['nargs'] != 1 or prog.types[b['locals'][0]].get('path') != 'std::string::String':
            return False
        return strip_ref(prog, b['locals'][1])[1].get('path', '').endswith('check::Resolved')
    return f


class Template:
    def __init__(self, prog):
        self.p = prog
        self.bid = find_root(prog, 'gen::generate', is_generate(prog))
        e = absint.Engine(prog, models.M)
        e.heads, _ = prog.rec_heads(self.bid, set())
        self.eng = e
        self.sm = e.summary(self.bid)
        self.inst = inst.Inst(e)
        self.builder = inst.Builder(prog)
        self.ty = strip_ref(prog, prog.bodies[self.bid]['locals'][1])[0]
        arg = self.sm['args'][0]
        self.arg = arg.a[0] if arg.t == 'vref' else arg
        self.roots = [self.sm] + [self.inst.summary(h) for h in e.rec]

    def text(self, shape, perm=None):
        return self.fill(self.builder.resolved(self.ty, shape, perm))

    def fill(self, v):
        """the code for a resolved schema"""
        env = {self.arg: v}
        (s, r, _), env = self.inst.choose(self.sm['outs'], env, 'the generator')
        if s.mem[absint.EV].a:
            raise Stuck('effects')
        return self.inst.ev(r, env)

    def guards(self):
        """all guard atoms of the template"""
        out = set()
        for sm in self.roots:
            for s, r, leaves in sm['outs']:
                for p in s.facts:
                    out.add(p)
                for t in absint.subterms([r] + list(leaves.values()) + list(s.facts)):
                    if t.t == 'if':
                        for p, _ in t.a[0]:
                            out.add(p)
                    elif t.t == 'forall':
                        for g in t.a[2]:
                            for p, _ in g:
                                out.add(p)
        return out

    def alternatives(self):
        out = set()
        for sm in self.roots:
            for s, r, leaves in sm['outs']:
                for t in absint.subterms([r] + list(leaves.values())):
                    if t.t == 'if':
                        out.add(t)
        return out

    def hints(self):
        """string literals and list lengths the guards compare with"""
        names, lens = set(), set()
        look = [g for g in self.guards() if g.t not in ('variant', 'forall', 'notin')]
        for sm in self.roots:
            for s, r, leaves in sm['outs']:
                look += [t for t in absint.subterms([r] + list(leaves.values())) if t.t in ('app', 'slice', 'trunc')]
                for t in absint.subterms([r] + list(leaves.values())):
                    if t.t in ('take', 'skip', 'stepby') and absint.const_int(t.a[1]) is not None and absint.const_int(t.a[1]) <= 300:
                        lens.add(('len', absint.const_int(t.a[1])))
                    if t.t in ('trunc', 'slice'):
                        for x in t.a[1:]:
                            if absint.const_int(x) is not None and 0 < absint.const_int(x) <= 300:
                                lens.add(('slen', absint.const_int(x)))
        for g in look:
            for t in absint.subterms(g):
                if t.t == 'str' and all(isinstance(x, str) for x in t.a[0]):
                    s = ''.join(t.a[0])
                    if re.fullmatch(r'[A-Za-z][A-Za-z0-9]*', s):
                        names.add(s)
                    elif re.fullmatch(r'[A-Za-z0-9]+', s):
                        names.add('x' + s)
                elif t.t == 'chr' and chr(t.a[0]).isalnum():
                    names.add('x' + chr(t.a[0]) + 'x')
                elif t.t == 'lin' and t.a[1]:
                    for x, k in t.a[1]:
                        if x.t in ('len', 'idx', 'slen'):
                            n = abs(t.a[0])
                            if n <= 300:
                                lens.add((x.t, n))
        return names, lens


MODS = [(False, False), (True, False), (False, True)]


def enum_of(n, pre='V'):
    return ('enum', ['%s%d' % (pre, (i * 7) % 100) for i in range(n)])


def shapes(names, lens):
    out = []
    # names deliberately out of alphabetical order
    leaf = []
    i = 0
    for b in ['string', 'uint8', 'int32', 'float', 'uint16', 'int8', 'uint32', 'int16']:
        for a, o in MODS:
            i += 1
            leaf.append(('%s%s' % ('zyxwvutsrq'[i % 10], 'abcdefghijklmnopqrstuvwxyz'[i % 26] + str(i)), b, a, o))
    leaf += [('en%d' % k, 'Enu', a, o) for k, (a, o) in enumerate(MODS)]
    leaf += [('aa', 'Wide', False, False), ('wi', 'Mid9', True, False)]
    types = {
        'Zenum': enum_of(3), 'Enu': enum_of(2), 'Wide': enum_of(20), 'Mid9': enum_of(9),
        'Nil': ('struct', []),
        'Leaf': ('struct', leaf),
        'Mid': ('struct', [('z', 'uint8', False, False)] + [('l%d' % k, 'Leaf', a, o) for k, (a, o) in enumerate(MODS)] +
                [('e%d' % k, 'Nil', a, o) for k, (a, o) in enumerate(MODS)] + [('b', 'string', False, False)]),
        'Deep': ('struct', [('m%d' % (3 - k), 'Mid', a, o) for k, (a, o) in enumerate(MODS)] + [('a', 'float', False, True)]),
        'Apex': ('struct', [('t%d' % (9 - k), 'Deep', a, o) for k, (a, o) in enumerate(MODS)] +
                 [('s%d' % k, 'Mid', a, o) for k, (a, o) in enumerate(MODS)] +
                 [('r%d' % k, 'Leaf', a, o) for k, (a, o) in enumerate(MODS)] +
                 [('n%d' % k, 'Nil', a, o) for k, (a, o) in enumerate(MODS)] +
                 [('q%d' % k, 'Zenum', a, o) for k, (a, o) in enumerate(MODS)] + leaf),
    }
    out.append(Shape('nested', types, 'Apex'))
    # every enum size
    et = {'En%d' % n: enum_of(n) for n in range(1, 33)}
    et['Top'] = ('struct', [('f%d' % n, 'En%d' % n, a, o) for n in range(1, 33) for a, o in MODS[:1]] +
                 [('g%d%d' % (n, k), 'En%d' % n, a, o) for n in (1, 2, 8, 9, 16, 17, 31, 32) for k, (a, o) in enumerate(MODS)])
    for k in list(et['Top'][1]):
        pass
    out.append(Shape('enums', et, 'Top'))
    # every field kind on its own
    for b in BUILTINS + ['Enu', 'Inner']:
        for a, o in MODS:
            t = {'Solo': ('struct', [('only', b, a, o)])}
            if b == 'Enu':
                t['Enu'] = enum_of(2)
            if b == 'Inner':
                t['Inner'] = ('struct', [('x', 'float', False, False)])
            out.append(Shape('single %s%s%s' % (b, '[]' if a else '', '?' if o else ''), t, 'Solo'))
    out.append(Shape('empty', {'Void': ('struct', [])}, 'Void'))
    # every pair of field kinds, in the exported and in a nested struct
    kinds = [(b, a, o) for b in ('uint8', 'string', 'E8', 'E32', 'Sub', 'Nil') for a, o in MODS]
    for i, k1 in enumerate(kinds):
        for j, k2 in enumerate(kinds):
            t = {'E8': enum_of(2), 'E16': enum_of(11), 'E32': enum_of(18), 'Nil': ('struct', []),
                 'Sub': ('struct', [('y', 'int16', False, False), ('x', 'float', False, True)])}
            fs = [('p',) + k1, ('k',) + k2]
            if (i + j) % 2:
                t['Pair'] = ('struct', fs)
            else:
                t['Pair'] = ('struct', [('w', 'Inn') + MODS[(i // 2 + j) % 3]])
                t['Inn'] = ('struct', fs)
            need = set()
            todo = ['Pair']
            while todo:
                n = todo.pop()
                if n not in need and n in t:
                    need.add(n)
                    todo += [f[1] for f in t[n][1]] if t[n][0] == 'struct' else []
            out.append(Shape('pair %s / %s' % (k1, k2), {n: t[n] for n in t if n in need}, 'Pair'))
    # related type names
    for ex, ns in (('Test', ['TestItem', 'ATest', 'Tes', 'test', 'TestTest', 'TEST']), ('B', ['A', 'BB', 'AB', 'BA', 'b'])):
        t = {n: ('struct', [('x', 'uint8', False, False)] + ([('y', 'En' + ns[k], False, True)])) for k, n in enumerate(ns)}
        for k, n in enumerate(ns):
            t['En' + n] = enum_of(k + 1)
        t[ex] = ('struct', [('f%d' % k, n) + MODS[k % 3] for k, n in enumerate(ns)])
        out.append(Shape('related names ' + ex, t, ex))
        t2 = {n: enum_of(2 + k) for k, n in enumerate(ns)}
        t2[ex] = t[ex]
        out.append(Shape('related enum names ' + ex, t2, ex))
    # names that look like the generator's own
    special = ['item', 'len', 'index', 'temp', 'output', 'reader', 'writer', 'data', 'buffer', 'length', 'failed', 'value',
               'name', 'type', 'x', 'A', 'mixedCase', 'Upper9', 'num2'] + sorted(names)
    special = list(dict.fromkeys(n for n in special if n not in BUILTINS and n not in ('enum', 'struct')))
    for b in ['uint8', 'string', 'Enu', 'Low']:
        for a, o in MODS:
            fs = [(n, b, a, o) for n in special]
            out.append(Shape('names %s%s%s' % (b, '[]' if a else '', '?' if o else ''), {
                'Top': ('struct', [(n, 'Inn', a, o) for n in special] + [('own', b, a, o)]),
                'Inn': ('struct', fs), 'Low': ('struct', [('item', 'float', False, False), ('len', 'string', True, False)]),
                'Enu': enum_of(2),
            } if b in ('Enu',) else {
                'Top': ('struct', [(n, 'Inn', a, o) for n in special] + [('own', b, a, o)]),
                'Inn': ('struct', fs), 'Low': ('struct', [('item', 'float', False, False), ('len', 'string', True, False)]),
            } if b == 'Low' else {
                'Top': ('struct', [(n, 'Inn', a, o) for n in special] + [('own', b, a, o)]),
                'Inn': ('struct', fs),
            }, 'Top'))
    for n in sorted(names):
        if n in BUILTINS or n in ('enum', 'struct'):
            continue
        out.append(Shape('type named ' + n, {
            n: ('struct', [('x', 'float', False, False)]), 'Top': ('struct', [('f', n, a, o) for a, o in MODS[:1]] + [('g', 'Enu', False, False)]),
            'Enu': ('enum', [n, 'Other'])}, 'Top'))
        out.append(Shape('enum named ' + n, {n: enum_of(3), 'Top': ('struct', [('f', n, False, False), ('g', n, True, False)])}, 'Top'))
        out.append(Shape('export named ' + n, {n: ('struct', [('f', 'uint8', False, False), (n, 'Sub', False, False)]),
                                               'Sub': ('struct', [(n, 'string', True, False)])}, n))
    # names that stand for several things
    for f in ('Enu', 'Sub', 'Top', 'V0', 'x'):
        out.append(Shape('fields named ' + f, {'Enu': enum_of(3), 'Sub': ('struct', [('x', 'float', False, False)]), **{
            'T%d%d' % (i, j): ('struct', [(f, u, a, o)]) for i, u in enumerate(('Enu', 'Sub', 'string')) for j, (a, o) in enumerate(MODS)},
            'Top': ('struct', [(f, 'Sub', False, False)] + [('k%d%d' % (i, j), 'T%d%d' % (i, j), False, False) for i in range(3) for j in range(3)])}, 'Top'))
        for u in ('Enu', 'Sub', 'string'):
            for a, o in MODS:
                out.append(Shape('field %s of type %s%s%s' % (f, u, '[]' if a else '', '?' if o else ''), {
                    'Enu': enum_of(3), 'Sub': ('struct', [('x', 'float', False, False)]), 'Top': ('struct', [('a', 'Enu', False, False), ('b', 'Sub', False, False), (f, u, a, o)])}, 'Top'))
    # names that differ in case only, next to each other
    for a, o in MODS:
        fs = [(f, u, a, o) for u, ns in (('uint8', ('id', 'Id', 'ID')), ('Enu', ('en', 'eN')), ('Sub', ('sub', 'SUB')), ('string', ('q', 'Q'))) for f in ns]
        out.append(Shape('case of names%s%s' % ('[]' if a else '', '?' if o else ''), {
            'Enu': ('enum', ['On', 'ON', 'on', 'oN']), 'Sub': ('struct', [('x', 'float', False, False), ('X', 'float', False, False)]),
            'Inn': ('struct', fs), 'Top': ('struct', fs + [('inn', 'Inn', a, o)])}, 'Top'))
    # long names on several levels
    nm = ['PositionOfTheEntity', 'transformOfTheObject', 'descriptionOfTheItem', 'componentsOfTheScene']
    lv = {'L%d' % k: ('struct', [(nm[k] + x, 'L%d' % (k + 1) if k < 3 else u, a, o) for x, u, a, o in (('A', 'Enu', True, False), ('B', 'Enu', False, False), ('C', 'string', True, False))[:2 if k < 3 else 3]])
          for k in range(4)}
    out.append(Shape('long names', {'Enu': enum_of(3), **lv}, 'L0'))
    # variants with underscores
    for n in (1, 8, 9, 16, 17, 32):
        vs = [('_V%d', 'V%d', 'V_%d', 'V%d_')[k % 4] % (k * 7 % 100) for k in range(n)]
        out.append(Shape('%d variants with underscores' % n, {'Enu': ('enum', vs), 'Top': ('struct', [('f', 'Enu', False, False), ('g', 'Enu', True, False), ('h', 'Enu', False, True)])}, 'Top'))
    # list lengths the generator distinguishes
    ns = {5}
    for _, n in lens:
        ns |= {max(n - 1, 0), n, n + 1, n + 2}
    for n in sorted(ns):
        fs = [('f%d' % ((k * 7919) % 10007), BUILTINS[k % 8], *MODS[k % 3]) for k in range(n)]
        out.append(Shape('%d fields' % n, {'Many': ('struct', fs), 'Top': ('struct', fs + [('sub', 'Many', False, False), ('subs', 'Many', True, False)])}, 'Top'))
        nm = 'n' * max(n, 1)
        out.append(Shape('name of %d' % n, {nm + 'T': ('struct', [(nm, 'uint8', False, False), (nm + 'b', 'string', True, False)]),
                                            'Top': ('struct', [(nm, nm + 'T', True, False), ('k', nm + 'T', False, False)])}, 'Top'))
        if n > 1:
            out.append(Shape('joined name of %d' % n, {
                'Enu': enum_of(2), 'Sub': ('struct', [(nm[:n // 2] + x, u, a, o) for x, u, a, o in (('a', 'Enu', True, False), ('b', 'Enu', False, False), ('c', 'Enu', True, False), ('d', 'string', False, True))]),
                'Top': ('struct', [(nm[n // 2:] + x, 'Sub', a, o) for x, (a, o) in zip('xyz', MODS)])}, 'Top'))
    return out


def node(items):
    env = dict(os.environ)
    r = subprocess.run(['node', '--stack-size=8000', os.path.join(HERE, 'tsir.js')], input=json.dumps(items), capture_output=True, text=True, env=env)
    if r.returncode != 0:
        raise absint.Anchor('TypeScript front end failed: ' + r.stderr[-800:])
    return json.loads(r.stdout)


class Generated:
    """everything the generator properties look at"""

    def __init__(self, rep):
        self.rep = rep
        self.prog = dump()
        self.tpl = Template(self.prog)
        names, lens = self.tpl.hints()
        self.shapes = shapes(names, lens)
        self.items = []
        self.stuck = []
        pp = pipe.pipe_or_none(rep, self.prog)
        through = 0
        for s in self.shapes:
            try:
                t = self.tpl.text(s)
                # what compile makes of it
                out = pp and pp.output('', t)
                if out is not None:
                    t = out
                    through += 1
                self.items.append((s, t))
            except Stuck as e:
                self.stuck.append((s, str(e)))
        self.res = node([{'name': s.name, 'text': t} for s, t in self.items]) if self.items else []
        self.lines = [t.split('\n') for _, t in self.items]
        alts = self.tpl.alternatives()
        e = self.tpl.eng
        rep.coverage.update({
            'root': self.prog.bodies[self.tpl.bid]['path'],
            'functions_analysed': len(e.analysed), 'functions': sorted(self.prog.bodies[b]['path'] for b in e.analysed),
            'call_sites': len(e.callsites), 'loops_summarised': len(e.loops_seen),
            'recursive_functions': sorted(self.prog.bodies[b]['path'] for b in e.rec),
            'template_alternatives': len(alts), 'template_alternatives_instantiated': len(alts & self.tpl.inst.used),
            'guard_atoms': len(self.tpl.guards()), 'shapes': len(self.shapes), 'shapes_instantiated': len(self.items),
            'names_from_guards': sorted(names), 'followed_through_compile': through,
        })
        self.uncovered = alts - self.tpl.inst.used
        for s, why in self.stuck[:5]:
            rep.unsure('instantiate ' + s.name, why)
        if not self.items and not self.stuck:
            rep.error('no shape instantiated')

    def each(self):
        for (s, t), r, ls in zip(self.items, self.res, self.lines):
            yield s, r, ls

    def where(self, line):
        """source location of the literal a generated line comes from"""
        return locate(line)


_src = None


def locate(line):
    global _src
    d = os.path.join(report.REPO, 'src', 'lib', 'gen')
    if _src is None:
        _src = []
        for fn in sorted(os.listdir(d)):
            if not fn.endswith('.rs') or fn == 'rust.rs':
                continue
            fun = '?'
            for n, l in enumerate(open(os.path.join(d, fn), encoding='utf-8', errors='replace'), 1):
                if '#[cfg(test)]' in l:
                    break
                m = re.search(r'\bfn (\w+)', l)
                if m:
                    fun = m.group(1)
                for lit in re.findall(r'"((?:[^"\\]|\\.)*)"', l):
                    frags = [f.replace('{{', '{').replace('}}', '}').replace('\\n', '').replace('\\"', '"')
                             for f in re.split(r'(?<!\{)\{(?!\{)[^}]*\}', lit)]
                    frags = [f.strip() for f in frags if len(f.strip()) > 1]
                    if frags:
                        _src.append((frags, 'src/lib/gen/' + fn, n, fun))
    best = None
    for frags, fn, n, fun in _src:
        sc = 0
        at = 0
        for f in frags:
            k = line.find(f, at)
            if k < 0:
                sc = -1
                break
            at = k + len(f)
            sc += len(f)
        if sc > 0 and (best is None or sc > best[0]):
            best = (sc, fn, n, fun)
    if best:
        return '%s:%d (%s)' % best[1:]
    return 'src/lib/gen/ts.rs'
