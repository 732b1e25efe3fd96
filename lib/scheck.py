"""The type checker's derived outcomes, compared with the rules of the schema language.

The abstract interpreter describes the type checker by its outcomes: for every
way it can return, the condition on the parsed schema and the value returned,
with recursive functions described by their own outcomes.  `Checker.result`
looks up which outcome's condition a given schema scheme (a small schema with
placeholder names) fulfils.
"""
import itertools
import sys
from terms import *
import absint
import models
import inst
import gentpl
from inst import V, Stuck, NoReturn, BUILTINS


# ---------------------------------------------------------------- schemes

class Scheme:
    """items: ('enum', name, variants) | ('struct', name, [(field, type, array, optional)]) | ('export', name)"""

    def __init__(self, label, *items):
        self.label = label
        self.items = list(items)

    def text(self):
        out = []
        for it in self.items:
            if it[0] == 'export':
                out.append('export %s' % it[1])
            elif it[0] == 'enum':
                vs = it[2] if len(it[2]) < 8 else it[2][:2] + ['… %d variants' % len(it[2])]
                out.append('enum %s { %s }' % (it[1], ', '.join(vs)))
            else:
                out.append('struct %s { %s }' % (it[1], ', '.join('%s: %s%s%s' % (f, t, '[]' if a else '', '?' if o else '')
                                                                 for f, t, a, o in it[2])))
        return ' ; '.join(out)


    def source(self):
        """as it would be written"""
        out = []
        for it in self.items:
            if it[0] == 'export':
                out.append('export %s\n' % it[1])
            elif it[0] == 'enum':
                out.append('%s: enum { %s }\n' % (it[1], ', '.join(it[2])))
            else:
                out.append('%s: struct {\n%s}\n' % (it[1], ''.join('    %s%s: %s%s,\n' % (f, '?' if o else '', t, '[]' if a else '')
                                                                  for f, t, a, o in it[2])))
        return ''.join(out)


def reference(sch):
    """the rules of the language: ('ok', types, export) | ('err', [(kind, names that must appear)])"""
    errs = []
    exports = [i[1] for i in sch.items if i[0] == 'export']
    decls = [i for i in sch.items if i[0] != 'export']
    names = [d[1] for d in decls]
    for n in sorted(set(names)):
        if names.count(n) > 1:
            errs.append(('duplicate declaration', [n]))
    kinds = {d[1]: d for d in decls}
    for d in decls:
        if d[0] == 'enum':
            if not d[2]:
                errs.append(('empty enum', [d[1]]))
            if len(d[2]) > 32:
                errs.append(('large enum', [d[1]]))
            for v in sorted(set(d[2])):
                if d[2].count(v) > 1:
                    errs.append(('duplicate variant', [v, d[1]]))
        else:
            fs = [f[0] for f in d[2]]
            for f in sorted(set(fs)):
                if fs.count(f) > 1:
                    errs.append(('duplicate field', [f, d[1]]))
            for f in d[2]:
                if f[2] and f[3]:
                    errs.append(('optional array', [f[0], d[1]]))
                if f[1] not in BUILTINS and f[1] not in kinds:
                    errs.append(('unknown type', [f[1]]))
    deps = {}
    for d in decls:
        if d[0] == 'struct':
            deps.setdefault(d[1], set()).update(f[1] for f in d[2])

    def reach(n, seen):
        for m in deps.get(n, ()):
            if m not in seen:
                seen.add(m)
                reach(m, seen)
        return seen
    cyc = [n for n in deps if n in reach(n, set())]
    if cyc:
        errs.append(('recursive type', cyc))
    if not exports:
        errs.append(('no export', []))
    elif len(exports) > 1:
        errs.append(('several exports', []))
    elif exports[0] not in kinds:
        errs.append(('unknown export', [exports[0]]))
        if exports[0] in BUILTINS:
            errs.append(('export of no struct', [exports[0]]))
    elif kinds[exports[0]][0] != 'struct':
        errs.append(('export of no struct', [exports[0]]))
    if errs:
        return ('err', errs)
    used = reach(exports[0], {exports[0]})
    return ('ok', used, exports[0])


# ---------------------------------------------------------------- the derived checker

class Checker:
    def __init__(self, prog):
        self.p = prog
        self.bid = gentpl.find_root(prog, 'check::type_check', self.is_root)
        e = absint.Engine(prog, models.M)
        e.heads, _ = prog.rec_heads(self.bid, set())
        self.eng = e
        self.sm = e.summary(self.bid)
        self.inst = inst.Inst(e)
        self.n = 0
        self.raw = None

    def is_root(self, b):
        t = self.p.types[b['locals'][0]]
        return b['nargs'] == 1 and t.get('path') == RES and self.p.types[t['args'][0]].get('path', '').endswith('check::Resolved')

    # ---- building the parsed schema
    def build(self, ty, s):
        t = self.p.types[ty]
        k = t['k']
        if k == 'ref':
            return self.build(t['t'], s)
        if k in ('str', 'bool'):
            return s
        if k == 'tuple':
            return V(0, [self.build(x, y) for x, y in zip(t['ts'], s)])
        if k == 'adt':
            if absint.kind_of(t) == 'vec':
                return [self.build(t['args'][0], x) for x in s]
            if absint.kind_of(t) == 'str':
                return s
            names = [v['name'] for v in t['variants']]
            last = t['path'].split('::')[-1]
            if last == 'Node':
                if s[0] == 'export':
                    want, args = 'Export', [s[1]]
                else:
                    want, args = 'Decl', [s[1], s]
            elif last == 'Type':
                want, args = ('Enum', [s]) if s[0] == 'enum' else ('Struct', [s])
            elif last in ('Enum', 'Struct'):
                want, args = names[0], [s[2]]
            elif last == 'Unresolved':
                want, args = names[0], list(s)
            else:
                raise Stuck('type %s' % t['path'])
            i = names.index(want)
            fs = t['variants'][i]['fields']
            if len(fs) != len(args):
                raise Stuck('fields of %s' % t['path'])
            return V(i, [self.build(f['ty'], a) for f, a in zip(fs, args)])
        raise Stuck('type %s' % t['name'])

    def ast(self, sch):
        items = []
        for it in sch.items:
            if it[0] == 'struct':
                items.append(('struct', it[1], [(f, (t, a, o)) for f, t, a, o in it[2]]))
            else:
                items.append(it)
        return self.build(self.p.bodies[self.bid]['locals'][1], items)

    # ---- reading the result
    def decode(self, ty, v, d=0):
        if d > 300:
            raise Stuck('depth')
        t = self.p.types[ty]
        k = t['k']
        if k == 'ref':
            return self.decode(t['t'], v, d + 1)
        if k == 'tuple':
            return tuple(self.decode(x, y, d + 1) for x, y in zip(t['ts'], v.f))
        if k != 'adt':
            return v
        path = t['path']
        kind = absint.kind_of(t)
        if path in ('std::rc::Rc', 'std::cell::RefCell', 'std::boxed::Box', 'std::sync::Arc', 'std::cell::Cell'):
            return self.decode(t['args'][0], v, d + 1)
        if kind == 'vec':
            return [self.decode(t['args'][0], x, d + 1) for x in v]
        if kind == 'map':
            return {k2: self.decode(t['args'][1], x, d + 1) for k2, x in v.items()}
        if kind == 'str':
            return v
        if not isinstance(v, V):
            raise Stuck('value of %s' % path)
        va = t['variants'][v.variant]
        fs = [self.decode(f['ty'], x, d + 1) for f, x in zip(va['fields'], v.f)]
        if t['enum']:
            return (va['name'], fs)
        if len(fs) == 1 and va['fields'][0]['name'] == '0':
            return fs[0]
        return {f['name']: x for f, x in zip(va['fields'], fs)}

    def result(self, sch):
        """('ok', decoded) | ('err', message) | ('none', why) ; raises Stuck"""
        self.inst.memo = {}
        self.n += 1
        arg = self.eng.deep(self.sm['st0'], self.sm['args'][0])
        env = {'#frame': 0}
        if arg.t == 'list' and len(arg.a) == 1 and arg.a[0].t == 'for':
            env[arg.a[0].a[0]] = self.ast(sch)
        else:
            env[arg] = self.ast(sch)
        try:
            (s, r, leaves), e2 = self.inst.choose1(self.sm['outs'], env, 'the type checker')
            v = self.inst.ev(r, e2)
        except NoReturn as e:
            return ('none', str(e))
        if not isinstance(v, V):
            raise Stuck('result')
        if v.variant == 1:
            m = v.f[0]
            if not isinstance(m, str):
                raise Stuck('message')
            return ('err', m)
        rt = self.p.types[self.p.bodies[self.bid]['locals'][0]]
        self.raw = v.f[0]
        return ('ok', self.decode(rt['args'][0], v.f[0]))

    # ---- constants the conditions compare with
    def hints(self):
        names, lens = set(), set()
        sums = [self.sm] + [self.inst.summary(h) for h in self.eng.rec]
        for sm in sums:
            for s, r, leaves in sm['outs']:
                for t in absint.subterms(list(s.facts) + [r] + list(leaves.values())):
                    if t.t in ('eq', 'app', 'slice', 'trunc', 'in', 'ins'):
                        for x in absint.subterms(t):
                            c = str_const(x) if x.t == 'str' else None
                            if c and c not in BUILTINS and len(c) < 30 and c.replace('_', 'a').isalnum() and c.isascii():
                                names.add(c if not c[0].isdigit() else 'x' + c)
                            elif x.t == 'chr' and chr(x.a[0]).isalnum():
                                names.add('x' + chr(x.a[0]) + 'x')
                            elif x.t == 'chr' and chr(x.a[0]) == '_':
                                names |= {'_', '_x', 'x_', 'x_y'}
                    if t.t in ('trunc', 'slice'):
                        lens |= {absint.const_int(x) for x in t.a[1:] if absint.const_int(x) is not None and 0 < absint.const_int(x) <= 80}
                    if t.t in ('take', 'skip', 'stepby') and absint.const_int(t.a[1]) is not None and absint.const_int(t.a[1]) <= 80:
                        lens.add(absint.const_int(t.a[1]))
                    if t.t in ('pos', 'eqz') and t.a[0].t == 'lin':
                        for x, k in t.a[0].a[1]:
                            if x.t in ('len', 'idx', 'slen', 'e', 'fld', 'cast', 'arith') and abs(t.a[0].a[0]) <= 80:
                                lens.add(abs(t.a[0].a[0]))
        return names, lens


# ---------------------------------------------------------------- families

MODS = [(False, False), (True, False), (False, True)]


def st(n, *fs):
    return ('struct', n, [(f + (False, False))[:4] if len(f) == 2 else f for f in fs])


def en(n, k):
    return ('enum', n, ['V%d' % ((i * 7) % 97) for i in range(k)])


def ex(n):
    return ('export', n)


LIMIT = 300


def valid(names, lens):
    return [s for s in valid0(names, lens) + small(LIMIT) if reference(s)[0] == 'ok']


def invalid(names, lens):
    return [s for s in invalid0(names, lens) + small(LIMIT) if reference(s)[0] == 'err']


def valid0(names, lens):
    out = []

    def add(label, *items):
        out.append(Scheme(label, *items))
    i = 0
    for b in BUILTINS:
        for a, o in MODS:
            add('one field %s%s%s' % (b, '[]' if a else '', '?' if o else ''), st('Z', ('f', b, a, o)), ex('Z'))
    for u in ('E', 'S', 'T'):
        for a, o in MODS:
            for order in (0, 1):
                ds = [st('Z', ('f', u, a, o), ('g', 'uint8')), ('enum', 'E', ['X', 'Y']), st('S', ('q', 'float')),
                      st('T', ('p', 'S'), ('r', 'E', False, True))]
                if order:
                    ds = ds[::-1]
                add('field of declared type %s%s%s' % (u, '[]' if a else '', '?' if o else ''), *(ds + [ex('Z')]))
    # mixed field orders
    kinds = ['uint8', 'S', 'E', 'T', 'string']
    for perm in itertools.permutations(range(4)):
        fs = [('zyxw'[k] + str(n), kinds[k]) for n, k in enumerate(perm)]
        add('field order %s' % ''.join(map(str, perm)), st('M', *fs), st('S', ('k', 'int8'), ('a', 'E')), ('enum', 'E', ['B', 'A']),
            st('T', ('z', 'float'), ('b', 'S'), ('a', 'uint16')), ex('M'))
    # dependency graphs over three structs, every declaration order, every export
    for mask in range(8):
        for perm in itertools.permutations(range(3)):
            for e in range(3):
                nm = ['Pa', 'Ob', 'Qc']
                dep = {0: [], 1: [0] if mask & 1 else [], 2: ([0] if mask & 2 else []) + ([1] if mask & 4 else [])}
                ds = []
                for k in perm:
                    fs = [('f%d' % (9 - d), nm[d]) for d in dep[k]] + [('s', 'uint32')]
                    if (mask + k) % 2:
                        fs = fs[::-1]
                    ds.append(st(nm[k], *fs))
                ds.insert((mask + e) % 4, ex(nm[e]))
                add('dependencies %d order %s export %s' % (mask, perm, nm[e]), *ds)
    for mask in range(0, 64, 3):
        nm = ['Wd', 'Ba', 'Xc', 'Ab']
        pairs = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]
        for rev in (0, 1):
            ds = []
            for k in range(4):
                fs = [('m%d' % d, nm[d]) + MODS[(d + k) % 3] for j, (a, d) in enumerate(pairs) if a == k and mask >> j & 1]
                ds.append(st(nm[k], *(fs + [('e', 'En'), ('u', 'string', False, True)] if k % 2 else [('u', 'int16', True, False)] + fs)))
            ds.append(('enum', 'En', ['One', 'Two', 'Three']))
            if rev:
                ds = ds[::-1]
            add('four structs %d%s' % (mask, ' reversed' if rev else ''), *(ds + [ex('Ab')]))
    # chains, both directions
    for n in (5, 9):
        nm = ['N%s' % 'kcfabhgedj'[i] for i in range(n)]
        ch = [st(nm[i], ('x', nm[i + 1])) for i in range(n - 1)] + [st(nm[-1], ('x', 'float'))]
        add('chain of %d' % n, ex(nm[0]), *ch)
        add('reversed chain of %d' % n, *(ch[::-1] + [ex(nm[0])]))
    for k in range(1, 33):
        add('enum of %d variants' % k, en('Flags', k), st('Z', ('a', 'Flags')), ex('Z'))
    add('unused enum and structs', st('U1', ('a', 'U2')), en('U3', 32), st('U2', ('b', 'U3')), st('Z', ('a', 'string')), ex('Z'))
    add('empty structs', st('Z', ('a', 'Y'), ('b', 'Y')), st('Y'), ex('Z'))
    add('empty export', st('Z'), ex('Z'))
    add('only an unused struct besides', ex('Z'), st('Z'), st('Q', ('x', 'uint8')))
    add('same field names in several structs', st('A', ('x', 'uint8'), ('y', 'B')), st('B', ('x', 'uint8'), ('y', 'C')), st('C', ('x', 'uint8'), ('y', 'float')), ex('A'))
    add('same variants in several enums', ('enum', 'A', ['X', 'Y']), ('enum', 'B', ['X', 'Y']), st('Z', ('a', 'A'), ('b', 'B')), ex('Z'))
    add('fields named like types', st('Z', ('Z', 'A'), ('A', 'B'), ('B', 'uint8')), st('A', ('A', 'uint8'), ('Z', 'B')), ('enum', 'B', ['A', 'B', 'Z']), ex('Z'))
    add('type used many times', st('Z', *[('f%d' % i, 'A', i % 3 == 1, i % 3 == 2) for i in range(7)]), st('A', ('b', 'B'), ('c', 'B')), st('B', ('d', 'float')), ex('Z'))
    add('names that differ in case', st('a', ('x', 'A'), ('X', 'uint8')), st('A', ('y', 'float')), ('enum', 'aA', ['p', 'P']), ex('a'))
    add('names that are prefixes', st('A', ('x', 'AA'), ('xx', 'AAA')), st('AA', ('x', 'AAA'), ('xxx', 'uint8')), ('enum', 'AAA', ['V', 'VV', 'VVV']), ex('A'))
    add('underscores and digits', st('_', ('_', '__'), ('_1', 'A_b9')), st('__', ('x_', 'uint8')), ('enum', 'A_b9', ['_', 'V_1']), ex('_'))
    add('many fields', st('Z', *[('f%02d' % ((i * 7) % 40), ['uint8', 'A', 'string', 'E'][i % 4]) for i in range(40)]), st('A', ('z', 'E'), ('a', 'float')), ('enum', 'E', ['Q']), ex('Z'))
    add('many declarations', *([st('D%02d' % ((i * 11) % 30), ('q', 'uint8')) for i in range(30)] + [ex('D11')]))
    # names that stand for several things: a field named like its type, its owner, the export, another type, a variant
    for f in ('E', 'S', 'T', 'Z', 'X', 'q'):
        for a, o in MODS:
            for u in ('E', 'S', 'string'):
                add('field %s of type %s%s%s' % (f, u, '[]' if a else '', '?' if o else ''), st('Z', (f, u, a, o), ('t', 'T')), st('T', (f, u, a, o), ('k', 'uint8')),
                    ('enum', 'E', ['X', 'E', 'Z', 'S']), st('S', ('q', 'float')), ex('Z'))
    add('many fields, nested', st('Z', ('y', 'Y')), st('Y', *[('f%02d' % ((i * 7) % 12), ['uint8', 'A', 'string', 'E'][i % 4]) for i in range(12)]), st('A', ('z', 'F'), ('a', 'float')),
        ('enum', 'E', ['Q']), ('enum', 'F', ['Q', 'R']), ex('Z'))
    for k in (1, 2, 8, 9, 16, 17, 32):
        for form in ('_V%d', 'V%d_', 'V_%d'):
            for j in sorted({0, k - 1, k // 2}):
                add('enum of %d variants, %s at %d' % (k, form, j), ('enum', 'Flags', [form % i if i == j else 'W%d' % i for i in range(k)]), st('Z', ('a', 'Flags')), ex('Z'))
    stems = {n for n in names} | {n + x for n in names for x in ('x', '_x')} | {x + n for n in names for x in ('x', 'x_', 'X')}
    for k in range(0, len(stems), 16):
        vs = sorted(stems)[k:k + 16]
        add('variants %s..' % vs[0], ('enum', 'Flags', ['First'] + vs + ['Last']), st('Z', ('a', 'Flags')), ex('Z'))
    # unused declarations whose names are related to those of used ones
    for pre, suf in [('', 'X'), ('X', ''), ('', 's'), ('', '_'), ('_', ''), ('', '1')] + [x for n in sorted(names) for x in (('', n), (n, ''))]:
        for b in ('Ab', 'A'):
            r = pre + b + suf
            if r in BUILTINS:
                continue
            for used, not_used in ((b, r), (r, b)):
                add('unused %s next to %s' % (not_used, used), st(used, ('x', 'En' + used), ('y', 'uint8')), st(not_used, ('x', 'En' + not_used), ('z', 'float')), ('enum', 'En' + used, ['V']), ('enum', 'En' + not_used, ['V', 'W']),
                    st('Zz', ('f', used, True, False), ('g', 'string')), ex('Zz'))
    for n in sorted(names):
        add('name %s' % n, st(n, ('x', 'uint8')), st('Zz', ('a', n), ('q', 'E')), ('enum', 'E', ['X']), ex('Zz'))
        add('field %s' % n, st('Zz', (n, 'uint8'), ('q', 'Aa')), st('Aa', ('k', 'float'), (n, 'E')), ('enum', 'E', ['X', n]), ex('Zz'))
        add('last field %s' % n, st('Zz', ('q', 'Aa'), ('p', 'string', True, False), (n, 'E')), st('Aa', ('z', 'float'), ('k', 'uint8', False, True), (n, 'string')), ('enum', 'E', ['X', 'A', n]), ex('Zz'))
        add('enum %s' % n, ('enum', n, ['X', 'Y']), st('Zz', ('x', n), ('y', n, True, False)), ex('Zz'))
        add('export %s' % n, st(n, ('x', 'uint8'), ('y', 'Aa')), st('Aa', ('z', 'E')), ('enum', 'E', ['X']), ex(n))
    for k in sorted({x + d for x in lens for d in (-1, 0, 1, 2)}):
        if 0 < k <= 70:
            add('%d fields' % k, st('Z', *[('f%d' % i, ['uint8', 'A'][i % 2]) for i in range(k)]), st('A', ('z', 'float')), ex('Z'))
            if k <= 40:
                add('%d declarations' % k, *([st('D%d' % i, ('q', 'uint8' if i % 2 else 'E')) for i in range(k)] + [('enum', 'E', ['X']), ex('D0')]))
    return out


def invalid0(names, lens):
    out = []

    def add(label, *items):
        s = Scheme(label, *items)
        out.append(s)
    base = [st('Za', ('a', 'uint8'), ('b', 'Mb')), st('Mb', ('c', 'Ec')), ('enum', 'Ec', ['One', 'Two'])]

    def around(label, *bad):
        """the mistake before, between and after sound declarations"""
        for pos in (0, 1, 3):
            ds = list(base)
            ds[pos:pos] = list(bad)
            add(label + ' at %d' % pos, *(ds + [ex('Za')]))
        add(label + ' alone', *(list(bad) + [st('Za', ('q', 'string')), ex('Za')]))
    # duplicate declarations
    sd = [st('Dup', ('x', 'uint8')), st('Dup', ('x', 'Mb')), ('enum', 'Dup', ['P', 'Q']), st('Dup')]
    for a, b in itertools.product(range(4), repeat=2):
        if 1 in (a, b):
            add('duplicate declaration', sd[a], *(base + [sd[b], ex('Za')]))
        else:
            add('duplicate declaration', sd[a], sd[b], *(base + [ex('Za')]))
            add('duplicate declaration', sd[a], *(base + [ex('Za'), sd[b]]))
    add('duplicate of the export', *(base + [st('Za', ('p', 'float')), ex('Za')]))
    add('duplicate used type', *(base + [('enum', 'Ec', ['One', 'Two']), ex('Za')]))
    # duplicate fields
    tys = ['uint8', 'string', 'Mb', 'Ec']
    for a, b in itertools.product(tys, repeat=2):
        for gap in ([], [('g', 'float')], [('g', 'Ec'), ('h', 'uint8', True, False)]):
            add('duplicate field %s/%s' % (a, b), *(base + [st('Own', *([('dd', a)] + gap + [('dd', b)])), ex('Za')]))
            if not gap:
                add('duplicate field %s/%s, used' % (a, b), st('Own', ('first', 'int8'), ('dd', a, True, False), ('dd', b, False, True), ('z', 'Ec')),
                    *(base[1:] + [st('Za', ('o', 'Own')), ex('Za')]))
                add('duplicate field %s/%s in the export' % (a, b), *(base[1:] + [st('Own', ('dd', a), ('dd', b)), ex('Own')]))
    for k in (3, 5):
        add('duplicate last of %d fields' % k, *(base + [st('Own', *([('f%d' % i, tys[i % 4]) for i in range(k)] + [('f%d' % (k - 1), 'uint8')])), ex('Za')]))
        add('duplicate first of %d fields' % k, *(base + [st('Own', *([('f%d' % i, tys[i % 4]) for i in range(k)] + [('f0', 'Ec')])), ex('Za')]))
    # duplicate variants
    for n in (2, 3, 9, 32):
        for i, j in {(0, 1), (0, n - 1), (n - 2, n - 1), (n // 2, n - 1)}:
            if i < j:
                vs = ['W%d' % k for k in range(n)]
                vs[j] = vs[i]
                add('duplicate variant %d=%d of %d' % (i, j, n), *(base + [('enum', 'Own', vs), ex('Za')]))
                add('duplicate variant %d=%d of %d, used' % (i, j, n), ('enum', 'Own', vs), st('Za', ('o', 'Own')), ex('Za'))
    # exports
    # exports of enums next to various numbers of structs and enums
    for ns in range(4):
        for ne in range(1, 3):
            for first in (0, 1):
                es = [('enum', 'E%s' % 'ab'[i], ['X', 'Y']) for i in range(ne)]
                ss = [st('S%s' % 'zay'[i], *([('e', 'Ea')] if i % 2 else [('u', 'uint8')])) for i in range(ns)]
                ds = es + ss if first else ss + es
                add('export of an enum, %d structs, %d enums' % (ns, ne), *(ds + [ex('Ea')]))
                add('export of an undeclared name, %d structs, %d enums' % (ns, ne), *(ds + [ex('Q')]))
    # duplicates with every pair of modifiers
    for m1, m2 in itertools.product(MODS, repeat=2):
        for a, b in (('uint8', 'float'), ('Mb', 'uint8'), ('string', 'Ec'), ('Mb', 'Mb')):
            add('duplicate field %s%s/%s%s' % (a, m1, b, m2), *(base + [st('Own', ('dd', a) + m1, ('o', 'uint8'), ('dd', b) + m2), ex('Za')]))
            add('duplicate field %s%s/%s%s, exported' % (a, m1, b, m2), *(base[1:] + [st('Za', ('q', 'Mb'), ('dd', a) + m1, ('dd', b) + m2), ex('Za')]))
    add('no export', *base)
    add('no export, one struct', st('Za', ('a', 'uint8')))
    add('no declarations, no export')
    for e in itertools.product(('Za', 'Mb', 'Ec', 'Nope'), repeat=2):
        add('two exports', ex(e[0]), *(base + [ex(e[1])]))
    add('two exports in a row', *(base + [ex('Za'), ex('Za')]))
    add('three exports', ex('Za'), *(base + [ex('Za'), ex('Mb')]))
    for pos in (0, 1, 3):
        for n in ('Nope', 'a', 'One', 'zA'):
            ds = list(base)
            ds.insert(pos, ex(n))
            add('export of an undeclared name', *ds)
        for n in ('Ec',):
            ds = list(base)
            ds.insert(pos, ex(n))
            add('export of an enum', *ds)
    add('export without declarations', ex('Nope'))
    add('export of an enum, only enums', ('enum', 'Ec', ['One']), ex('Ec'))
    for n in BUILTINS:
        add('export of a builtin', *(base + [ex(n)]))
    # unknown types
    for a, o in MODS:
        around('unknown type%s%s' % ('[]' if a else '', '?' if o else ''), st('Own', ('u', 'Nope', a, o)))
        around('unknown type after others', st('Own', ('p', 'uint8'), ('q', 'Ec2'), ('u', 'Nope', a, o)), ('enum', 'Ec2', ['R']))
        around('unknown type before others', st('Own', ('u', 'Nope', a, o), ('p', 'uint8'), ('q', 'St2')), st('St2', ('r', 'float')))
    add('unknown type in the export', st('Za', ('a', 'Nope')), ex('Za'))
    add('unknown type in a used struct', st('Za', ('a', 'Bb')), st('Bb', ('c', 'Nope')), ex('Za'))
    add('unknown type named like a field', st('Za', ('Nope', 'uint8'), ('a', 'Nope')), ex('Za'))
    add('unknown type named like a variant', st('Za', ('a', 'One')), ('enum', 'Ec', ['One']), ex('Za'))
    add('unknown type differing in case', st('Za', ('a', 'ec')), ('enum', 'Ec', ['One']), ex('Za'))
    add('unknown type, two uses', st('Za', ('a', 'Nope'), ('b', 'Nope')), st('Bb', ('c', 'Nope')), ex('Za'))
    # recursion
    for n in (1, 2, 3, 4):
        nm = ['Cq', 'Ar', 'Bz', 'Dm'][:n]
        for a, o in MODS:
            for rot in range(n):
                ds = [st(nm[i], *([('s', 'uint8')] if i % 2 else []), ('n', nm[(i + 1) % n], a if i == 0 else False, o if i == 0 else False)) for i in range(n)]
                ds = ds[rot:] + ds[:rot]
                add('cycle of %d, unused' % n, *(base + ds + [ex('Za')]))
                add('cycle of %d, exported' % n, *([ex(nm[0])] + ds))
                add('cycle of %d, used' % n, *(ds + [st('Za', ('f', 'float'), ('c', nm[-1])), ex('Za')]))
    add('cycle behind a chain', st('Za', ('a', 'Yb')), st('Yb', ('a', 'Xc')), st('Xc', ('a', 'Yb')), ex('Za'))
    add('cycle behind a chain, other names', st('Aa', ('a', 'Bb')), st('Bb', ('a', 'Cc')), st('Cc', ('a', 'Dd'), ('b', 'uint8')), st('Dd', ('z', 'Bb')), ex('Aa'))
    add('two cycles', st('Za', ('a', 'Za')), st('Bb', ('b', 'Cc')), st('Cc', ('c', 'Bb')), ex('Za'))
    add('cycle after sound fields', st('Za', ('a', 'Ok1'), ('b', 'Ok2'), ('c', 'Za')), st('Ok1', ('x', 'Ok2')), st('Ok2', ('y', 'float')), ex('Za'))
    add('cycle through the second field', st('Za', ('a', 'Ok2'), ('b', 'Bb')), st('Bb', ('p', 'Ok2'), ('q', 'Za')), st('Ok2', ('y', 'float')), ex('Za'))
    # enums
    for k in sorted({0, 33, 34, 40, 64} | {x + d for x in lens for d in (0, 1) if 32 < x + d < 70}):
        around('enum of %d variants' % k, en('Own', k))
        add('enum of %d variants, used' % k, en('Own', k), st('Za', ('o', 'Own')), ex('Za'))
        for n in sorted(names | {'None', 'Unknown', '_', 'Reserved'}):
            for j in sorted({0, k - 1}):
                if k:
                    add('enum of %d variants with %s' % (k, n), ('enum', 'Own', [n if i == j else 'W%d' % i for i in range(k)]), st('Za', ('o', 'Own')), ex('Za'))
        add('enum of %d variants, used before' % k, ex('Za'), st('Za', ('q', 'uint8'), ('o', 'Own', True, False)), en('Own', k))
    # optional arrays
    for ty in BUILTINS + ['Ec', 'Mb', 'Own2']:
        extra = [st('Own2', ('g', 'Mb'))] if ty == 'Own2' else []
        for fs in ([('bad', ty, True, True)], [('p', 'uint8'), ('bad', ty, True, True)], [('bad', ty, True, True), ('p', 'Mb')],
                   [('p', 'Ec', True, False), ('r', 'float', False, True), ('bad', ty, True, True)]):
            add('optional array of %s' % ty, *(base + extra + [st('Own', *fs), ex('Za')]))
            add('optional array of %s, used' % ty, st('Own', *fs), *(base[1:] + extra + [st('Za', ('o', 'Own')), ex('Za')]))
    # long names
    for k in sorted({40} | {x + d for x in lens for d in (0, 1, 2) if 8 < x + d <= 90}):
        nm = ['N' + (x * k)[:k - 2] + 'z' for x in 'abcd']
        add('long name, duplicate declaration', *(base + [st(nm[0], ('x', 'uint8')), st(nm[0]), ex('Za')]))
        add('long name, duplicate field', *(base + [st(nm[0], (nm[1], 'uint8'), (nm[1], 'float')), ex('Za')]))
        add('long name, duplicate variant', *(base + [('enum', nm[0], [nm[1], nm[1]]), ex('Za')]))
        add('long name, empty enum', *(base + [('enum', nm[0], []), ex('Za')]))
        add('long name, too many variants', *(base + [en(nm[0], 33), ex('Za')]))
        add('long name, unknown type', *(base + [st(nm[0], (nm[1], nm[2])), ex('Za')]))
        add('long name, optional array', *(base + [st(nm[0], (nm[1], 'uint8', True, True)), ex('Za')]))
        add('long name, cycle', *(base + [st(nm[0], (nm[1], nm[0])), ex('Za')]))
        add('long name, export of an enum', *(base + [('enum', nm[0], ['X']), ex(nm[0])]))
        add('long name, unknown export', *(base + [ex(nm[0])]))
    # names that stand for several things
    for f in ('Ec', 'Mb', 'Own', 'Za', 'One', 'c'):
        for a, o in MODS:
            for u in ('Ec', 'Mb', 'uint8'):
                add('duplicate field %s of type %s%s%s' % (f, u, '[]' if a else '', '?' if o else ''), *(base + [st('Own', (f, u), ('p', 'uint8'), (f, u, a, o)), ex('Za')]))
            add('unknown type, field %s' % f, *(base + [st('Own', (f, 'Nope', a, o)), ex('Za')]))
            add('unknown type, field named alike', *(base + [st('Own', ('p', 'Mb'), ('Nope', 'Nope', a, o)), ex('Za')]))
            add('recursive type, field %s' % f, *(base + [st('Own', (f, 'Own', a, o)), ex('Za')]))
        for u in ('Ec', 'Mb', 'uint8'):
            add('optional array of %s, field %s' % (u, f), *(base + [st('Own', (f, u, True, True)), ex('Za')]))
        add('duplicate variant %s' % f, *(base + [('enum', 'Own', [f, 'V', f]), ex('Za')]))
    # the mistake behind as many declarations or fields as the conditions mention
    for k in sorted({max(x + d, 1) for x in lens for d in (-8, 0, 1)} | {6}):
        if k <= 70:
            for fill in ([('enum', 'D%d' % i, ['X']) for i in range(k)], [st('D%d' % i, ('q', 'Ec')) for i in range(k)]):
                for nm in ('Aown', 'Zown'):
                    ds = fill + base
                    add('unknown type behind %d' % k, *(ds + [st(nm, ('u', 'Nope')), ex('Za')]))
                    add('recursive type behind %d' % k, *(ds + [st(nm, ('u', nm)), ex('Za')]))
                    add('duplicate field behind %d' % k, *(ds + [st(nm, ('u', 'Mb'), ('u', 'uint8')), ex('Za')]))
                    add('optional array behind %d' % k, *(ds + [st(nm, ('u', 'Mb', True, True)), ex('Za')]))
                    add('empty enum behind %d' % k, *(ds + [('enum', nm, []), ex('Za')]))
                    easy = [x for x in fill if x[0] == 'enum'] + [st('Za', ('a', 'uint8'))]
                    if len(easy) > 1:
                        add('unknown type behind %d, easy export' % k, *(easy + [st(nm, ('u', 'Nope')), ex('Za')]))
                        add('recursive type behind %d, easy export' % k, *(easy + [st(nm, ('u', nm)), ex('Za')]))
                add('two exports behind %d' % k, *(ds + [ex('Za'), ex('Mb')]))
            fs = [('f%d' % i, ['uint8', 'Ec'][i % 2]) for i in range(k)]
            add('unknown type after %d fields' % k, *(base + [st('Own', *(fs + [('u', 'Nope')])), ex('Za')]))
            add('recursive type after %d fields' % k, *(base + [st('Own', *(fs + [('u', 'Own')])), ex('Za')]))
            add('optional array after %d fields' % k, *(base + [st('Own', *(fs + [('u', 'Mb', True, True)])), ex('Za')]))
    # names the conditions mention
    for n in sorted(names):
        add('duplicate %s' % n, st(n, ('x', 'uint8')), *(base + [('enum', n, ['X']), ex('Za')]))
        add('duplicate field %s' % n, *(base + [st('Own', (n, 'uint8'), (n, 'Ec')), ex('Za')]))
        add('duplicate variant %s' % n, *(base + [('enum', 'Own', [n, 'V', n]), ex('Za')]))
        add('export of %s' % n, *(base + [ex(n)]))
        add('unknown type %s' % n, *(base + [st('Own', ('u', n)), ex('Za')]))
        add('recursive %s' % n, *(base + [st(n, ('u', n)), ex('Za')]))
        add('empty enum %s' % n, *(base + [('enum', n, []), ex('Za')]))
        add('optional array %s' % n, *(base + [st('Own', (n, 'uint8', True, True)), ex('Za')]))
        add('optional array in %s' % n, *(base + [st(n, ('f', 'Mb', True, True)), ex('Za')]))
    for k in sorted({x + d for x in lens for d in (0, 1)}):
        if 2 <= k <= 40:
            add('duplicate field after %d' % k, *(base + [st('Own', *([('f%d' % i, tys[i % 2]) for i in range(k)] + [('f0', 'uint8')])), ex('Za')]))
            add('duplicate declaration after %d' % k, *([st('D%d' % i) for i in range(k)] + base + [st('D0'), ex('Za')]))
            if k <= 32:
                add('duplicate variant after %d' % k, *(base + [('enum', 'Own', ['V%d' % i for i in range(k - 1)] + ['V0']), ex('Za')]))
    return out


def small(limit):
    """all small schemas: up to three declarations and two fields, thinned out evenly"""
    decls = [('enum', ['X']), ('enum', ['X', 'Y']), ('struct', [])]
    tys = ['uint8', 'string', 'A', 'B', 'C']
    mods = MODS + [(True, True)]
    one = [(t,) + m for t in tys for m in mods]
    f1 = [[('p',) + x] for x in one]
    core = [('uint8', False, False), ('A', False, False), ('B', False, False), ('C', False, False), ('B', True, False), ('A', False, True), ('string', True, True)]
    f2 = [[('p',) + x, (n,) + y] for x in core for y in core for n in ('q', 'p')]
    bodies = decls + [('struct', f) for f in f1 + f2]
    out = []

    def decl(n, b):
        return (b[0], n, b[1])
    # one declaration: all
    for b in bodies:
        for e in ('A', 'B'):
            out.append(Scheme('small', decl('A', b), ex(e)))
    k = len(bodies)
    # two and three declarations: even samples
    step = 5
    for i in range(0, k * k * 2, step):
        b1, b2, o = bodies[i // 2 // k], bodies[i // 2 % k], i % 2
        its = [decl('A', b1), decl('B', b2)]
        if i % 3 == 0:
            its = its[::-1]
        its.insert(i % 3, ex('AB'[o]))
        out.append(Scheme('small', *its))
    step = k ** 3 // 24000
    while step % k == 0 or step % 2 == 0 or step % 3 == 0 or step % 7 == 0:
        step += 1
    for i in range(0, k ** 3, step):
        its = [decl(n, bodies[i // k ** p % k]) for p, n in enumerate('ABC')]
        its = its[i % 3:] + its[:i % 3]
        its.insert(i % 4, ex('ABC'[i // 7 % 3]))
        out.append(Scheme('small', *its))
    # those with one mistake at most, a limited number of each
    groups = {}
    for s in out:
        r = reference(s)
        if r[0] == 'ok':
            groups.setdefault('ok', []).append(s)
        elif len({k for k, _ in r[1]} - {'export of no struct'}) <= 1:
            groups.setdefault(r[1][-1][0], []).append(s)
    out = []
    for g, l in sorted(groups.items()):
        n = limit if g == 'ok' else limit // 3
        out += [l[i * len(l) // min(n, len(l))] for i in range(min(n, len(l)))]
    for n, s in enumerate(out):
        s.label = 'small %d' % n
    return out
