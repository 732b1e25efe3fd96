"""P01-P09: properties of the generated TypeScript, decided on the generator's derived template."""
import json
import gentpl
from gentpl import BUILTINS
from inst import Stuck

WIDTH = ['uint8', 'uint16', 'uint32']


class Odd(Exception):
    """a form of generated code this analysis does not interpret"""


def width(n):
    return 'uint8' if n <= 8 else 'uint16' if n <= 16 else 'uint32'


# ---------------------------------------------------------------- values

def walk_vals(v):
    if isinstance(v, dict):
        yield v
        for x in v.values():
            yield from walk_vals(x)
    elif isinstance(v, list):
        for x in v:
            yield from walk_vals(x)


def all_ops(ops):
    for o in ops:
        yield o
        for k in ('a', 'b', 'body'):
            if o['op'] in ('cond', 'loop') and k in o:
                yield from all_ops(o[k])


class Paths:
    """canonical names of values; objects are named by the place they end up in"""

    def __init__(self, ops):
        self.loc = {}
        self.multi = set()
        for o in all_ops(ops):
            if o['op'] == 'set' and o['v'].get('k') in ('obj',):
                i = o['v']['id']
                if i in self.loc and self.loc[i] != o['t']:
                    self.multi.add(i)
                self.loc[i] = o['t']
            if o['op'] == 'ret' and o['v'].get('k') == 'obj':
                self.loc[o['v']['id']] = {'k': 'OUT'}
            if o['op'] == 'ret' and o['v'].get('k') == 'phi':
                for x in ('a', 'b'):
                    if o['v'][x].get('k') == 'obj':
                        self.loc[o['v'][x]['id']] = {'k': 'OUT'}

    def path(self, v, d=0):
        if d > 80:
            return '?cycle'
        k = v['k']
        if k in ('this', 'OUT', 'writer', 'reader', 'undef', 'null', 'finish'):
            return k
        if k == 'field':
            return self.path(v['o'], d + 1) + '.' + v['n']
        if k == 'len':
            return self.path(v['o'], d + 1) + '.length'
        if k == 'elem':
            return self.path(v['o'], d + 1) + '[' + self.path(v['i'], d + 1) + ']'
        if k == 'idx':
            return 'i%d' % v['id']
        if k == 'num':
            return '#%s' % v['v']
        if k == 'read':
            return 'r%d' % v['id']
        if k == 'obj':
            if v['id'] in self.loc:
                return self.path(self.loc[v['id']], d + 1)
            return 'o%d' % v['id']
        if k == 'newarr':
            return 'new%d' % v['id']
        if k == 'bool':
            return str(v['v']).lower()
        return '?' + json.dumps(v, sort_keys=True)


def under(path, base):
    return path == base or path.startswith(base + '.') or path.startswith(base + '[')


# ---------------------------------------------------------------- tests on integers

def int_test(t, rid):
    """predicate over the value of read `rid`, or None"""
    k = t['k']
    if k == 'and':
        a, b = int_test(t['a'], rid), int_test(t['b'], rid)
        return None if a is None or b is None else (lambda x: a(x) and b(x))
    if k == 'or':
        a, b = int_test(t['a'], rid), int_test(t['b'], rid)
        return None if a is None or b is None else (lambda x: a(x) or b(x))
    if k == 'not':
        a = int_test(t['t'], rid)
        return None if a is None else (lambda x: not a(x))
    if k == 'truthy':
        if t['v'].get('k') == 'read' and t['v']['id'] == rid:
            return lambda x: x != 0
        return None
    if k == 'cmp':
        def val(v):
            if v.get('k') == 'read' and v['id'] == rid:
                return lambda x: x
            if v.get('k') == 'num':
                return lambda x, n=v['v']: n
            return None
        a, b = val(t['a']), val(t['b'])
        if a is None or b is None:
            return None
        op = {'<': lambda p, q: p < q, '<=': lambda p, q: p <= q, '>': lambda p, q: p > q, '>=': lambda p, q: p >= q,
              '===': lambda p, q: p == q, '!==': lambda p, q: p != q}[t['o']]
        return lambda x: op(a(x), b(x))
    return None


def constants(t):
    return {v['v'] for v in walk_vals(t) if v.get('k') == 'num'}


def reads_in(x):
    return [v['id'] for v in walk_vals(x) if v.get('k') == 'read']


def has_reads(ops):
    return any(o['op'] == 'r' for o in all_ops(ops))


# ---------------------------------------------------------------- reporting

class Ctx:
    def __init__(self, rep, prop, shape, lines):
        self.rep, self.prop, self.shape, self.lines = rep, prop, shape, lines
        self.n = 0
        self.bad = 0

    def fail(self, rule, key, what, line=None):
        self.bad += 1
        txt = self.lines[line].strip() if line is not None and line < len(self.lines) else ''
        self.rep.violation('shape ' + self.shape.name, '%s: %s' % (rule, key), gentpl.locate(txt) if txt else 'src/lib/gen/ts.rs',
                           rule, what + ('\n  generated line: ' + txt if txt else '') + '\n  schema shape: ' + self.shape.name)


def method(res, name):
    cs = res['decls']['classes']
    if len(cs) != 1 or name not in cs[0]['methods']:
        raise Odd('no %s method' % name)
    m = cs[0]['methods'][name]
    if 'unk' in m:
        raise Odd('statement not interpreted in %s: %s' % (name, m['unk']))
    return m['ir']


def kind(shape, f):
    ty = f[1]
    k = ty if ty in BUILTINS else shape.types[ty][0]
    return k + ('[]' if f[2] else '') + ('?' if f[3] else '')


# ---------------------------------------------------------------- P01

def wire_ops(ops):
    """operations that touch the wire (or decide whether something else does)"""
    return [o for o in ops if o['op'] in ('w', 'r', 'loop') and (o['op'] != 'loop' or True) or o['op'] == 'cond' and (
        has_reads(o['a']) or has_reads(o['b']) or any(x['op'] == 'w' for x in all_ops(o['a'] + o['b'])))]


def simple_loop(o):
    return o.get('start') == 0 and o.get('step', 1) == 1 and o.get('strict', True)


def lockstep(c, pw, ws, rs, pair):
    ws = [o for o in wire_ops(ws) if o['op'] != 'loop' or any(x['op'] == 'w' for x in all_ops(o['body']))]
    rs = [o for o in wire_ops(rs) if o['op'] != 'loop' or has_reads(o['body'])]
    i = j = 0
    R = 'the reader performs the same primitive operations as the writer'
    while i < len(ws) or j < len(rs):
        w = ws[i] if i < len(ws) else None
        r = rs[j] if j < len(rs) else None
        if w is None or r is None:
            o = w or r
            c.fail(R, '%s without counterpart' % desc(o), 'only the %s performs: %s' % ('writer' if w else 'reader', desc(o)), o['line'])
            return
        if w['op'] == 'w':
            if r['op'] != 'r' or r['p'] != w['p']:
                c.fail(R, '%s vs %s' % (desc(w), desc(r)), 'writer: %s; reader: %s (%s)' % (desc(w), desc(r), c.lines[r['line']].strip()), w['line'])
                return
            if w['args']:
                pair[pw.path(w['args'][0])] = r['id']
            if w['p'] == 'string':
                want = pair.get(pw.path(w['args'][0]) + '.length')
                got = r['args'][0]['id'] if r['args'] and r['args'][0].get('k') == 'read' else None
                if want is None or want != got:
                    c.fail(R, 'string length', 'the length the string is read with is not the length that was written', r['line'])
                    return
            i += 1
            j += 1
            continue
        if w['op'] == 'loop':
            if r['op'] != 'loop':
                c.fail(R, 'loop vs %s' % desc(r), 'writer repeats, reader does: %s' % desc(r), w['line'])
                return
            want = pair.get(pw.path(w['bound']))
            got = r['bound']['id'] if r['bound'].get('k') == 'read' else None
            if not simple_loop(w) or not simple_loop(r) or want is None or want != got:
                c.fail(R, 'repetition count', 'the number of elements read is not the number written', r['line'])
                return
            lockstep(c, pw, w['body'], r['body'], dict(pair))
            i += 1
            j += 1
            continue
        if w['op'] == 'cond':
            a, b = wire_ops(w['a']), wire_ops(w['b'])
            if not a or not b or a[0]['op'] != 'w' or b[0]['op'] != 'w' or a[0]['p'] != b[0]['p'] or \
                    not all(x[0]['args'] and x[0]['args'][0].get('k') == 'num' for x in (a, b)):
                c.fail(R, 'presence flag', 'the branches of the writer do not announce themselves by a constant', w['line'])
                return
            if r['op'] != 'r' or r['p'] != a[0]['p']:
                c.fail(R, 'presence flag vs %s' % desc(r), 'writer writes a %s flag; reader: %s' % (a[0]['p'], desc(r)), r['line'])
                return
            nxt = rs[j + 1] if j + 1 < len(rs) else None
            t = int_test(nxt['t'], r['id']) if nxt and nxt['op'] == 'cond' else None
            for br in (a, b):
                v = br[0]['args'][0]['v']
                lockstep(c, pw, br[1:], [] if t is None else nxt['a'] if t(v) else nxt['b'], dict(pair))
            i += 1
            j += 1 if t is None else 2
            continue
        raise Odd('operation %s' % w['op'])


def desc(o):
    if o['op'] == 'w':
        return 'write_' + o['p']
    if o['op'] == 'r':
        return 'read_' + o['p']
    return {'loop': 'repetition', 'cond': 'condition'}.get(o['op'], o['op'])


# ---------------------------------------------------------------- per-field matching

class Write:
    """match the write code of a struct against its fields"""

    def __init__(self, c, shape, ops):
        self.c, self.shape = c, shape
        self.p = Paths(ops)
        self.err = {'wire': [], 'order': [], 'route': []}

    def e(self, cat, key, what, line):
        self.err[cat].append((key, what, line))

    def source(self, o):
        if o['op'] == 'w':
            for a in o['args']:
                if a.get('k') == 'num':
                    return None
                s = self.p.path(a)
                return s[:-7] if a.get('k') == 'len' and o['p'] == 'uint32' else s
            return None
        if o['op'] == 'cond':
            v = o['t'].get('v')
            if v:
                return self.p.path(v)
            t = o['t']
            while t.get('k') == 'not':
                t = t['t']
            return self.p.path(t['v']) if t.get('v') else None
        if o['op'] == 'loop':
            b = o['bound']
            return self.p.path(b['o']) if b.get('k') == 'len' else self.p.path(b)
        return None

    def struct(self, ops, name, base, where):
        fields = self.shape.types[name][1]
        groups = []
        for o in ops:
            if o['op'] in ('ret',):
                continue
            s = self.source(o)
            own = None
            if s is not None:
                c = [f for f in fields if under(s, base + '.' + f[0]) or s == base + '.' + f[0] + '.length']
                # the longest name wins (x.length of a field x against a field named length)
                own = max(c, key=lambda f: len(f[0]), default=None)
            if own is None:
                self.e('route', 'write of something else in %s' % where, 'the writer uses %s, which is not a field of %s' % (s, base), o['line'])
                groups.append([None, [o]])
                continue
            if groups and groups[-1][0] is own:
                groups[-1][1].append(o)
            else:
                groups.append([own, [o]])
        want = [f[0] for f in fields if self.leaves(f)]
        got = [g[0][0] for g in groups if g[0] is not None]
        if got != want:
            line = ops[0]['line'] if ops else None
            for k, (a, b) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))):
                if a != b:
                    if a is not None and k < len(groups):
                        line = groups[k][1][0]['line']
                    break
            self.e('order', 'write order in %s' % where, 'fields %s are written as %s' % (want[:12], got[:12]), line)
        seen = set()
        for f, os in groups:
            if f is None or f[0] in seen:
                continue
            seen.add(f[0])
            self.field(os, f, base + '.' + f[0], where)

    def leaves(self, f):
        """does the plain field put anything on the wire?"""
        if f[2] or f[3] or f[1] in BUILTINS or self.shape.types[f[1]][0] == 'enum':
            return True
        return any(self.leaves(g) for g in self.shape.types[f[1]][1])

    def field(self, ops, f, path, where):
        n, ty, arr, opt = f
        k = 'field %s' % kind(self.shape, f)
        if opt:
            if len(ops) != 1 or ops[0]['op'] != 'cond':
                return self.e('wire', 'optional: ' + k, 'an optional is not written as a presence flag and a guarded value', ops[0]['line'])
            o = ops[0]
            t = o['t']
            A, B = o['a'], o['b']
            while t.get('k') == 'not':
                t = t['t']
                A, B = B, A
            if t.get('k') not in ('isnil', 'isundef') or self.p.path(t['v']) != path:
                return self.e('wire', 'optional test: ' + k, 'presence is not decided by whether the value is undefined', o['line'])

            def flag(b, v):
                return b and b[0]['op'] == 'w' and b[0]['p'] == 'uint8' and b[0]['args'] and b[0]['args'][0] == {'k': 'num', 'v': v}
            if not flag(A, 0) or len(A) != 1:
                self.e('wire', 'absent flag: ' + k, 'an absent value is not written as the single byte 0', o['line'])
            if not flag(B, 1):
                return self.e('wire', 'present flag: ' + k, 'a present value is not announced by the byte 1', o['line'])
            return self.plain(B[1:], f, path, where, o['line'])
        return self.arr(ops, f, path, where) if arr else self.plain(ops, f, path, where, ops[0]['line'])

    def arr(self, ops, f, path, where):
        k = 'field %s' % kind(self.shape, f)
        if len(ops) != 2 or ops[0]['op'] != 'w' or ops[0]['p'] != 'uint32' or ops[1]['op'] != 'loop':
            return self.e('wire', 'array: ' + k, 'an array is not written as a uint32 count and its elements', ops[0]['line'])
        if self.p.path(ops[0]['args'][0]) != path + '.length':
            self.e('wire', 'array count: ' + k, 'the count written is %s' % self.p.path(ops[0]['args'][0]), ops[0]['line'])
        lo = ops[1]
        if self.p.path(lo['bound']) != path + '.length' or not simple_loop(lo):
            self.e('route', 'array loop: ' + k, 'the elements written are not all elements in index order', lo['line'])
        return self.plain(lo['body'], f, path + '[i%d]' % lo['id'], where, lo['line'])

    def plain(self, ops, f, path, where, line):
        n, ty, arr, opt = f
        k = 'field %s' % kind(self.shape, f)
        if ty not in BUILTINS and self.shape.types[ty][0] == 'struct':
            return self.struct(ops, ty, path, k + ' of ' + where if len(where) < 60 else '…')
        if ty == 'string':
            want = [('uint32', path + '.length'), ('string', path)]
        elif ty in BUILTINS:
            want = [(ty, path)]
        else:
            want = [(width(len(self.shape.types[ty][1])), path)]
        got = [(o['p'], self.p.path(o['args'][0]) if o['args'] else None) if o['op'] == 'w' else (desc(o), None) for o in ops]
        if [g[0] for g in got] != [w[0] for w in want]:
            return self.e('wire', 'encoding: ' + k, 'written as %s instead of %s' % (', '.join(g[0] for g in got), ', '.join(w[0] for w in want)),
                          ops[0]['line'] if ops else line)
        for g, w, o in zip(got, want, ops):
            if g[1] != w[1]:
                self.e('wire' if w[1].endswith('.length') and ty == 'string' else 'route', 'value: ' + k, '%s is written from %s instead of %s' % (g[0], g[1], w[1]), o['line'])


class Read:
    def __init__(self, c, shape, ops):
        self.c, self.shape = c, shape
        self.p = Paths(ops)
        self.err = {'wire': [], 'order': [], 'route': [], 'range': []}
        self.flow = {}
        self.links(ops)

    e = Write.e

    def links(self, ops):
        """where each read value goes"""
        for o in all_ops(ops):
            if o['op'] == 'set':
                t = self.p.path(o['t'])
                for i in reads_in(o['v']):
                    self.flow.setdefault(i, set()).add(t)
        ch = True
        while ch:
            ch = False
            for o in all_ops(ops):
                if o['op'] == 'r':
                    add = self.flow.get(o['id'], set())
                    for i in reads_in(o['args']):
                        if not add <= self.flow.setdefault(i, set()):
                            self.flow[i] |= add
                            ch = True
                elif o['op'] in ('cond', 'loop'):
                    add = set()
                    for x in all_ops([o]):
                        if x['op'] == 'set':
                            add.add(self.p.path(x['t']))
                    for i in reads_in(o.get('t', {})) + reads_in(o.get('bound', {})):
                        if not self.flow.get(i) and add:
                            self.flow[i] = set(add)
                            ch = True

    def targets(self, o):
        if o['op'] == 'r':
            return self.flow.get(o['id'], set())
        if o['op'] == 'set':
            return {self.p.path(o['t'])}
        r = set()
        for x in all_ops([o]):
            if x['op'] == 'set':
                r.add(self.p.path(x['t']))
        return {x for x in r if x != 'reader.failed'} or r

    def struct(self, ops, name, base, where):
        fields = self.shape.types[name][1]
        groups = []
        for o in ops:
            if o['op'] == 'ret' or o['op'] == 'cond' and not has_reads([o]) and not any(
                    x['op'] == 'set' for x in all_ops([o])):
                continue
            ts = self.targets(o) - {'reader.failed'}
            own = None
            c = [f for f in fields if ts and all(under(t, base + '.' + f[0]) for t in ts)]
            own = max(c, key=lambda f: len(f[0]), default=None)
            if own is None:
                if o['op'] == 'set' and self.p.path(o['t']) == base:
                    continue
                self.e('route', 'read of something else in %s' % where, 'the reader stores into %s, which is not one field of %s' % (
                    ', '.join(sorted(ts)[:3]) or 'nothing', base), o['line'])
                groups.append([None, [o]])
                continue
            if groups and groups[-1][0] is own:
                groups[-1][1].append(o)
            else:
                groups.append([own, [o]])
        want = [f[0] for f in fields]
        got = [g[0][0] for g in groups if g[0] is not None]
        opt = {f[0] for f in fields if not Write.leaves(self, f)}
        if [x for x in got if x not in opt] != [x for x in want if x not in opt]:
            line = ops[0]['line'] if ops else None
            for k, (a, b) in enumerate(zip(got, want)):
                if a != b:
                    line = groups[k][1][0]['line']
                    break
            self.e('order', 'read order in %s' % where, 'fields %s are read as %s' % (want[:12], got[:12]), line)
        for x in want:
            if x in opt and x not in got:
                self.e('route', 'missing empty struct in %s' % where, 'field %s is never assigned' % x, ops[0]['line'] if ops else None)
        seen = set()
        for f, os in groups:
            if f is None or f[0] in seen:
                continue
            seen.add(f[0])
            self.field(os, f, base + '.' + f[0], where)

    leaves = Write.leaves

    def field(self, ops, f, path, where):
        n, ty, arr, opt = f
        k = 'field %s' % kind(self.shape, f)
        if opt:
            ops = [o for o in ops]
            if len(ops) < 2 or ops[0]['op'] != 'r' or ops[0]['p'] != 'uint8' or ops[1]['op'] != 'cond' or len(ops) > 2:
                return self.e('wire', 'optional: ' + k, 'an optional is not read as a presence flag and a guarded value', ops[0]['line'])
            t = int_test(ops[1]['t'], ops[0]['id'])
            if t is None:
                return self.e('wire', 'optional test: ' + k, 'presence is not decided by the flag that was read', ops[1]['line'])
            if t(0) or not t(1):
                return self.e('wire', 'optional test: ' + k, 'flag 0 must mean absent and flag 1 present', ops[1]['line'])
            A, B = ops[1]['a'], ops[1]['b']
            und = [o for o in B if o['op'] == 'set' and self.p.path(o['t']) == path]
            if has_reads(B):
                self.e('wire', 'absent: ' + k, 'something is read for an absent value', ops[1]['line'])
            if not und or und[-1]['v'].get('k') != 'undef' or len(B) != 1:
                self.e('route', 'absent: ' + k, 'an absent optional is not stored as undefined', ops[1]['line'])
            return self.plain(A, f, path, where, ops[1]['line'])
        return self.arr(ops, f, path, where) if arr else self.plain(ops, f, path, where, ops[0]['line'])

    def arr(self, ops, f, path, where):
        k = 'field %s' % kind(self.shape, f)
        sets = [o for o in ops if o['op'] == 'set']
        rest = [o for o in ops if o['op'] != 'set']
        if len(rest) != 2 or rest[0]['op'] != 'r' or rest[0]['p'] != 'uint32' or rest[1]['op'] != 'loop':
            return self.e('wire', 'array: ' + k, 'an array is not read as a uint32 count and its elements', ops[0]['line'])
        lo = rest[1]
        if lo['bound'] != {'k': 'read', 'id': rest[0]['id'], 'p': 'uint32'} or not simple_loop(lo):
            self.e('wire', 'array loop: ' + k, 'the number of elements read is not the count that was read', lo['line'])
        ok = len(sets) == 1 and self.p.path(sets[0]['t']) == path and sets[0]['v'].get('k') == 'newarr' and ops.index(sets[0]) < ops.index(lo)
        if ok and sets[0]['v'].get('n') is not None and sets[0]['v']['n'] != {'k': 'read', 'id': rest[0]['id'], 'p': 'uint32'}:
            ok = False
        if not ok:
            self.e('route', 'array: ' + k, 'the field is not an array of the decoded length', ops[0]['line'])
        ip = path + '[i%d]' % lo['id']
        body = lo['body']
        self.plain(body, f, ip, where, lo['line'])

    def plain(self, ops, f, path, where, line):
        n, ty, arr, opt = f
        k = 'field %s' % kind(self.shape, f)
        if ty not in BUILTINS and self.shape.types[ty][0] == 'struct':
            obj = [o for o in ops if o['op'] == 'set' and o['v'].get('k') == 'obj' and self.p.path(o['t']) == path]
            if len(obj) != 1:
                self.e('route', 'object: ' + k, 'the nested object is not stored in its field exactly once', line)
            return self.struct([o for o in ops if o not in obj], ty, path, k + ' of ' + where if len(where) < 60 else '…')
        rd = [o for o in ops if o['op'] in ('r', 'loop') or o['op'] == 'cond' and has_reads([o])]
        if ty == 'string':
            want = ['uint32', 'string']
        elif ty in BUILTINS:
            want = [ty]
        else:
            want = [width(len(self.shape.types[ty][1]))]
        got = [o['p'] if o['op'] == 'r' else desc(o) for o in rd]
        if got != want:
            return self.e('wire', 'decoding: ' + k, 'read as %s instead of %s' % (', '.join(got), ', '.join(want)), ops[0]['line'] if ops else line)
        if ty == 'string':
            if rd[1]['args'] != [{'k': 'read', 'id': rd[0]['id'], 'p': 'uint32'}]:
                self.e('wire', 'string length: ' + k, 'the string is not read with the length that was read', rd[1]['line'])
        val = {'k': 'read', 'id': rd[-1]['id'], 'p': rd[-1]['p']}
        if ty not in BUILTINS:
            return self.enum(ops, f, path, rd[0], val, k)
        sets = [o for o in ops if o['op'] == 'set']
        other = [o for o in ops if o['op'] == 'cond']
        if len(sets) != 1 or other or self.p.path(sets[0]['t']) != path or sets[0]['v'] != val:
            self.e('route', 'value: ' + k, 'the value read is not what is stored in the field', (sets or ops)[0]['line'])

    def enum(self, ops, f, path, rd, val, k):
        n = len(self.shape.types[f[1]][1])
        conds = [o for o in ops if o['op'] == 'cond']
        sets = [o for o in ops if o['op'] == 'set']
        if len(conds) != 1:
            if not conds:
                return self.e('range', 'unchecked: ' + k, 'the enum value is not range checked', rd['line'])
            raise Odd('enum check')
        c = conds[0]
        t = int_test(c['t'], rd['id'])
        if t is None:
            return self.e('range', 'check: ' + k, 'the condition is not about the value that was read', c['line'])
        top = {'uint8': 1 << 8, 'uint16': 1 << 16, 'uint32': 1 << 32}.get(rd['p'], 1 << 32)
        # the test is a boolean combination of comparisons with constants: its end points decide it
        pts = {0, 1, 1 << (n - 1), (1 << (n - 1)) + 1, (1 << (n - 1)) - 1, top - 1}
        for x in constants(c['t']):
            pts |= {x - 1, x, x + 1}
        pts |= {1 << i for i in range(n)}
        good = [x for x in sorted(pts) if 0 <= x < top and float(x).is_integer()]

        def outcome(ops_, assigned):
            fail = any(o['op'] == 'set' and self.p.path(o['t']) == 'reader.failed' and o['v'] == {'k': 'bool', 'v': True} for o in ops_)
            fail = fail or any(o['op'] == 'ret' and o['v'].get('k') == 'null' for o in ops_)
            return fail, assigned
        direct = {}
        for br in ('a', 'b'):
            direct[br] = any(o['op'] == 'set' and self.p.path(o['t']) == path and o['v'] == val for o in c[br])
            wrong = [o for o in c[br] if o['op'] == 'set' and self.p.path(o['t']) not in (path, 'reader.failed')]
            if wrong:
                self.e('route', 'value: ' + k, 'the value is stored in %s' % self.p.path(wrong[0]['t']), wrong[0]['line'])
        # via a local: set path = phi(test, value, other)
        for o in sets:
            if self.p.path(o['t']) == path and o['v'].get('k') == 'phi' and o['v']['t'] == c['t']:
                direct['a'] = direct['a'] or o['v']['a'] == val
                direct['b'] = direct['b'] or o['v']['b'] == val
            elif self.p.path(o['t']) == path and o['v'] == val:
                direct['a'] = direct['b'] = True
        assigned_any = direct['a'] or direct['b']
        if not assigned_any:
            self.e('route', 'value: ' + k, 'the decoded enum value is not stored in the field', c['line'])
        for x in good:
            br = 'a' if t(x) else 'b'
            fail, asg = outcome(c[br], direct[br])
            inside = 1 <= x <= 1 << (n - 1)
            if inside and (fail or not asg):
                return self.e('range', 'rejects: ' + k, 'value %d of an enum with %d variants is not accepted' % (x, n), c['line'])
            if not inside and not fail:
                return self.e('range', 'accepts: ' + k, 'value %d of an enum with %d variants does not mark the read as failed' % (x, n), c['line'])
            if not inside and asg:
                return self.e('range', 'assigns: ' + k, 'out of range value %d is stored' % x, c['line'])


# ---------------------------------------------------------------- properties

def prepare(rep, prop):
    rep.assumptions += [
        'library functions behave as modelled (string formatting, collections, iterators)',
        'the imported reader and writer provide read_T/write_T for the eight builtin types, finish() and failed, as the generated code expects',
        'a template alternative is checked in every nesting context up to depth 4 (plain, array, optional at each level); deeper nesting repeats the same recursive template',
    ]
    g = gentpl.Generated(rep)
    return g


def run(rep, prop, f):
    g = prepare(rep, prop)
    n = 0
    for shape, res, lines in g.each():
        c = Ctx(rep, prop, shape, lines)
        if res['syntax']:
            if prop != 'P09':
                rep.unsure('shape ' + shape.name, 'the generated text does not parse')
                continue
        try:
            f(c, shape, res, g)
            n += 1
            if not c.bad:
                rep.ok('shape ' + shape.name)
        except Odd as e:
            rep.unsure('shape ' + shape.name, str(e))
    rep.coverage['shapes_decided'] = n
    return g


def emit(c, rule, errs):
    for key, what, line in errs:
        c.fail(rule, key, what, line)


def fields_of(c, shape, res, cat, rule):
    w = Write(c, shape, method(res, 'write'))
    w.struct(method(res, 'write'), shape.export, 'this', 'the exported struct')
    r = Read(c, shape, method(res, 'read'))
    r.struct(method(res, 'read'), shape.export, 'OUT', 'the exported struct')
    emit(c, rule, w.err[cat] + r.err[cat])
    return w, r


def check_P01(rep):
    def f(c, shape, res, g):
        w, r = method(res, 'write'), method(res, 'read')
        lockstep(c, Paths(w), w, r, {})
    run(rep, 'P01', f)


def check_P02(rep):
    g = run(rep, 'P02', lambda c, s, r, g: fields_of(c, s, r, 'wire', 'every field type has its fixed wire encoding'))
    import p_check
    p_check.modifiers(rep, g.prog)


def check_P04(rep):
    g = run(rep, 'P04', lambda c, s, r, g: fields_of(c, s, r, 'route', 'every value is moved between the wire and its own field'))
    import p_check
    p_check.modifiers(rep, g.prog)


def check_P03(rep):
    R = 'struct fields appear exactly once, in declaration order'

    def f(c, shape, res, g):
        fields_of(c, shape, res, 'order', R)
        d = res['decls']
        want = [x[0] for x in shape.types[shape.export][1]]
        got = [p['name'] for p in d['classes'][0]['ctor'] or []]
        if got != want:
            c.fail(R, 'constructor', 'constructor parameters %s for fields %s' % (got[:12], want[:12]))
        for ns in d['namespaces']:
            for it in ns['items']:
                if it['kind'] == 'interface' and it['name'] in shape.types:
                    want = [x[0] for x in shape.types[it['name']][1]]
                    got = [m['name'] for m in it['members']]
                    if got != want:
                        c.fail(R, 'interface', 'interface %s has members %s for fields %s' % (it['name'], got[:12], want[:12]))
    g = run(rep, 'P03', f)
    import p_check
    p_check.field_order(rep, g.prog)


def check_P05(rep):
    R = 'enum variant i has value 2^i and the enum uses the smallest sufficient width'

    def f(c, shape, res, g):
        for ns in res['decls']['namespaces']:
            for it in ns['items']:
                if it['name'] in shape.types and shape.types[it['name']][0] == 'enum' if 'name' in it else False:
                    want = [(v, 1 << i) for i, v in enumerate(shape.types[it['name']][1])]
                    got = [(m['name'], m['value']) for m in it.get('members', [])]
                    if got != want:
                        bad = [(a, b) for a, b in zip(got + [None] * 40, want) if a != b]
                        line = next((i for i, l in enumerate(c.lines) if bad and bad[0][0] and l.strip().startswith(str(bad[0][0][0]) + ' =')), None)
                        c.fail(R, 'value', 'enum with %d variants: %s should be %s' % (len(want), bad[:1] and bad[0][0], bad[:1] and bad[0][1]), line)
        for o in ('write', 'read'):
            M = (Write if o == 'write' else Read)(c, shape, method(res, o))
            M.struct(method(res, o), shape.export, 'this' if o == 'write' else 'OUT', 'the exported struct')
            emit(c, R, [e for e in M.err['wire'] if ('field enum' in e[0]) and ('coding' in e[0])])
    g = run(rep, 'P05', f)
    import p_check
    p_check.enum_values(rep, g.prog)


def check_P06(rep):
    def f(c, shape, res, g):
        r = Read(c, shape, method(res, 'read'))
        r.struct(method(res, 'read'), shape.export, 'OUT', 'the exported struct')
        emit(c, 'enum reads accept exactly first..last variant and fail otherwise', r.err['range'])
    run(rep, 'P06', f)


def check_P07(rep):
    R = 'read returns null whenever a read failed'

    def f(c, shape, res, g):
        ops = method(res, 'read')
        p = Paths(ops)

        def failed_test(t):
            k = t['k']
            if k == 'not':
                x = failed_test(t['t'])
                return None if x is None else not x
            if k == 'truthy' and p.path(t['v']) == 'reader.failed':
                return True
            if k == 'cmp' and t['o'] in ('===', '!==') and p.path(t['a']) == 'reader.failed' and t['b'].get('k') == 'bool':
                return (t['o'] == '===') == t['b']['v']
            return None

        def result(ops, failed):
            """value returned by straight-line code with the failure state known; None if it runs on"""
            for o in ops:
                if o['op'] == 'ret':
                    v = o['v']
                    if v.get('k') == 'phi':
                        t = failed_test(v['t'])
                        if t is None:
                            raise Odd('returned value')
                        v = v['a'] if t == failed else v['b']
                    return v
                if o['op'] == 'cond':
                    t = failed_test(o['t'])
                    if t is not None:
                        x = result(o['a'] if t == failed else o['b'], failed)
                        if x is not None:
                            return x
                    elif any(x['op'] == 'ret' for x in all_ops([o])):
                        raise Odd('conditional return')
            return None
        last = max([i for i, o in enumerate(ops) if has_reads([o])] + [-1])
        for o in all_ops(ops):
            if o['op'] == 'set' and p.path(o['t']) == 'reader.failed' and o['v'] != {'k': 'bool', 'v': True}:
                c.fail(R, 'failure cleared', 'the failure state is reset', o['line'])
            if o['op'] == 'throw':
                c.fail(R, 'throws', 'the reader throws', o['line'])
        # early returns may only return null
        for o in all_ops(ops[:last + 1]):
            if o['op'] == 'ret' and o['v'].get('k') != 'null':
                c.fail(R, 'early return', 'the object is returned before everything was read', o['line'])
        # enum checks assign failure to the reader's flag: any set to another object is not the failure state
        tail = ops[last + 1:]
        tl = tail[-1]['line'] if tail else None
        a = result(tail, True)
        b = result(tail, False)
        if a is None or a.get('k') != 'null':
            c.fail(R, 'failed read', 'after a failed read the function returns %s' % (p.path(a) if a else 'nothing'), tl)
        if b is None or p.path(b) != 'OUT':
            c.fail(R, 'good read', 'after a good read the function returns %s' % (p.path(b) if b else 'nothing'), tl)
        # sets after the check
        idx = next((i for i, o in enumerate(tail) if o['op'] == 'ret' or any(x['op'] == 'ret' for x in all_ops([o]))), len(tail))
        for o in tail[idx:]:
            if o['op'] == 'set':
                c.fail(R, 'late', 'the object is changed after the failure check', o['line'])
        # out of range enums must reach the failure state
        r = Read(c, shape, ops)
        r.struct(ops, shape.export, 'OUT', 'the exported struct')
        emit(c, R, [e for e in r.err['range'] if e[0].startswith('accepts') or e[0].startswith('unchecked')])
    run(rep, 'P07', f)


def check_P08(rep):
    R = 'declarations are complete, minimal and correctly typed'

    def f(c, shape, res, g):
        d = res['decls']
        if len(d['classes']) != 1 or d['classes'][0]['name'] != shape.export or not d['classes'][0]['exported']:
            c.fail(R, 'class', 'the exported type is not declared as one exported class')
            return
        if any(ns['name'] != shape.export or not ns['exported'] for ns in d['namespaces']):
            c.fail(R, 'namespace', 'types are not declared under the exported name')
        items = [it for ns in d['namespaces'] for it in ns['items']]
        want = sorted(n for n in shape.types if n != shape.export)
        got = sorted(it.get('name', '?') for it in items)
        if want != got:
            c.fail(R, 'set of declarations', 'declared %s instead of %s' % (got[:12], want[:12]))
        for it in items:
            n = it.get('name')
            if n not in shape.types:
                continue
            k, v = shape.types[n]
            if it['kind'] != ('enum' if k == 'enum' else 'interface') or not it['exported']:
                c.fail(R, 'kind of %s' % k, '%s %s is declared as %s' % (k, n, it['kind']))
                continue
            if k == 'enum':
                if [m['name'] for m in it['members']] != v:
                    c.fail(R, 'variants', 'variants of %s' % n)
                continue
            fs = {f[0]: f for f in v}
            if sorted(fs) != sorted(m['name'] for m in it['members']):
                c.fail(R, 'members', 'members of %s: %s' % (n, [m['name'] for m in it['members']][:10]))
            for m in it['members']:
                if m['name'] in fs:
                    typed(c, R, shape, fs[m['name']], m, '', 'interface member')
        fs = {f[0]: f for f in shape.types[shape.export][1]}
        ctor = d['classes'][0]['ctor']
        if ctor is None or sorted(fs) != sorted(m['name'] for m in ctor):
            c.fail(R, 'constructor', 'constructor parameters are not the fields')
            return
        for m in ctor:
            typed(c, R, shape, fs[m['name']], m, shape.export + '.', 'constructor parameter')
            if not m['prop'] or m['priv']:
                c.fail(R, 'public', 'constructor parameter %s is not a public member' % m['name'])
    g = run(rep, 'P08', f)
    import p_check
    p_check.reachable_only(rep, g.prog)


def typed(c, R, shape, f, m, prefix, what):
    n, ty, arr, opt = f
    if ty == 'string':
        w = {'k': 'kw', 'n': 'string'}
    elif ty in BUILTINS:
        w = {'k': 'kw', 'n': 'number'}
    else:
        w = {'k': 'ref', 'n': prefix + ty}
    alt = [w]
    if prefix == '' and w['k'] == 'ref':
        alt.append({'k': 'ref', 'n': shape.export + '.' + ty})
    if arr:
        alt = [{'k': 'array', 'of': x} for x in alt]
    t, o = m['type'], m['opt']
    if t.get('k') == 'union':
        ts = [x for x in t['ts'] if x != {'k': 'kw', 'n': 'undefined'}]
        if len(ts) != len(t['ts']):
            o = True
        t = ts[0] if len(ts) == 1 else t
    kd = kind(shape, f)
    line = next((i for i, l in enumerate(c.lines) if (' ' + n + ':' in l or ' ' + n + '?:' in l) and
                 (('public' in l) == (what.startswith('constr')))), None)
    if t not in alt:
        c.fail(R, 'type of %s %s' % (what, kd), '%s of a field %s has type %s' % (what, kd, json.dumps(m['type'])), line)
    elif o != opt:
        c.fail(R, 'optionality of %s %s' % (what, kd), '%s of a field %s is %smarked as possibly undefined' % (what, kd, '' if o else 'not '), line)


SCOPE = {2304: 'undeclared name', 2552: 'undeclared name', 2451: 'declared twice', 2300: 'declared twice', 2448: 'used before its declaration',
         2454: 'used before it is assigned', 2503: 'unknown namespace', 2694: 'unknown type in namespace', 2305: 'no such import',
         2307: 'unknown module', 2339: 'no such member', 2551: 'no such member', 2440: 'conflicts with an import', 2663: 'undeclared name',
         18004: 'undeclared name', 2588: 'assignment to a constant', 2349: 'not callable', 2554: 'wrong number of arguments', 2693: 'type used as value'}


def check_P09(rep):
    R = 'the generated TypeScript is well formed'

    def f(c, shape, res, g):
        for d in res['syntax'][:3]:
            c.fail(R, 'syntax: ' + d['msg'][:60], 'line %d: %s' % (d['line'] + 1, d['msg']), d['line'])
        for d in res['sem']:
            if d['code'] in SCOPE:
                if d['code'] in (2339, 2551) and not ('Reader' in d['msg'] or 'Writer' in d['msg']):
                    continue
                if d['code'] == 2300 and shape.name.startswith('names') and d['at'] in ('write',):
                    continue
                c.fail(R, '%s: %s' % (SCOPE[d['code']], c.lines[d['line']].strip()[:60] if shape.name.startswith('single') else d['code']),
                       'line %d: %s' % (d['line'] + 1, d['msg']), d['line'])
        if not res['syntax']:
            names = {n[1] for i in res['decls']['imports'] if i['from'] == 'packet' for n in i['names']}
            for n in ('Reader', 'Writer'):
                if n not in names:
                    c.fail(R, 'import ' + n, '%s is not imported' % n)
            for cl in res['decls']['classes']:
                for mn, m in cl['methods'].items():
                    for o in all_ops(m.get('ir', [])):
                        if o['op'] in ('r', 'w') and o['p'] not in BUILTINS:
                            c.fail(R, 'helper ' + o['p'], 'unknown helper %s' % desc(o), o['line'])
    run(rep, 'P09', f)
