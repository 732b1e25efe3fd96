"""Instantiation of derived templates.

The abstract interpreter describes what the generator emits for an arbitrary
schema as one string template: literal text, holes, comprehensions over the
schema's lists, guarded alternatives, and references to the templates of
recursive functions.  `Inst` fills such a template in for a given shape (a
schema with placeholder names), so that every alternative of the template can
be looked at as TypeScript text.  Nothing of the analysed program is executed.
"""
from terms import *
import functools
import random
import re
import absint


class Stuck(Exception):
    pass


class NoReturn(Stuck):
    """a call that has no outcome: it panics or never ends"""


class V:
    """struct / enum / tuple value of a shape"""
    __slots__ = ('variant', 'f')

    def __init__(self, variant, f):
        self.variant = variant
        self.f = f

    def key(self):
        return (self.variant, tuple(x.key() if isinstance(x, V) else (tuple(x) if isinstance(x, list) else x) for x in self.f))

    def __eq__(self, o):
        return isinstance(o, V) and self.variant == o.variant and self.f == o.f

    def __hash__(self):
        return hash(self.variant)


class Elem:
    """position of a list during the instantiation of a comprehension"""
    __slots__ = ('v', 'i', 'pre')

    def __init__(self, v, i, pre):
        self.v, self.i, self.pre = v, i, pre


class Fn:
    """a function value of the program: applied by looking at its derived outcomes"""

    def __init__(self, inst, term, env):
        self.inst, self.term, self.env = inst, term, env

    def __call__(self, *vals):
        syms = [mk('sym', '#fn%d.%d' % (len(vals), i)) for i in range(len(vals))]
        key = ('fn', self.term, len(vals))
        alts = self.inst.fns.get(key)
        if alts is None:
            eng = self.inst.eng
            saved = eng.stack, eng.probe, eng.quiet
            eng.stack, eng.probe, eng.quiet = [], 0, eng.quiet + 1
            try:
                alts = eng.call_value(self.term, syms, absint.St(), None, None)
            finally:
                eng.stack, eng.probe, eng.quiet = saved
            self.inst.fns[key] = alts
        env = dict(self.env)
        env.update(zip(syms, vals))
        self.inst.calls += 1
        env['#fn'] = self.inst.calls
        for s, r in alts:
            if self.inst.guard(list(s.facts.items()), env):
                if s.taint:
                    raise Stuck('function depends on %s' % sorted(s.taint)[0])
                return self.inst.ev(r, env)
        raise Stuck('function value')


def matches(s, p):
    """[(from, to)] of the matches of a pattern: a text, characters or a predicate"""
    out = []
    if isinstance(p, str):
        if not p:
            raise Stuck('empty pattern')
        i = s.find(p)
        while i >= 0:
            out.append((i, i + len(p)))
            i = s.find(p, i + len(p))
        return out
    if isinstance(p, list):
        return [(i, i + 1) for i, c in enumerate(s) if c in p]
    if isinstance(p, Fn):
        return [(i, i + 1) for i, c in enumerate(s) if p(c)]
    raise Stuck('pattern')


def split_at(s, ms):
    out = []
    i = 0
    for a, b in ms:
        out.append(s[i:a])
        i = b
    return out + [s[i:]]


def lines(s):
    l = s.split('\n')
    if not l[-1]:
        l.pop()
    return [x[:-1] if x.endswith('\r') else x for x in l]


def blen(s):
    return len(s.encode('utf-8', 'surrogateescape'))


def strip(s, p, left, right):
    ms = matches(s, p)
    if left:
        while ms and ms[0][0] == 0:
            s = s[ms[0][1]:]
            ms = matches(s, p) if s else []
    if right and s:
        while s and (s.endswith(p) if isinstance(p, str) else matches(s[-1], p)):
            s = s[:-len(p)] if isinstance(p, str) else s[:-1]
    return s


RWS = ''.join(chr(c) for c in (9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000))


def ascii_lower(s):
    return ''.join(c.lower() if c.isascii() else c for c in s)


def plain(v):
    if isinstance(v, V):
        return (v.variant, [plain(x) for x in v.f])
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v if isinstance(v, (str, int, bool)) else type(v).__name__


def time_like(name, args):
    return 'chrono' in name or '::time::' in name or any(isinstance(a, str) and a.startswith('TIME') for a in args)


class World(dict):
    """a map with unknown content: every key may have a value"""

    def __init__(self, inst, name, args, ty, n):
        super().__init__()
        self.w = (inst, name, args, ty, n)

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        i, name, args, ty, n = self.w
        v = dict.get(self, k)
        return v if v is not None or ty is None else i.world(name, args + [k], ty, n + 1)

    def get(self, k, d=None):
        return self[k]


def parse_int(s, bits=None, signed=0):
    if bits is None:
        raise Stuck('function str_parse')
    if not re.fullmatch(r'[+-]?[0-9]+' if signed else r'[+]?[0-9]+', s):
        return V(1, ['ParseIntError'])
    n = int(s)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    return V(0, [n]) if lo <= n <= hi else V(1, ['ParseIntError'])


COMPARE = {'str_starts_with', 'str_ends_with', 'str_contains', 'str_eq_ignore_ascii_case'}


class WorldList(list):
    """a list with unknown content: everything may be in it"""

    def __contains__(self, k):
        return True


INTF = re.compile(r'(core|std)::num::<impl ([iu])(\d+|size)>::(\w+)$')
INTFUN = {'is_power_of_two', 'next_power_of_two', 'count_ones', 'count_zeros', 'leading_zeros', 'trailing_zeros', 'ilog2', 'abs_diff', 'rem_euclid', 'div_euclid',
          'div_ceil', 'isqrt', 'abs', 'signum'} | {p + '_' + o for p in ('checked', 'wrapping', 'saturating') for o in ('add', 'sub', 'mul', 'div', 'rem', 'shl', 'shr', 'pow')}


def int_fun(name, n, signed, vs):
    """an integer function of the standard library on values of its type"""
    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if signed else (0, (1 << n) - 1)

    def wrap(v):
        v &= (1 << n) - 1
        return v - (1 << n) if signed and v > hi else v
    a = vs[0]
    b = vs[1] if len(vs) > 1 else None
    if '_' in name and name.split('_')[0] in ('checked', 'wrapping', 'saturating'):
        how, op = name.split('_')
        if op in ('div', 'rem') and b == 0:
            if how == 'checked':
                return V(0, [])
            raise NoReturn('division by zero')
        if op in ('shl', 'shr'):
            if how == 'saturating':
                raise Stuck('function ' + name)
            if how == 'checked' and b >= n:
                return V(0, [])
            v = wrap(a << b % n if op == 'shl' else a >> b % n)
            return V(1, [v]) if how == 'checked' else v
        v = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'pow': lambda: a ** b,
             'div': lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), 'rem': lambda: abs(a) % abs(b) * (-1 if a < 0 else 1)}[op]()
        if how == 'checked':
            return V(1, [v]) if lo <= v <= hi else V(0, [])
        return wrap(v) if how == 'wrapping' else min(max(v, lo), hi)
    u = a & (1 << n) - 1
    if name == 'is_power_of_two':
        return u != 0 and u & (u - 1) == 0
    if name == 'next_power_of_two':
        return 1 << max(a - 1, 0).bit_length()
    if name == 'count_ones':
        return bin(u).count('1')
    if name == 'count_zeros':
        return n - bin(u).count('1')
    if name == 'leading_zeros':
        return n - u.bit_length()
    if name == 'trailing_zeros':
        return (u & -u).bit_length() - 1 if u else n
    if name == 'abs_diff':
        return abs(a - b)
    if name in ('abs', 'signum'):
        return abs(a) if name == 'abs' else (a > 0) - (a < 0)
    if name == 'ilog2' and a > 0:
        return a.bit_length() - 1
    if name in ('rem_euclid', 'div_euclid', 'div_ceil') and b and b > 0:
        return a % b if name == 'rem_euclid' else a // b if name == 'div_euclid' else -(-a // b)
    if name == 'isqrt' and a >= 0:
        return int(a ** 0.5)
    raise Stuck('function ' + name)


class Inst:
    def __init__(self, eng):
        self.eng = eng
        self.p = eng.p
        self.summaries = {}
        self.used = set()       # guarded alternatives that were taken: (term) ids
        self.depth = 0
        self.sites = {}
        self.memo = {}
        self.frames = 0
        self.fns = {}
        self.nd = set()
        self.ndm = {}
        self.active = []
        self.memoable = {}
        self.calls = 0
        self.strict = False

    # ---- terms
    def ev(self, t, env):
        if isinstance(t, str):
            return t
        k = t.t
        f = getattr(self, 't_' + k, None)
        if f is None:
            raise Stuck('term %s' % k)
        return f(t, env)

    def t_lin(self, t, env):
        r = t.a[0]
        for x, k in t.a[1]:
            v = self.ev(x, env)
            if isinstance(v, bool) or not isinstance(v, int):
                raise Stuck('number %s %s' % (x.t, type(v).__name__))
            r += k * v
        return r

    def t_bool(self, t, env):
        return t.a[0]

    def t_chr(self, t, env):
        return chr(t.a[0])

    def t_vref(self, t, env):
        return self.ev(t.a[0], env)

    def t_sym(self, t, env):
        if t in env:
            return env[t]
        raise Stuck('symbol %s' % (t.a[0],))

    seed = 0        # which of the possible worlds: hash order, time, environment, state left by earlier calls

    def t_nd(self, t, env):
        name, vals, ty = t.a
        if name.startswith('static ') and name not in self.eng.static_writes:
            raise Stuck(name)
        self.nd.add(name)
        args = [self.ev(v, env) if isinstance(v, T) else v for v in vals]
        return self.world(name, args, ty)

    t_ndi = t_nd

    def world(self, name, args, ty, n=0):
        """a value of this type in the current world"""
        t = self.p.types[ty]
        k = t['k']
        r = random.Random(repr((self.seed, name, [plain(a) for a in args], n)))
        kind = absint.kind_of(t)
        if k == 'ptr' or name.endswith('::as_ptr'):
            return r.randrange(1 << 40) if self.seed else 0
        if k == 'ref':
            return self.world(name, args, t['t'], n)
        if k == 'bool':
            return bool(self.seed & 1)
        if k == 'int' or absint.atomic_of(t) and 'Bool' not in t['name']:
            if self.seed == 3 and (k != 'int' or t['bits'] >= 16):
                return r.randrange(4000, 5000)
            return r.randrange(3, 120) if self.seed else 0
        if k == 'char':
            return chr(97 + self.seed)
        if k in ('str',) or kind == 'str':
            if self.seed == 5 and not time_like(name, args):
                return '1'
            return ('TIME%d' if time_like(name, args) else 'ND%d') % self.seed
        if k == 'tuple':
            return V(0, [self.world(name, args, x, n + 1 + i) for i, x in enumerate(t['ts'])])
        if kind == 'vec':
            return WorldList([self.world(name, args, t['args'][0], n + 1)]) if self.seed else []
        if kind in ('map', 'set'):
            return World(self, name, args, t['args'][1] if kind == 'map' else None, n) if self.seed else {}
        if kind == 'option':
            return V(1, [self.world(name, args, t['args'][0], n)]) if self.seed & 1 else V(0, [])
        if kind == 'result':
            i = 0 if self.seed & 1 else 1
            return V(i, [self.world(name, args, t['args'][i], n)])
        if k == 'adt' and t['path'] in absint.TRANSPARENT and t.get('args'):
            return self.world(name, args, t['args'][0], n)
        if absint.atomic_of(t):
            return bool(self.seed & 1)
        return ('TIME%d' if time_like(name, args) else 'ND%d') % self.seed

    def t_e(self, t, env):
        if t in env:
            return env[t].v
        raise Stuck('element')

    def t_idx(self, t, env):
        if t.a[0] in env:
            return env[t.a[0]].i
        raise Stuck('index')

    def t_pre(self, t, env):
        e = elem(t.a[0], t.a[1])
        if e in env:
            return env[e].pre
        raise Stuck('prefix')

    def t_fld(self, t, env):
        b = self.ev(t.a[0], env)
        if isinstance(b, V):
            if b.variant != t.a[1]:
                raise Stuck('field of another variant')
            return b.f[t.a[2]]
        raise Stuck('field of %s' % type(b).__name__)

    def t_adt(self, t, env):
        return V(t.a[1], [self.ev(x, env) for x in t.a[2]])

    def t_tup(self, t, env):
        return V(0, [self.ev(x, env) for x in t.a])

    def t_buf(self, t, env):
        return ''

    def t_str(self, t, env):
        return ''.join(self.segstr(p, env) for p in t.a[0])

    def segstr(self, p, env):
        if isinstance(p, str):
            return p
        if p.t == 'for':
            return ''.join(''.join(self.segstr(q, e2) for q in p.a[2]) for e2 in self.each(p, env))
        if p.t == 'if':
            if self.guard(p.a[0], env):
                self.used.add(p)
                return ''.join(self.segstr(q, env) for q in p.a[1])
            return ''
        if p.t == 'nt':
            return self.nt(p, env)
        v = self.ev(p, env)
        if not isinstance(v, str):
            raise Stuck('text %s' % p.t)
        return v

    def each(self, p, env, m=None):
        L, b, _ = p.a
        lst = self.items(L, env)
        for i, v in enumerate(lst):
            e2 = dict(env)
            e2[b] = Elem(v, i, lst[:i])
            if m is not None:
                e2[mk('cur', b)] = dict(m)
            yield e2

    def items(self, L, env):
        v = self.ev(L, env)
        if isinstance(v, dict):
            raise Stuck('iteration over a map')
        if isinstance(v, str):
            # only the bytes of a text can be looked at as a sequence
            return list(v.encode())
        if not isinstance(v, list):
            raise Stuck('iteration over %s' % type(v).__name__)
        return v

    def segs(self, ss, env):
        out = []
        for s in ss:
            if s.t == 'one':
                out.append(self.ev(s.a[0], env))
            elif s.t == 'for':
                for e2 in self.each(s, env):
                    out += self.segs(s.a[2], e2)
            elif s.t == 'if':
                if self.guard(s.a[0], env):
                    self.used.add(s)
                    out += self.segs(s.a[1], env)
            elif s.t == 'recseg':
                run = self.call(s.a[0], env)
                new = self.ev(run['leaves'][s.a[1]], run['env'])
                out += new[len(run['in'].get(s.a[1], [])):]
            else:
                raise Stuck('list part %s' % s.t)
        return out

    def t_list(self, t, env):
        r = self.segs(t.a, env)
        if self.seed and t.a and t.a[0].t == 'for' and isinstance(self.ev(t.a[0].a[0], env), WorldList):
            return WorldList(r)
        return r

    def t_it(self, t, env):
        return self.segs(t.a[0], env)

    def t_range(self, t, env):
        return list(range(self.ev(t.a[0], env)))

    def t_rev(self, t, env):
        return self.items(t.a[0], env)[::-1]

    def t_sorted(self, t, env):
        lst = self.items(t.a[0], env)
        key = t.a[1]
        desc = key.t == 'desc'
        if desc:
            key = key.a[0]

        def kf(x):
            r = self.ev(key, dict(env, **{}) | {mk('sym', '#'): x, mk('sym', '##'): x})
            return r.key() if isinstance(r, V) else r
        return sorted(lst, key=kf, reverse=desc)

    def t_sortf(self, t, env):
        """sorted by a function of the program"""
        lst = self.items(t.a[0], env)
        f = self.ev(t.a[2], env)
        if not callable(f):
            raise Stuck('order')
        if t.a[1] == 'key':
            def kf(x):
                r = f(x)
                return r.key() if isinstance(r, V) else r
            return sorted(lst, key=kf)

        def cmp(a, b):
            r = f(a, b)
            if not isinstance(r, V) or r.variant not in (0, 1, 2):
                raise Stuck('order')
            return r.variant - 1
        return sorted(lst, key=functools.cmp_to_key(cmp))

    def t_cmp(self, t, env):
        a, b = [self.ev(x, env) for x in t.a]
        a, b = [x.key() if isinstance(x, V) else x for x in (a, b)]
        if type(a) is not type(b) or isinstance(a, dict):
            raise Stuck('comparison')
        return V(0 if a < b else 2 if a > b else 1, [])

    def t_ordrev(self, t, env):
        return V(2 - self.ev(t.a[0], env).variant, [])

    def t_ordthen(self, t, env):
        a = self.ev(t.a[0], env)
        return a if a.variant != 1 else self.ev(t.a[1], env)

    def t_entries(self, t, env):
        m = self.ev(t.a[0], env)
        if not isinstance(m, dict):
            raise Stuck('entries')
        items = [V(0, [k, v]) for k, v in m.items()]
        if t.a[1] == 'btree':
            items.sort(key=lambda x: x.f[0])
        elif self.seed and len(items) > 1:
            self.nd.add('hash order')
            if self.seed == 1:
                items.reverse()
            else:
                random.Random(repr((self.seed, sorted(repr(k) for k in m)))).shuffle(items)
        return items

    def t_map(self, t, env):
        if '#frame' not in env:
            return self.map1(t, env)
        ok = self.memoable.get(t)
        if ok is None:
            ok = self.memoable[t] = 0 if not t.a[0] or len(t.a[0]) == 1 and t.a[0][0].t in ('base', 'cur') \
                else 2 if any(x.t == 'cur' for x in absint.subterms(t)) else 1
        if not ok:
            return self.map1(t, env)
        key = (t, env['#frame'], env.get('#fn'), ok == 2 and env.get('#map'), tuple(sorted((e.i, env[e].i) for e in frees(t) if e in env and isinstance(env[e], Elem))))
        r = self.memo.get(key)
        if r is None:
            r = self.map1(t, env)
            if type(r) is not dict:
                return r
            self.memo[key] = r
        return dict(r)

    def map1(self, t, env):
        m = {}
        if t.a[0] and t.a[0][0].t == 'base':
            b = self.ev(t.a[0][0].a[0], env)
            if isinstance(b, World):
                m = World(*b.w)
        if '#frame' in env and any(o.t == 'for' for o in t.a[0]):
            # whose current content a loop looks at
            env = dict(env)
            env['#map'] = (t, env.get('#map'))
        self.mapops(t.a[0], env, m)
        return m

    def mapops(self, ops, env, m):
        for o in ops:
            if o.t == 'base':
                b = self.ev(o.a[0], env)
                if not isinstance(b, dict):
                    raise Stuck('map')
                m.update(b)
            elif o.t == 'ins':
                m[self.hk(self.ev(o.a[0], env))] = self.ev(o.a[1], env)
            elif o.t == 'rem':
                m.pop(self.hk(self.ev(o.a[0], env)), None)
            elif o.t == 'for':
                for e2 in self.each(o, env, m):
                    self.mapops(o.a[2], e2, m)
            elif o.t == 'if':
                if self.guard(o.a[0], env):
                    self.mapops(o.a[1], env, m)
            elif o.t == 'retain':
                E, alts = o.a
                for i, k in enumerate(list(m)):
                    e2 = dict(env)
                    e2[E] = Elem(V(0, [k, m[k]]), i, [])
                    if not any(self.guard(g, e2) for g in alts):
                        del m[k]
            elif o.t == 'cur':
                if o not in env:
                    raise Stuck('container during a loop')
                m.update(env[o])
            elif o.t == 'rec':
                call, leaf = o.a
                run = self.call(call, env)
                if leaf not in run['in'] or self.dk(run['in'][leaf]) != self.dk(m):
                    raise Stuck('context of a recursive call')
                new = self.ev(run['leaves'][leaf], run['env'])
                if not isinstance(new, dict):
                    raise Stuck('effect of a recursive call')
                m.clear()
                m.update(new)
            else:
                raise Stuck('map operation %s' % o.t)

    def dk(self, m):
        return dict(m)

    # ---- recursive calls
    def t_ret(self, t, env):
        run = self.call(t.a[0], env)
        return self.ev(run['ret'], run['env'])

    def unify(self, a, b, out):
        """element renaming under which term a reads b"""
        if a is b:
            return True
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(self.unify(x, y, out) for x, y in zip(a, b))
            if isinstance(a, frozenset) and isinstance(b, frozenset):
                return len(a) == len(b)
            return a == b
        if a.t == 'map' and b.t == 'map' and any(x.a[0] and x.a[0][0].t == 'cur' for x in (a, b)):
            return True
        if a.t != b.t:
            return False
        if a.t == 'e':
            if out.get(a, b) is not b:
                return False
            out[a] = b
            return True
        if a.t == 'pre':
            return True
        return self.unify(a.a, b.a, out)

    def site(self, call):
        r = self.sites.get(call)
        if r is None:
            c = self.eng.ctx
            if call in c:
                r = (call, {})
            else:
                ms = []
                for k in c:
                    m = {}
                    if k.a[0] == call.a[0] and self.unify(k.a[1], call.a[1], m):
                        ms.append((k, m))
                # prefer the call made for the element itself
                best = min((depth_of(k) for k, _ in ms), default=0)
                ms = [(k, m) for k, m in ms if depth_of(k) == best]
                if len(ms) != 1:
                    raise Stuck('%d contexts of a recursive call' % len(ms))
                r = ms[0]
            self.sites[call] = r
        return r

    def call(self, call, env):
        fr = tuple(sorted((e.i, env[e].i) for e in frees(call) if e in env and isinstance(env[e], Elem)))
        key = (call, env.get('#frame'), fr)
        r = self.memo.get(key)
        if r is not None:
            if isinstance(r, Stuck):
                raise r
            return r
        try:
            r = self.call1(call, env)
        except Stuck as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def call1(self, call, env):
        site, ren = self.site(call)
        e1 = dict(env)
        for a, b in ren.items():
            if b in env:
                e1[a] = env[b]
        bid = site.a[0]
        sm = self.summary(bid)
        vals = {leaf: self.ev(v, e1) for leaf, v in self.eng.ctx[site][1].items()}
        self.frames += 1
        e2 = {'#frame': self.frames}
        for i, f in enumerate(sm['args']):
            f = self.eng.deep(sm['st0'], f)
            if (i, '*') in vals:
                if f.t == 'map' and len(f.a[0]) == 1 and f.a[0][0].t == 'base':
                    e2[f.a[0][0].a[0]] = vals[(i, '*')]
                    continue
                if f.t == 'list' and len(f.a) == 1 and f.a[0].t == 'for':
                    e2[f.a[0].a[0]] = vals[(i, '*')]
                    continue
                raise Stuck('changed argument')
            self.bind(f, site.a[1][i], e1, e2)
        now = (bid, {k: v for k, v in e2.items() if k != '#frame'})
        if now in self.active:
            raise NoReturn('%s calls itself without end' % self.p.bodies[bid]['path'])
        if len(self.active) > 60:
            raise Stuck('nesting')
        self.active.append(now)
        try:
            (s, r, leaves), e3 = self.choose1(sm['outs'], e2, self.p.bodies[bid]['path'])
            return {'ret': r, 'leaves': leaves, 'env': e3, 'in': vals, 'st': s}
        finally:
            self.active.pop()

    def assignments(self, free, env, facts, unknown):
        """values of the elements an outcome stopped at"""
        free = [e for e in free if e not in env]
        if not free:
            yield env
            return
        for e in free:
            if not any(x in free for x in frees(e.a[0]) if x is not e):
                break
        try:
            lst = self.items(e.a[0], env)
        except Stuck as ex:
            # no such list here: the facts say so, or it is not known
            try:
                if not self.guard(facts, env):
                    return
            except Stuck:
                pass
            unknown.append(ex)
            return
        for i, v in enumerate(lst):
            e2 = dict(env)
            e2[e] = Elem(v, i, lst[:i])
            yield from self.assignments(free, e2, facts, unknown)

    def choose1(self, outs, env, who):
        """the outcome that applies, with the elements it stopped at"""
        good = []
        unknown = []
        for o in outs:
            facts = list(o[0].facts.items())
            free = frees(tuple(p for p, _ in facts)) | frees(o[1]) | frees(tuple(o[2].values()))
            try:
                for e2 in self.assignments(sorted(free, key=lambda x: x.i), env, facts, unknown):
                    try:
                        if self.guard(facts, e2):
                            good.append((o, e2))
                            break
                    except Stuck as e:
                        unknown.append(e)
            except Stuck as e:
                unknown.append(e)
        if len(good) > 1:
            # the same result under several descriptions is one result
            if len({(o[1], tuple(sorted(o[2].items(), key=str)), frozenset(o[0].taint)) for o, _ in good}) > 1:
                raise Stuck('%d outcomes of %s apply' % (len(good), who))
        if not good:
            for e in unknown:
                if not isinstance(e, NoReturn):
                    raise e
            raise unknown[0] if unknown else NoReturn('%s does not return' % who)
        o = good[0]
        if o[0][0].taint:
            raise Stuck('outcome depends on %s' % sorted(o[0][0].taint)[0])
        return o

    def t_match(self, t, env):
        lst = t.a[0]
        seg = lst.a[0]
        r = None
        for e2 in self.each(seg, env):
            if self.segs(seg.a[2], e2):
                r = e2[seg.a[1]].v
        if r is None:
            raise Stuck('no match')
        return r

    def t_picked(self, t, env):
        return self.t_last(t, env)

    def hk(self, k):
        return k.key() if isinstance(k, V) else k

    def t_in(self, t, env):
        if self.seed == 3 and self.from_nd(t):
            return True
        m = self.ev(t.a[0], env)
        return self.hk(self.ev(t.a[1], env)) in m

    def t_lookup(self, t, env):
        m = self.ev(t.a[0], env)
        k = self.hk(self.ev(t.a[1], env))
        if k not in m:
            raise Stuck('lookup')
        return m[k]

    def t_len(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, dict):
            return len(v)
        return len(v) if isinstance(v, list) else len(v.encode()) if isinstance(v, str) else len(self.items(t.a[0], env))

    def t_clo(self, t, env):
        return Fn(self, t, env)

    def t_fn(self, t, env):
        return Fn(self, t, env)

    def t_take(self, t, env):
        return self.items(t.a[0], env)[:self.ev(t.a[1], env)]

    def t_skip(self, t, env):
        return self.items(t.a[0], env)[self.ev(t.a[1], env):]

    def t_stepby(self, t, env):
        return self.items(t.a[0], env)[::self.ev(t.a[1], env)]

    def t_takewhile(self, t, env):
        l, f = self.items(t.a[0], env), self.ev(t.a[1], env)
        n = next((i for i, x in enumerate(l) if not f(x)), len(l))
        return l[:n]

    def t_skipwhile(self, t, env):
        l, f = self.items(t.a[0], env), self.ev(t.a[1], env)
        n = next((i for i, x in enumerate(l) if not f(x)), len(l))
        return l[n:]

    def t_keepif(self, t, env):
        f = self.ev(t.a[1], env)
        return [x for x in self.items(t.a[0], env) if f(x)]

    def t_dropif(self, t, env):
        f = self.ev(t.a[1], env)
        return [x for x in self.items(t.a[0], env) if not f(x)]

    def t_agg(self, t, env):
        l = self.items(t.a[1], env)
        if not all(type(x) in (int, str) for x in l):
            raise Stuck(t.a[0])
        if t.a[0] in ('max', 'min'):
            return max(l) if t.a[0] == 'max' else min(l)
        r = 0 if t.a[0] == 'sum' else 1
        for x in l:
            r = r + x if t.a[0] == 'sum' else r * x
        return r

    t_aggx = t_agg

    def t_aggkey(self, t, env):
        l, f = self.items(t.a[1], env), self.ev(t.a[2], env)
        ks = [f(x) for x in l]
        if not all(type(x) in (int, str, bool) for x in ks):
            raise Stuck(t.a[0])
        # the last of the largest, the first of the smallest
        best = 0
        for i, k in enumerate(ks):
            if k >= ks[best] if t.a[0] == 'max_by_key' else k < ks[best]:
                best = i
        return l[best]

    def t_dedup(self, t, env):
        out = []
        for x in self.items(t.a[0], env):
            if not out or out[-1] != x:
                out.append(x)
        return out

    def t_pad(self, t, env):
        v, flags, w, pr = t.a
        s = self.segstr(v, env) if not isinstance(v, str) else v
        if not isinstance(s, str):
            raise Stuck('pad')
        fill, align = ' ', 3
        if flags != -1:
            fl = flags if isinstance(flags, int) else self.ev(flags, env)
            fill, align = chr(fl & 0x1FFFFF), fl >> 29 & 3
            if fl >> 21 & 0x7F & ~0x40 & ~0x80:
                raise Stuck('format flags')
        if pr.t != 'none':
            if v.t == 'dec':
                raise Stuck('format precision')
            s = s[:self.ev(pr, env)]
        n = (self.ev(w, env) if w.t != 'none' else 0) - len(s)
        if n <= 0:
            return s
        if align == 3:
            align = 1 if v.t == 'dec' else 0
        l = n if align == 1 else 0 if align == 0 else n // 2
        return fill * l + s + fill * (n - l)

    def t_slen(self, t, env):
        v = self.ev(t.a[0], env)
        if not isinstance(v, str):
            raise Stuck('slen')
        return len(v.encode())

    def t_dec(self, t, env):
        return str(self.ev(t.a[0], env))

    def t_ch(self, t, env):
        v = self.ev(t.a[0], env)
        return chr(v) if isinstance(v, int) and 0 <= v < 0xD800 else v

    def t_join(self, t, env):
        l = self.items(t.a[0], env)
        return self.ev(t.a[1], env).join(l)

    def t_repeat(self, t, env):
        return self.ev(t.a[0], env) * self.ev(t.a[1], env)

    def t_trunc(self, t, env):
        return self.ev(t.a[0], env).encode()[:self.ev(t.a[1], env)].decode()

    def t_slice(self, t, env):
        s = self.ev(t.a[0], env).encode()
        lo = self.ev(t.a[1], env)
        hi = len(s) if t.a[2].t == 'end' else self.ev(t.a[2], env)
        if not 0 <= lo <= hi <= len(s):
            raise Stuck('slice')
        return s[lo:hi].decode()

    def t_sub(self, t, env):
        l = self.items(t.a[0], env)
        lo = self.ev(t.a[1], env)
        hi = len(l) if t.a[2].t == 'end' else self.ev(t.a[2], env)
        return l[lo:hi]

    def t_zipped(self, t, env):
        return [V(0, [x, y]) for x, y in zip(self.items(t.a[0], env), self.items(t.a[1], env))]

    def t_windows(self, t, env):
        l, n = self.items(t.a[0], env), self.ev(t.a[1], env)
        return [l[i:i + n] for i in range(len(l) - n + 1)]

    def t_chunks(self, t, env):
        l, n = self.items(t.a[0], env), self.ev(t.a[1], env)
        return [l[i:i + n] for i in range(0, len(l), n)]

    def t_removed(self, t, env):
        l, i = self.items(t.a[0], env), self.ev(t.a[1], env)
        if not 0 <= i < len(l):
            raise Stuck('index out of bounds')
        return l[:i] + l[i + 1:]

    def t_at(self, t, env):
        l = self.items(t.a[0], env)
        i = self.ev(t.a[1], env)
        if not 0 <= i < len(l):
            raise Stuck('index out of bounds')
        return l[i]

    def t_last(self, t, env):
        l = self.items(t.a[0], env)
        if not l:
            raise Stuck('last')
        return l[-1]

    def t_lastof(self, t, env):
        return self.t_last(t, env)

    def t_cv(self, t, env):
        if t in env:
            return env[t]
        raise Stuck('carried value')

    def t_carried(self, t, env):
        k, inits, f = t.a
        vals = [self.ev(x, env) for x in inits]
        for e2 in self.each(f, env):
            for i, v in enumerate(vals):
                e2[mk('cv', f.a[1], i)] = v
            for alt in f.a[2]:
                if self.guard(alt.a[0], e2):
                    vals = [self.ev(x, e2) for x in alt.a[1]]
                    break
            else:
                raise Stuck('carried value')
        return vals[k]

    def t_pick(self, t, env):
        l = self.items(t.a[0], env)
        return V(1, [l[-1]]) if l else V(0, [])

    def t_optif(self, t, env):
        return V(1, [self.ev(t.a[1], env)]) if self.ev(t.a[0], env) else V(0, [])

    def t_cast(self, t, env):
        v = self.ev(t.a[1], env)
        w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(t.a[0])
        if isinstance(v, bool):
            v = int(v)
        if w and isinstance(v, int):
            return v & ((1 << w) - 1)
        if t.a[0] in ('i32', 'i64', 'isize', 'i8', 'i16', 'i128') and isinstance(v, int):
            w = int(t.a[0][1:]) if t.a[0] != 'isize' else 64
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        if t.a[0] == 'char' and isinstance(v, int):
            return chr(v & 255)
        if isinstance(v, str) and len(v) == 1 and w:
            return ord(v) & ((1 << w) - 1)
        raise Stuck('cast')

    def t_arith(self, t, env):
        op = t.a[0]
        a = self.ev(t.a[1], env)
        b = self.ev(t.a[2], env) if len(t.a) > 2 else None
        if op == 'mul':
            return a * b
        if op in ('div',) and b:
            return a // b
        if op in ('rem',) and b:
            return a % b
        if op.startswith('shl'):
            return a << b
        if op.startswith('shr'):
            return a >> b
        if op == 'pow':
            return a ** b
        if op == 'bitand':
            return a & b
        if op == 'bitor':
            return a | b
        if op == 'bitxor':
            return a ^ b
        raise Stuck('arith %s' % op)

    def t_display(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, (str, int)):
            return str(v)
        raise Stuck('display')

    def t_discr(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, V):
            return v.variant
        raise Stuck('discr')

    # predicates
    def t_not(self, t, env):
        return not self.ev(t.a[0], env)

    def t_and(self, t, env):
        return all(self.ev(x, env) for x in t.a)

    def t_or(self, t, env):
        return any(self.ev(x, env) for x in t.a)

    def t_pos(self, t, env):
        return self.ev(t.a[0], env) > 0

    def from_nd(self, t):
        """a comparison with a source of nondeterminism, which may come out either way"""
        r = self.ndm.get(t)
        if r is None:
            r = self.ndm[t] = absint.depends_nd(t)
        return r

    def t_eqz(self, t, env):
        if self.seed == 3 and self.from_nd(t):
            return True
        return self.ev(t.a[0], env) == 0

    def t_eq(self, t, env):
        if self.seed == 3 and self.from_nd(t):
            return True
        return self.ev(t.a[0], env) == self.ev(t.a[1], env)

    def t_isvar(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, V):
            return v.variant == t.a[1]
        raise Stuck('isvar')

    def t_forall(self, t, env):
        stuck = None
        for e2 in self.each(t, env):
            ok = False
            st = None
            for g in t.a[2]:
                try:
                    if self.guard(g, e2):
                        ok = True
                        break
                except Stuck as e:
                    st = e
            if not ok and st is None:
                return False
            if not ok:
                stuck = st
                break
        if stuck:
            raise stuck
        return True

    STRF = {
        'str_trim': lambda s: s.strip(RWS), 'str_trim_start': lambda s: s.lstrip(RWS), 'str_trim_end': lambda s: s.rstrip(RWS),
        'str_to_lowercase': lambda s: s.lower(), 'str_to_uppercase': lambda s: s.upper(),
        'str_to_ascii_lowercase': lambda s: ascii_lower(s), 'str_to_ascii_uppercase': lambda s: ''.join(c.upper() if c.isascii() else c for c in s),
        'str_len': blen, 'str_is_empty': lambda s: not s,
        'str_eq_ignore_ascii_case': lambda a, b: ascii_lower(a) == ascii_lower(b),
        'str_parse': lambda s, *a: parse_int(s, *a),
        'str_is_ascii': lambda s: all(ord(c) < 128 for c in s),
        'chars': lambda s: list(s), 'bytes': lambda s: list(s.encode()),
        'split_whitespace': lambda s: s.split(), 'lines': lines,
        'char_indices': lambda s: [V(0, [blen(s[:i]), c]) for i, c in enumerate(s)],
        'str_is_char_boundary': lambda s, i: i == 0 or i == blen(s) or (i < blen(s) and s.encode()[i] & 0xC0 != 0x80),
        # with a pattern
        'str_starts_with': lambda s, p: s.startswith(p) if isinstance(p, str) else bool(s and matches(s[0], p)),
        'str_ends_with': lambda s, p: s.endswith(p) if isinstance(p, str) else bool(s and matches(s[-1], p)),
        'str_contains': lambda s, p: p in s if isinstance(p, str) else bool(matches(s, p)),
        'str_replace': lambda s, a, b: b.join(split_at(s, matches(s, a))),
        'str_replacen': lambda s, a, b, n: b.join(split_at(s, matches(s, a)[:n])),
        'str_trim_matches': lambda s, p: strip(s, p, True, True), 'str_trim_start_matches': lambda s, p: strip(s, p, True, False),
        'str_trim_end_matches': lambda s, p: strip(s, p, False, True),
        'matches': lambda s, p: [s[a:b] for a, b in matches(s, p)], 'rmatches': lambda s, p: [s[a:b] for a, b in matches(s, p)][::-1],
        'split': lambda s, p: split_at(s, matches(s, p)), 'rsplit': lambda s, p: split_at(s, matches(s, p))[::-1],
        'split_terminator': lambda s, p: (lambda l: l if l[-1] else l[:-1])(split_at(s, matches(s, p))),
        'split_inclusive': lambda s, p: [x for x in split_at(s, [(b, b) for _, b in matches(s, p)]) if x],
        'splitn': lambda s, n, p: split_at(s, matches(s, p)[:n - 1]),
        'str_find': lambda s, p: V(1, [blen(s[:matches(s, p)[0][0]])]) if matches(s, p) else V(0, []),
        'str_rfind': lambda s, p: V(1, [blen(s[:matches(s, p)[-1][0]])]) if matches(s, p) else V(0, []),
        'str_strip_prefix': lambda s, p: V(1, [s[len(p):]]) if s.startswith(p) else V(0, []),
        'str_strip_suffix': lambda s, p: V(1, [s[:-len(p)] if p else s]) if s.endswith(p) else V(0, []),
        'str_split_at': lambda s, i: V(0, [s.encode()[:i].decode(), s.encode()[i:].decode()]),
        'str_split_once': lambda s, p: V(1, [V(0, split_at(s, matches(s, p)[:1]))]) if matches(s, p) else V(0, []),
        'str_rsplit_once': lambda s, p: V(1, [V(0, split_at(s, matches(s, p)[-1:]))]) if matches(s, p) else V(0, []),
    }

    CHARF = {
        'is_alphanumeric': lambda c: c.isalnum(), 'is_alphabetic': lambda c: c.isalpha(), 'is_numeric': lambda c: c.isnumeric(),
        'is_whitespace': lambda c: c in RWS, 'is_uppercase': lambda c: c.isupper(), 'is_lowercase': lambda c: c.islower(),
        'is_ascii': lambda c: c.isascii(), 'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(), 'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(),
        'is_ascii_digit': lambda c: c in '0123456789', 'is_ascii_uppercase': lambda c: 'A' <= c <= 'Z', 'is_ascii_lowercase': lambda c: 'a' <= c <= 'z',
        'is_ascii_whitespace': lambda c: c in ' \t\n\r\x0c', 'is_ascii_punctuation': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' ',
        'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160, 'is_ascii_control': lambda c: ord(c) < 32 or ord(c) == 127,
        'is_ascii_graphic': lambda c: 33 <= ord(c) <= 126, 'len_utf8': lambda c: len(c.encode()),
        'to_ascii_uppercase': lambda c: c.upper() if c.isascii() else c, 'to_ascii_lowercase': lambda c: c.lower() if c.isascii() else c,
        'escape_default': lambda c: {'\t': '\\t', '\r': '\\r', '\n': '\\n', "'": "\\'", '"': '\\"', '\\': '\\\\'}.get(c) or (c if 32 <= ord(c) <= 126 else '\\u{%x}' % ord(c)),
        'escape_unicode': lambda c: '\\u{%x}' % ord(c),
    }

    def t_end(self, t, env):
        return None

    def t_app(self, t, env):
        name, args = t.a
        if name == 'slice_ok':
            s, lo, hi = [self.ev(x, env) for x in args]
            if not isinstance(s, str):
                raise Stuck('slice')
            b = s.encode()
            hi = len(b) if hi is None else hi
            return 0 <= lo <= hi <= len(b) and all(i in (0, len(b)) or b[i] & 0xC0 != 0x80 for i in (lo, hi))
        if '<impl char>::' in name and name.split('::')[-1] in self.CHARF and len(args) == 1:
            c = self.ev(args[0], env)
            if isinstance(c, str) and len(c) == 1:
                return self.CHARF[name.split('::')[-1]](c)
            raise Stuck('function %s' % name)
        if 'Utc::now' in name or 'Local::now' in name or 'to_rfc' in name or name.startswith('chrono::'):
            self.nd.add(name)
            return 'TIME%d' % self.seed if self.seed else 'TIME'
        if name == 'env_var':
            self.nd.add('environment')
            return V(1, ['VarError']) if not self.seed & 1 else V(0, ['1' if self.seed == 5 else 'ND%d' % self.seed])
        if name in COMPARE and self.seed == 3 and self.from_nd(t):
            return True
        m = INTF.match(name)
        if m and m.group(4) in INTFUN:
            vs = [self.ev(x, env) for x in args]
            if not all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
                raise Stuck('function %s' % name)
            n = 64 if m.group(3) == 'size' else int(m.group(3))
            return int_fun(m.group(4), n, m.group(2) == 'i', vs)
        f = self.STRF.get(name)
        if f:
            vs = [self.ev(x, env) for x in args]
            if not all(isinstance(v, (str, Fn)) or isinstance(v, int) and not isinstance(v, bool)
                       or isinstance(v, list) and all(isinstance(c, str) and len(c) == 1 for c in v) for v in vs) or not isinstance(vs[0], str):
                raise Stuck('function %s' % name)
            return f(*vs)
        raise Stuck('function %s' % name)

    def t_top(self, t, env):
        raise Stuck('unknown value (%s)' % (t.a[0],))

    def guard(self, g, env):
        """conjunction; an atom about a part that does not exist is decided by the atom that says so"""
        stuck = None
        for p, v in g:
            try:
                if p.t == 'variant':
                    x = self.ev(p.a[0], env)
                    if not isinstance(x, V):
                        raise Stuck('variant of %s' % type(x).__name__)
                    ok = x.variant in v
                elif p.t == 'notin':
                    x = self.ev(p.a[0].a[0], env)
                    ok = (x.variant not in p.a[1]) == v
                else:
                    ok = bool(self.ev(p, env)) == v
            except Stuck as e:
                if stuck is None or isinstance(stuck, NoReturn):
                    stuck = e
                continue
            if not ok:
                return False
        if stuck:
            raise stuck
        return True

    # ---- recursive templates
    def summary(self, bid):
        r = self.summaries.get(bid)
        if r is None:
            self.eng.quiet += 1
            try:
                r = self.eng.summary(bid)
            finally:
                self.eng.quiet -= 1
            self.summaries[bid] = r
        return r

    def bind(self, formal, actual, env, out):
        """bind the symbols of a formal argument to the value of the actual one"""
        if formal.t == 'sym':
            out[formal] = self.ev(actual, env)
            return
        if formal.t == 'adt' and actual.t == 'adt':
            for f, a in zip(formal.a[2], actual.a[2]):
                self.bind(f, a, env, out)
            return
        if formal.t in ('vref',):
            return self.bind(formal.a[0], actual.a[0] if actual.t == 'vref' else actual, env, out)
        if formal.t == 'str' and len(formal.a[0]) == 1 and not isinstance(formal.a[0][0], str) and formal.a[0][0].t == 'sym':
            out[formal.a[0][0]] = self.ev(actual, env)
            return
        if formal.t == 'list' and len(formal.a) == 1 and formal.a[0].t == 'for' and formal.a[0].a[0].t == 'sym':
            out[formal.a[0].a[0]] = self.ev(actual, env)
            return
        if formal.t == 'map' and len(formal.a[0]) == 1 and formal.a[0][0].t == 'base':
            out[formal.a[0][0].a[0]] = self.ev(actual, env)
            return
        if formal is UNIT:
            return
        raise Stuck('argument %s' % formal.t)

    def nt(self, t, env):
        call, leaf = t.a
        bid, actual = call.a[0], call.a[1]
        sm = self.summary(bid)
        self.depth += 1
        if self.depth > 60:
            raise Stuck('nesting')
        try:
            e2 = {}
            for i, f in enumerate(sm['args']):
                f = self.eng.deep(sm['st0'], f)
                self.bind(f, actual[i], env, e2)
            (s, r, leaves), e2 = self.choose(sm['outs'], e2, self.p.bodies[bid]['path'])
            v = leaves[leaf]
            parts = absint.str_suffix(sm['entry'][leaf], v) if v.t == 'str' else None
            if parts is None:
                raise Stuck('template of %s' % self.p.bodies[bid]['path'])
            return ''.join(self.segstr(p, e2) for p in parts)
        finally:
            self.depth -= 1

    def choose(self, outs, env, who):
        """like choose1, but looks at quantified facts only where the others leave a choice"""
        cand = []
        unknown = []
        for o in outs:
            facts = list(o[0].facts.items())
            plain = [(p, v) for p, v in facts if p.t != 'forall']
            free = frees(tuple(p for p, _ in facts)) | frees(o[1]) | frees(tuple(o[2].values()))
            for e2 in self.assignments(sorted(free, key=lambda x: x.i), env, plain, unknown):
                if self.guard(plain, e2):
                    cand.append((o, e2))
        if self.strict or len({id(o) for o, _ in cand}) > 1:
            cand = [(o, e) for o, e in cand if all(self.t_forall(p, e) == v for p, v in o[0].facts.items() if p.t == 'forall')]
        elif len(cand) > 1:
            good = [(o, e) for o, e in cand if all(self.t_forall(p, e) == v for p, v in o[0].facts.items() if p.t == 'forall')]
            cand = good or cand
        if not cand:
            raise unknown[0] if unknown else NoReturn('%s does not return' % who)
        if len({(o[1], tuple(sorted(o[2].items(), key=str)), frozenset(o[0].taint)) for o, _ in cand}) > 1:
            raise Stuck('%d outcomes of %s apply' % (len(cand), who))
        if cand[0][0][0].taint:
            raise Stuck('outcome depends on %s' % sorted(cand[0][0][0].taint)[0])
        return cand[0]


def depth_of(t):
    """how deep the prefixes in a term are nested"""
    r = 0
    for x in absint.subterms(t):
        if x.t == 'pre':
            n = 0
            while x.t == 'pre' or x.t == 'e':
                n += 1
                x = x.a[0]
            r = max(r, n)
    return r


# ---------------------------------------------------------------- shapes

class Shape:
    """a resolved schema with placeholder names"""

    def __init__(self, name, types, export):
        self.name = name
        self.types = types          # {name: ('enum', [variants]) | ('struct', [(field, type, array, optional)])}
        self.export = export

    def fields(self, t):
        return self.types[t][1]


BUILTINS = ['uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'float', 'string']


class Builder:
    """builds the value of the generator's input for a shape, following the types of the program"""

    def __init__(self, prog):
        self.p = prog

    def resolved(self, ty, shape, perm=None):
        self.shape = shape
        self.memo = {}
        names = list(shape.types) + self.used_builtins(shape)
        if perm:
            names = perm(names)
        self.names = names
        return self.build(ty, ('resolved',))

    def used_builtins(self, shape):
        u = set()
        for k, v in shape.types.values():
            if k == 'struct':
                u |= {f[1] for f in v if f[1] in BUILTINS}
        return [b for b in BUILTINS if b in u]

    def build(self, ty, s):
        p = self.p
        t = p.types[ty]
        k = t['k']
        if k == 'ref':
            return self.build(t['t'], s)
        if k == 'str':
            return self.need(s, 'str')
        if k == 'bool':
            return self.need(s, 'bool')
        if k == 'int':
            return self.need(s, 'int')
        if k == 'tuple':
            if s[0] == 'type':
                return V(0, [self.build(t['ts'][0], ('str', s[1])), self.build(t['ts'][1], ('rtype', s[1]))])
            raise Stuck('tuple for %s' % s[0])
        if k == 'adt':
            path = t['path']
            kind = absint.kind_of(t)
            if path in ('std::rc::Rc', 'std::cell::RefCell', 'std::boxed::Box', 'std::sync::Arc', 'std::cell::Cell'):
                return self.build(t['args'][0], s)
            if kind == 'vec':
                if s[0] != 'list':
                    raise Stuck('list for %s' % s[0])
                return [self.build(t['args'][0], x) for x in s[1]]
            if kind == 'map':
                if s[0] != 'types':
                    raise Stuck('map for %s' % s[0])
                return {n: self.build(t['args'][1], ('type', n)) for n in self.names}
            if kind == 'str':
                return self.need(s, 'str')
            if t['enum']:
                return self.enum(t, s)
            fs = t['variants'][0]['fields']
            if s[0] in ('type', 'rtype') and len(fs) == 1:
                key = (ty, s)
                if key not in self.memo:
                    self.memo[key] = V(0, [self.build(fs[0]['ty'], s)])
                return self.memo[key]
            sub = self.subs(s)
            out = []
            for f in fs:
                if f['name'] not in sub:
                    raise Stuck('field %s of %s' % (f['name'], path))
                out.append(self.build(f['ty'], sub[f['name']]))
            return V(0, out)
        raise Stuck('type %s' % t['name'])

    def need(self, s, k):
        if s[0] != k:
            raise Stuck('%s for %s' % (k, s[0]))
        return s[1]

    def subs(self, s):
        sh = self.shape
        if s[0] == 'resolved':
            return {'export': ('export',), 'types': ('types',)}
        if s[0] == 'export':
            return {'name': ('str', sh.export), 'struct': ('struct', sh.export)}
        if s[0] == 'struct':
            return {'fields': ('list', [('field', f) for f in sh.types[s[1]][1]])}
        if s[0] == 'field':
            n, ty, arr, opt = s[1]
            return {'name': ('str', n), 'type': ('type', ty), 'array': ('bool', arr), 'optional': ('bool', opt)}
        if s[0] == 'enumdef':
            vs = sh.types[s[1]][1]
            n = len(vs)
            return {'repr': ('repr', 0 if n <= 8 else 1 if n <= 16 else 2),
                    'variants': ('list', [('variant', v, i) for i, v in enumerate(vs)])}
        if s[0] == 'variant':
            return {'name': ('str', s[1]), 'value': ('int', s[2])}
        raise Stuck('struct for %s' % s[0])

    def enum(self, t, s):
        names = [v['name'] for v in t['variants']]
        if s[0] == 'rtype':
            n = s[1]
            if n in BUILTINS:
                want, inner = 'Builtin', ('builtin', n)
            else:
                k = self.shape.types[n][0]
                want, inner = ('Enum', ('enumdef', n)) if k == 'enum' else ('Struct', ('struct', n))
            i = names.index(want)
            key = ('rt', n)
            if key in self.memo:
                return self.memo[key]
            r = V(i, [self.build(t['variants'][i]['fields'][0]['ty'], inner)])
            self.memo[key] = r
            return r
        if s[0] == 'builtin':
            return V([x.lower() for x in names].index(s[1]), [])
        if s[0] == 'repr':
            return V([x.lower() for x in names].index(['u8', 'u16', 'u32'][s[1]]), [])
        raise Stuck('enum for %s' % s[0])
