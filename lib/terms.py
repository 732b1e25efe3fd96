"""Interned terms: the value domain of the abstract interpreter.

Every value of the analysed program is described by a term over the symbols of
the (arbitrary) input.  Terms are hash-consed, so equality is identity.
"""

_tab = {}


class T:
    __slots__ = ('t', 'a', 'i', 'fr')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.i < o.i


def mk(t, *a):
    k = (t, a)
    x = _tab.get(k)
    if x is None:
        x = T()
        x.t = t
        x.a = a
        x.i = len(_tab)
        x.fr = None
        _tab[k] = x
    return x


# ---------------------------------------------------------------- constructors

def Int(n):
    return mk('lin', int(n), ())


def is_int(x):
    return x.t == 'lin'


def lin(c, items):
    d = {}
    for t, k in items:
        if t.t == 'lin':
            c += k * t.a[0]
            for t2, k2 in t.a[1]:
                d[t2] = d.get(t2, 0) + k * k2
        else:
            d[t] = d.get(t, 0) + k
    return mk('lin', c, tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].i)))


def as_lin(x):
    return x if x.t == 'lin' else mk('lin', 0, ((x, 1),))


def un_lin(x):
    """the plain term of a trivial linear form"""
    if x.t == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
        return x.a[1][0][0]
    return x


def add(a, b):
    return un_lin(lin(0, ((a, 1), (b, 1))))


def sub(a, b):
    return un_lin(lin(0, ((a, 1), (b, -1))))


def const_int(x):
    if x.t == 'lin' and not x.a[1]:
        return x.a[0]
    return None


TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('tup')
UNDEF = mk('undef')


def Bool(b):
    return TRUE if b else FALSE


def Char(n):
    return mk('chr', n)


def Str(*parts):
    out = []

    def put(p):
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif p.t == 'str':
            for q in p.a[0]:
                put(q)
        else:
            out.append(p)

    for p in parts:
        put(p)
    return mk('str', tuple(out))


def as_str(v):
    return v if v.t == 'str' else mk('str', (v,))


def str_const(v):
    if v.t == 'str' and all(isinstance(p, str) for p in v.a[0]):
        return ''.join(v.a[0])
    return None


def Tup(*f):
    return mk('tup', *f)


def Adt(path, variant, *f):
    return mk('adt', path, variant, f)


OPT = 'std::option::Option'
RES = 'std::result::Result'


def Some(v):
    return Adt(OPT, 1, v)


NONE = Adt(OPT, 0)


def Ok(v):
    return Adt(RES, 0, v)


def Err(v):
    return Adt(RES, 1, v)


def Vref(v):
    """reference to an immutable value; symbols stand for themselves behind references"""
    if v.t in ('ref', 'vref') or v.t in STRUCTURAL:
        return mk('vref', v)
    return v


STRUCTURAL = {'adt', 'tup', 'clo', 'list', 'map', 'str', 'lin', 'bool', 'chr', 'it', 'itg', 'itn', 'imap', 'ifilter',
              'ifmap', 'ienum', 'izipn', 'ichain', 'undef', 'fn', 'optif', 'pick'}


def List(*segs):
    return mk('list', *segs)


def one(v):
    return mk('one', v)


def elem(L, j=0):
    return mk('e', L, j)


def pre(L, j=0):
    return mk('pre', L, j)


def idx(e):
    return mk('idx', e)


def as_list(v):
    """list value of a (possibly symbolic) list"""
    if v.t == 'list':
        return v
    e = elem(v, 0)
    return List(mkfor(v, e, (one(e),)))


def If(guard, segs):
    if not guard:
        return segs
    return (mk('if', guard, tuple(segs)),)


def frees(x):
    """element symbols occurring in x (bound ones of `for` excluded)"""
    if not isinstance(x, T):
        if isinstance(x, (tuple, frozenset)):
            r = frozenset()
            for y in x:
                r |= frees(y)
            return r
        return frozenset()
    if x.fr is not None:
        return x.fr
    r = frozenset()
    if x.t == 'e':
        r = frozenset([x]) | frees(x.a[0])
    elif x.t == 'pre':
        r = frozenset([elem(x.a[0], x.a[1])]) | frees(x.a[0])
    elif x.t == 'for':
        L, b, body = x.a
        r = frees(L) | (frees(body) - {b})
    elif x.t == 'forall':
        L, b, body = x.a
        r = frees(L) | (frees(body) - {b})
    else:
        for y in x.a:
            r |= frees(y)
    x.fr = r
    return r


def mkfor(L, b, body, tag='for'):
    """comprehension over L; b is the bound element symbol, canonicalised"""
    return mkfor2(L, b, body, tag)


def subst(x, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(x, T):
        if isinstance(x, tuple):
            return tuple(subst(y, m, memo) for y in x)
        if isinstance(x, frozenset):
            return frozenset(subst(y, m, memo) for y in x)
        return x
    if x in m:
        return m[x]
    r = memo.get(x)
    if r is not None:
        return r
    keys = memo.get('keys')
    if keys is None:
        keys = memo['keys'] = [frees(k) for k in m]
    fr = frees(x)
    if not any(k <= fr for k in keys):
        # nothing to replace in it
        return x
    if x.t in ('for', 'forall'):
        L, b, body = x.a
        L2 = subst(L, m, memo)
        # take the bound symbol out of the way first
        tmp = mk('e', mk('bnd', x.i), 0)
        body1 = subst(body, {b: tmp, mk('pre', b.a[0], b.a[1]): mk('pre', tmp.a[0], 0)})
        body2 = subst(body1, m, memo)
        if L2 is L and body2 == body1:
            r = x
        else:
            r = mkfor2(L2, tmp, body2, x.t)
    else:
        a2 = tuple(subst(y, m, memo) for y in x.a)
        if all(p is q or p == q for p, q in zip(a2, x.a)):
            r = x
        else:
            r = rebuild(x.t, a2)
    memo[x] = r
    return r


def mkfor2(L2, b, body, tag):
    """the domain changed: the bound symbol moves with it"""
    fr = frees(body) - {b}
    j = 0
    while elem(L2, j) in fr:
        j += 1
    nb = elem(L2, j)
    body = subst(body, {b: nb, mk('pre', b.a[0], b.a[1]): mk('pre', L2, j)})
    return mk(tag, L2, nb, body)


def rebuild(t, a):
    """re-normalising constructor"""
    if t == 'lin':
        return un_lin(lin(a[0], a[1])) if a[1] else mk('lin', *a)
    if t == 'str':
        return Str(*a[0])
    f = REBUILD.get(t)
    if f:
        return f(*a)
    return mk(t, *a)


REBUILD = {}


# ---------------------------------------------------------------- display

def show(x, d=0):
    if not isinstance(x, T):
        if isinstance(x, tuple):
            return '(' + ', '.join(show(y, d + 1) for y in x) + ')'
        if isinstance(x, frozenset):
            return '{' + ', '.join(sorted(show(y, d + 1) for y in x)) + '}'
        return repr(x)
    if d > 40:
        return '…'
    if x.t == 'lin':
        s = [('' if k == 1 else '%d*' % k) + show(t, d + 1) for t, k in x.a[1]]
        if x.a[0] or not s:
            s.append(str(x.a[0]))
        return '+'.join(s)
    if x.t == 'bool':
        return str(x.a[0]).lower()
    if x.t == 'str':
        return 'S' + '·'.join(repr(p) if isinstance(p, str) else show(p, d + 1) for p in x.a[0])
    if x.t == 'sym':
        return '$' + str(x.a[0])
    if x.t == 'fld':
        b, v, i = x.a
        return '%s.%s%d' % (show(b, d + 1), ('%d:' % v) if v else '', i)
    if x.t == 'e':
        return 'e%s⟨%s⟩' % (x.a[1] or '', show(x.a[0], d + 1))
    if x.t == 'adt':
        return '%s#%d(%s)' % (x.a[0].split('::')[-1], x.a[1], ', '.join(show(y, d + 1) for y in x.a[2]))
    if x.t == 'list':
        return '[' + ' '.join(show(s, d + 1) for s in x.a) + ']'
    if x.t == 'one':
        return show(x.a[0], d + 1)
    if x.t == 'for':
        return 'for %s in %s {%s}' % (show(x.a[1], d + 1), show(x.a[0], d + 1), ' '.join(show(s, d + 1) for s in x.a[2]))
    if x.t == 'if':
        return 'if %s {%s}' % (show(x.a[0], d + 1), ' '.join(show(s, d + 1) for s in x.a[1]))
    return '%s(%s)' % (x.t, ', '.join(show(y, d + 1) for y in x.a))


class Pretty:
    """display with long shared subterms pulled out"""

    def __init__(self, limit=46):
        self.names = {}
        self.defs = []
        self.limit = limit

    def __call__(self, x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return '(' + ', '.join(self(y) for y in x) + ')'
            if isinstance(x, frozenset):
                return '{' + ', '.join(sorted(self(y) for y in x)) + '}'
            return repr(x)
        r = self.names.get(x)
        if r is not None:
            return r
        r = self.one(x)
        if len(r) > self.limit and x.t not in ('one', 'fld', 'lin', 'vref'):
            n = '#%d' % len(self.defs)
            self.defs.append('%s := %s' % (n, r))
            r = n
        self.names[x] = r
        return r

    def one(self, x):
        s = self
        if x.t == 'lin':
            t = [('' if k == 1 else '%d*' % k) + s(y) for y, k in x.a[1]]
            if x.a[0] or not t:
                t.append(str(x.a[0]))
            return '+'.join(t)
        if x.t == 'bool':
            return str(x.a[0]).lower()
        if x.t == 'str':
            return 'S' + '·'.join(repr(p) if isinstance(p, str) else s(p) for p in x.a[0])
        if x.t == 'sym':
            return '$' + str(x.a[0])
        if x.t == 'fld':
            b, v, i = x.a
            return '%s.%s%d' % (s(b), ('%d:' % v) if v else '', i)
        if x.t == 'e':
            return 'e%s⟨%s⟩' % (x.a[1] or '', s(x.a[0]))
        if x.t == 'pre':
            return 'pre%s⟨%s⟩' % (x.a[1] or '', s(x.a[0]))
        if x.t == 'adt':
            return '%s#%d(%s)' % (x.a[0].split('::')[-1], x.a[1], ', '.join(s(y) for y in x.a[2]))
        if x.t == 'list':
            return '[' + ' '.join(s(y) for y in x.a) + ']'
        if x.t == 'one':
            return s(x.a[0])
        if x.t in ('for', 'forall'):
            b = x.a[2]
            return '%s %s in %s {%s}' % (x.t, s(x.a[1]), s(x.a[0]), ' '.join(s(y) for y in b) if isinstance(b, tuple) else s(b))
        if x.t == 'if':
            return 'if %s {%s}' % (s(x.a[0]), ' '.join(s(y) for y in x.a[1]))
        return '%s(%s)' % (x.t, ', '.join(s(y) for y in x.a))

    def flush(self):
        d = self.defs[getattr(self, 'done', 0):]
        self.done = len(self.defs)
        return d
