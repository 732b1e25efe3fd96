"""Front end for `peg::parser!` grammars and their translation to automata.

A grammar without recursion denotes a regular language.  Ordered choice, greedy
repetition and predicates are translated exactly: every alternative that PEG
takes only after others failed is guarded with the complement of the languages
of those others.
"""
import re


class Unsupported(Exception):
    """the grammar uses something this front end has no model for"""


# ---------------------------------------------------------------- tokens

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<lc>//[^\n]*)
 | (?P<bc>/\*.*?\*/)
 | (?P<rstr>r(?P<h>\#*)"(?:.*?)"(?P=h))
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<chr>'(?:[^'\\]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 | (?P<ident>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 | (?P<num>[0-9][0-9A-Za-z_]*)
 | (?P<op>\.\.=|\.\.\.|\.\.|->|=>|==|!=|<=|>=|&&|\|\||::|\*\*|\+\+|.)
''', re.X | re.S)


class Tok:
    __slots__ = ('k', 's', 'pos', 'end')

    def __init__(self, k, s, pos, end):
        self.k, self.s, self.pos, self.end = k, s, pos, end

    def __repr__(self):
        return '%s:%r' % (self.k, self.s)


def tokenize(src):
    i = 0
    out = []
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Unsupported('cannot tokenize at %d' % i)
        k = m.lastgroup
        if m.group('rstr') is not None:
            k = 'rstr'
        elif k == 'h':
            k = 'rstr'
        if k not in ('ws', 'lc', 'bc'):
            out.append(Tok(k, m.group(0), i, m.end()))
        i = m.end()
    return out


def unescape(body):
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        n = body[i + 1]
        if n == 'x':
            out.append(chr(int(body[i + 2:i + 4], 16)))
            i += 4
        elif n == 'u':
            j = body.index('}', i)
            out.append(chr(int(body[i + 3:j].replace('_', ''), 16)))
            i = j + 1
        elif n == '\n':
            i += 2
            while i < len(body) and body[i] in ' \t\n\r':
                i += 1
        else:
            out.append({'n': '\n', 'r': '\r', 't': '\t', '0': '\0', '\\': '\\', "'": "'", '"': '"'}[n])
            i += 2
    return ''.join(out)


def lit(tok):
    if tok.k == 'str':
        return unescape(tok.s[1:-1])
    if tok.k == 'rstr':
        h = tok.s.index('"')
        return tok.s[h + 1:len(tok.s) - h]
    if tok.k == 'chr':
        return unescape(tok.s[1:-1])
    raise Unsupported('literal ' + tok.s)


# ---------------------------------------------------------------- alphabet

# every ASCII character is its own symbol, other characters are represented by
# one member per class that Rust's char predicates can tell apart
EXTRA = ['é', '٣', ' ', ' ', '☃', '\u0085']
SIGMA = [chr(i) for i in range(128)] + EXTRA
SYM = {c: i for i, c in enumerate(SIGMA)}
NSYM = len(SIGMA)
ALL = frozenset(range(NSYM))

METHODS = {
    'is_ascii': lambda c: ord(c) < 128,
    'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(),
    'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
    'is_ascii_digit': lambda c: '0' <= c <= '9',
    'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF',
    'is_ascii_lowercase': lambda c: 'a' <= c <= 'z',
    'is_ascii_uppercase': lambda c: 'A' <= c <= 'Z',
    'is_ascii_punctuation': lambda c: c in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~',
    'is_ascii_whitespace': lambda c: c in ' \t\n\r\x0c',
    'is_ascii_control': lambda c: ord(c) < 32 or ord(c) == 127,
    'is_ascii_graphic': lambda c: '!' <= c <= '~',
    'is_alphabetic': lambda c: c.isalpha(),
    'is_alphanumeric': lambda c: c.isalpha() or c.isnumeric(),
    'is_numeric': lambda c: c.isnumeric(),
    'is_lowercase': lambda c: c.islower(),
    'is_uppercase': lambda c: c.isupper(),
    'is_whitespace': lambda c: c in '\t\n\x0b\x0c\r \x85\xa0 ',
    'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else None

    def at(self, s, o=0):
        x = self.peek(o)
        return x is not None and x.s == s and x.k not in ('str', 'rstr', 'chr')

    def next(self):
        x = self.peek()
        if x is None:
            raise Unsupported('unexpected end of grammar')
        self.i += 1
        return x

    def expect(self, s):
        x = self.next()
        if x.s != s:
            raise Unsupported('expected %r, found %r' % (s, x.s))
        return x

    def group(self):
        """consume a bracketed group, return the tokens inside and the brackets"""
        o = self.next()
        close = {'(': ')', '[': ']', '{': '}'}[o.s]
        depth = 1
        start = self.i
        while True:
            x = self.next()
            if x.k == 'op':
                if x.s in '([{':
                    depth += 1
                elif x.s in ')]}':
                    depth -= 1
                    if depth == 0:
                        if x.s != close:
                            raise Unsupported('bracket mismatch')
                        return self.t[start:self.i - 1], o, x

    def skip_generics(self):
        if self.at('<'):
            d = 0
            while True:
                x = self.next()
                if x.s == '<':
                    d += 1
                elif x.s == '>':
                    d -= 1
                    if d == 0:
                        return


def parse_pattern(toks):
    """char pattern with optional guard -> frozenset of symbols"""
    p = P(toks)
    binders = []

    def prim():
        x = p.next()
        if x.k == 'chr':
            lo = lit(x)
            if p.at('..=') or p.at('...'):
                p.next()
                hi = lit(p.next())
                return frozenset(i for i, c in enumerate(SIGMA) if lo <= c <= hi)
            if p.at('..'):
                p.next()
                if p.peek() is not None and p.peek().k == 'chr':
                    hi = lit(p.next())
                    return frozenset(i for i, c in enumerate(SIGMA) if lo <= c < hi)
                return frozenset(i for i, c in enumerate(SIGMA) if lo <= c)
            if lo not in SYM:
                raise Unsupported('character %r' % lo)
            return frozenset([SYM[lo]])
        if x.s == '_':
            return ALL
        if x.s == '(':
            r = alts()
            p.expect(')')
            return r
        if x.k == 'ident':
            binders.append(x.s)
            if p.at('@'):
                p.next()
                return prim()
            return ALL
        raise Unsupported('pattern ' + x.s)

    def alts():
        if p.at('|'):
            p.next()
        r = prim()
        while p.at('|'):
            p.next()
            r = r | prim()
        return r

    s = alts()
    if p.at('if'):
        p.next()
        f = parse_guard(p, binders)
        s = frozenset(i for i in s if f(SIGMA[i]))
    if p.peek() is not None:
        raise Unsupported('pattern tail ' + p.peek().s)
    return s


def parse_guard(p, binders):
    def atom():
        x = p.next()
        if x.s == '!':
            f = atom()
            return lambda c: not f(c)
        if x.s == '(':
            f = orx()
            p.expect(')')
            return post(f)
        if x.s == '*' or x.s == '&':
            return atom()
        if x.k == 'chr':
            v = lit(x)
            return post(lambda c: v)
        if x.k in ('str', 'rstr'):
            v2 = lit(x)
            return post(lambda c: v2)
        if x.s in ('true', 'false'):
            return lambda c: x.s == 'true'
        if x.s == 'matches' and p.at('!'):
            p.next()
            toks, _, _ = p.group()
            # matches!(ch, pattern)
            k = 0
            d = 0
            while not (toks[k].s == ',' and d == 0):
                d += toks[k].s in '([{'
                d -= toks[k].s in ')]}'
                k += 1
            rest = toks[k + 1:]
            if rest and rest[-1].s == ',':
                rest = rest[:-1]
            s = parse_pattern(rest)
            return lambda c: SYM[c] in s
        if x.k == 'ident' and x.s in binders:
            return post(lambda c: c)
        if x.k == 'ident' and x.s == 'char' and p.at('::'):
            p.next()
            m = p.next().s
            toks, _, _ = p.group()
            if m in METHODS:
                return METHODS[m]
        raise Unsupported('guard ' + x.s)

    def post(f):
        while p.at('.'):
            p.next()
            m = p.next().s
            toks, _, _ = p.group()
            if m in METHODS and all(t.s == '&' or t.k == 'ident' for t in toks):
                f = (lambda f, m: lambda c: METHODS[m](f(c)))(f, m)
            elif m == 'contains' and len(toks) >= 1:
                sub = P(toks)
                g = parse_guard(sub, binders)
                f = (lambda f, g: lambda c: g(c) in f(c))(f, g)
            elif m == 'eq':
                g = parse_guard(P(toks), binders)
                f = (lambda f, g: lambda c: g(c) == f(c))(f, g)
            elif m == 'ne':
                g = parse_guard(P(toks), binders)
                f = (lambda f, g: lambda c: g(c) != f(c))(f, g)
            else:
                raise Unsupported('method ' + m)
        return f

    def cmp():
        a = atom()
        x = p.peek()
        if x is not None and x.s in ('==', '!=', '<', '>', '<=', '>='):
            p.next()
            b = atom()
            op = {'==': lambda u, v: u == v, '!=': lambda u, v: u != v, '<': lambda u, v: u < v,
                  '>': lambda u, v: u > v, '<=': lambda u, v: u <= v, '>=': lambda u, v: u >= v}[x.s]
            return lambda c: op(a(c), b(c))
        return a

    def andx():
        a = cmp()
        while p.at('&&'):
            p.next()
            b = cmp()
            a = (lambda a, b: lambda c: a(c) and b(c))(a, b)
        return a

    def orx():
        a = andx()
        while p.at('||'):
            p.next()
            b = andx()
            a = (lambda a, b: lambda c: a(c) or b(c))(a, b)
        return a

    return orx()


# ---------------------------------------------------------------- grammar

class Rule:
    def __init__(self, name, params, expr, pos, pub):
        self.name, self.params, self.expr, self.pos, self.pub = name, params, expr, pos, pub


class Grammar:
    def __init__(self, rules, src, path):
        self.rules, self.src, self.path = rules, src, path

    def line(self, pos):
        return self.src.count('\n', 0, pos) + 1


def find_grammar(src, path):
    toks = tokenize(src)
    for i in range(len(toks) - 3):
        if toks[i].s == 'peg' and toks[i + 1].s == '::' and toks[i + 2].s == 'parser' and toks[i + 3].s == '!':
            p = P(toks)
            p.i = i + 4
            body, _, _ = p.group()
            return parse_grammar(body, src, path)
    return None


def parse_grammar(toks, src, path):
    p = P(toks)
    while not p.at('grammar'):
        p.next()
    p.next()
    p.next()
    p.skip_generics()
    if p.at('('):
        p.group()
    p.expect('for')
    while not p.at('{'):
        p.next()
    body, _, _ = p.group()
    p = P(body)
    rules = {}
    uses = []
    while p.peek() is not None:
        if p.at('#'):
            p.next()
            p.group()
            continue
        if p.at('use'):
            u0 = p.peek().pos
            while not p.at(';'):
                p.next()
            uses.append(src[u0:p.next().end])
            continue
        if p.at(';'):
            p.next()
            continue
        pub = False
        if p.at('pub'):
            p.next()
            if p.at('('):
                p.group()
            pub = True
        x = p.expect('rule')
        name = p.next().s
        p.skip_generics()
        ptoks, _, _ = p.group()
        params = []
        d = 0
        for k, t in enumerate(ptoks):
            if d == 0 and t.s == ':':
                params.append(ptoks[k - 1].s)
            d += t.s in ('<', '(')
            d -= t.s in ('>', ')')
        ret = '()'
        if p.at('->'):
            p.next()
            t0 = p.peek().pos
            while not p.at('='):
                if p.at('(') or p.at('['):
                    p.group()
                else:
                    p.next()
            ret = src[t0:p.peek().pos].strip()
        p.expect('=')
        e = choice(p)
        if name in rules:
            raise Unsupported('rule %s defined twice' % name)
        rules[name] = Rule(name, params, e, x.pos, pub)
        rules[name].ret = ret
    g = Grammar(rules, src, path)
    g.uses = uses
    return g


def choice(p):
    alts = [sequence(p)]
    while p.at('/'):
        p.next()
        alts.append(sequence(p))
    return alts[0] if len(alts) == 1 else ('alt', alts)


def ends_sequence(p):
    x = p.peek()
    if x is None:
        return True
    if x.k in ('str', 'rstr', 'chr'):
        return False
    if x.s in ('/', ')', '}', ';', '--', ','):
        return True
    if x.s in ('rule', 'pub', 'use') and not p.at('(', 1) and not p.at(':', 1):
        return True
    if x.s == '#' and p.at('[', 1):
        return True
    return False


def sequence(p):
    items = []
    action = None
    while not ends_sequence(p):
        if p.at('{'):
            toks, o, c = p.group()
            cond = bool(toks) and toks[0].s == '?'
            action = (o.pos, c.end, toks, cond)
            break
        label = None
        x = p.peek()
        if x.k == 'ident' and p.at(':', 1):
            label = x.s
            p.next()
            p.next()
        items.append((label, prefix(p)))
    return ('seq', items, action)


def prefix(p):
    """one suffix at most, and it applies to what the prefix made"""
    e = prefixed(p)
    if p.at('?'):
        p.next()
        return ('opt', e)
    for op, lo in (('*', 0), ('+', 1), ('**', 0), ('++', 1)):
        if not p.at(op):
            continue
        p.next()
        hi = None
        if op[0] == '*' and p.at('<'):
            p.next()
            txt = ''
            while not p.at('>'):
                txt += p.next().s
            p.next()
            try:
                if ',' in txt:
                    a, b = txt.split(',')
                    lo = int(a) if a else 0
                    hi = int(b) if b else None
                else:
                    lo = hi = int(txt)
            except ValueError:
                raise Unsupported('repetition bound ' + txt)
        sep = None
        if len(op) == 2:
            if hi is not None or lo > 1:
                raise Unsupported('bounded separated repetition')
            sep = primary(p)
        return ('rep', e, lo, hi, sep)
    return e


def prefixed(p):
    if p.at('!'):
        p.next()
        return ('not', primary(p))
    if p.at('&'):
        p.next()
        return ('and', primary(p))
    if p.at('$'):
        p.next()
        return ('slice', primary(p))
    return primary(p)


def primary(p):
    x = p.peek()
    if x is None:
        raise Unsupported('unexpected end')
    if x.k in ('str', 'rstr'):
        p.next()
        return ('lit', lit(x))
    if x.s == '[':
        toks, o, c = p.group()
        if toks and toks[0].s == '^':
            raise Unsupported('old character class syntax')
        return ('cls', parse_pattern(toks))
    if x.s == '(':
        toks, o, c = p.group()
        q = P(toks)
        e = choice(q)
        if q.peek() is not None:
            raise Unsupported('tokens after expression: ' + q.peek().s)
        return e
    if x.k == 'ident':
        p.next()
        if x.s in ('_', '__', '___'):
            # these take no arguments: a parenthesis after them is a group of its own
            if p.at('(') and p.i + 1 < len(p.t) and p.t[p.i + 1].s == ')':
                p.group()
            return ('rule', x.s)
        if p.at('('):
            if p.at('('):
                toks, o, c = p.group()
                if toks:
                    raise Unsupported('rule arguments')
            return ('rule', x.s)
        if p.at('!'):
            p.next()
            toks, o, c = p.group()
            q = P(toks)
            if x.s == 'quiet':
                e = choice(q)
                if q.peek() is not None:
                    raise Unsupported('tokens in quiet!')
                return ('quiet', e)
            if x.s == 'expected':
                return ('fail',)
            if x.s == 'position':
                return ('pos',)
        raise Unsupported('expression ' + x.s)
    raise Unsupported('expression ' + x.s)


# ---------------------------------------------------------------- well-formedness

def children(e):
    k = e[0]
    if k == 'alt':
        return e[1]
    if k == 'seq':
        return [x for _, x in e[1]]
    if k in ('not', 'and', 'slice', 'opt', 'quiet'):
        return [e[1]]
    if k == 'rep':
        return [e[1]] + ([e[4]] if e[4] else [])
    return []


def nullable_map(g):
    null = {n: False for n in g.rules}

    def nl(e):
        k = e[0]
        if k == 'lit':
            return e[1] == ''
        if k in ('cls', 'fail'):
            return False
        if k in ('eps', 'pos'):
            return True
        if k == 'rule':
            return null.get(norm(g, e[1]), False)
        if k == 'alt':
            return any(nl(x) for x in e[1])
        if k == 'seq':
            return all(nl(x) for _, x in e[1])
        if k in ('not', 'and', 'opt'):
            return True
        if k in ('slice', 'quiet'):
            return nl(e[1])
        if k == 'rep':
            return e[2] == 0 or nl(e[1])
        raise Unsupported(k)

    ch = True
    while ch:
        ch = False
        for n, r in g.rules.items():
            if not null[n] and nl(r.expr):
                null[n] = True
                ch = True
    return null, nl


def norm(g, name):
    if name in g.rules:
        return name
    if name.startswith('r#') and name[2:] in g.rules:
        return name[2:]
    if 'r#' + name in g.rules:
        return 'r#' + name
    raise Unsupported('unknown rule ' + name)


def reachable(g, start):
    seen = []
    st = [start]
    while st:
        n = norm(g, st.pop())
        if n in seen:
            continue
        seen.append(n)
        w = [g.rules[n].expr]
        while w:
            e = w.pop()
            if e[0] == 'rule':
                st.append(e[1])
            w.extend(children(e))
    return seen


def recursion(g, start):
    """rule names that lie on a cycle"""
    calls = {}
    for n in reachable(g, start):
        c = set()
        w = [g.rules[n].expr]
        while w:
            e = w.pop()
            if e[0] == 'rule':
                c.add(norm(g, e[1]))
            w.extend(children(e))
        calls[n] = c
    bad = set()
    for n in calls:
        seen = set()
        st = list(calls[n])
        while st:
            m = st.pop()
            if m == n:
                bad.add(n)
                break
            if m in seen:
                continue
            seen.add(m)
            st.extend(calls[m])
    return bad


def left_recursion(g, start):
    null, nl = nullable_map(g)

    def first(e):
        k = e[0]
        if k == 'rule':
            return {norm(g, e[1])}
        if k == 'seq':
            r = set()
            for _, x in e[1]:
                r |= first(x)
                if not nl(x):
                    break
            return r
        r = set()
        for x in children(e):
            r |= first(x)
        return r

    edges = {n: first(g.rules[n].expr) for n in reachable(g, start)}
    bad = set()
    for n in edges:
        seen = set()
        st = list(edges[n])
        while st:
            m = st.pop()
            if m == n:
                bad.add(n)
                break
            if m not in seen:
                seen.add(m)
                st.extend(edges[m])
    return bad


def endless_repetitions(g, start):
    null, nl = nullable_map(g)
    bad = []
    n_rep = 0
    for n in reachable(g, start):
        w = [g.rules[n].expr]
        while w:
            e = w.pop()
            if e[0] == 'rep':
                n_rep += 1
                if e[3] is None and nl(e[1]) and (e[4] is None or nl(e[4])):
                    bad.append(n)
            w.extend(children(e))
    return bad, n_rep


# ---------------------------------------------------------------- automata

class Dfa:
    """complete DFA over symbols 0..n-1"""

    def __init__(self, n, delta, acc, start=0):
        self.n, self.delta, self.acc, self.start = n, delta, acc, start

    def complement(self):
        return Dfa(self.n, self.delta, [not a for a in self.acc], self.start)

    def minimize(self):
        n = len(self.delta)
        cls = [1 if a else 0 for a in self.acc]
        while True:
            sig = {}
            new = []
            for q in range(n):
                k = (cls[q],) + tuple(cls[t] for t in self.delta[q])
                new.append(sig.setdefault(k, len(sig)))
            if len(set(new)) == len(set(cls)):
                cls = new
                break
            cls = new
        m = {}
        order = []
        for q in range(n):
            if cls[q] not in m:
                m[cls[q]] = len(order)
                order.append(q)
        delta = [[m[cls[t]] for t in self.delta[q]] for q in order]
        d = Dfa(self.n, delta, [self.acc[q] for q in order], m[cls[self.start]])
        # reachable part only
        seen = {d.start: 0}
        st = [d.start]
        out = [d.start]
        while st:
            q = st.pop()
            for t in d.delta[q]:
                if t not in seen:
                    seen[t] = len(out)
                    out.append(t)
                    st.append(t)
        return Dfa(self.n, [[seen[t] for t in d.delta[q]] for q in out], [d.acc[q] for q in out], 0)

    def sinks(self):
        """(accept-everything states, reject-everything states)"""
        n = len(self.delta)
        out = []
        for want in (True, False):
            good = set(q for q in range(n) if self.acc[q] == want)
            ch = True
            while ch:
                ch = False
                for q in list(good):
                    if any(t not in good for t in self.delta[q]):
                        good.discard(q)
                        ch = True
            out.append(good)
        return out


def product_diff(a, b, want=lambda x, y: x != y, limit=2000000, sym=None):
    """shortest word on which want(accept_a, accept_b), or None"""
    from collections import deque
    start = (a.start, b.start)
    prev = {start: None}
    dq = deque([start])
    while dq:
        s = dq.popleft()
        if want(a.acc[s[0]], b.acc[s[1]]):
            w = []
            c = s
            while prev[c] is not None:
                c, k = prev[c]
                w.append(k)
            return list(reversed(w))
        da, db = a.delta[s[0]], b.delta[s[1]]
        for k in (sym or range(a.n)):
            t = (da[k], db[k])
            if t not in prev:
                prev[t] = (s, k)
                dq.append(t)
        if len(prev) > limit:
            raise Unsupported('automaton too large')
    return None


def intersect(a, b):
    from collections import deque
    start = (a.start, b.start)
    idx = {start: 0}
    delta = []
    acc = []
    dq = deque([start])
    while dq:
        s = dq.popleft()
        acc.append(a.acc[s[0]] and b.acc[s[1]])
        row = []
        for k in range(a.n):
            t = (a.delta[s[0]][k], b.delta[s[1]][k])
            if t not in idx:
                idx[t] = len(idx)
                dq.append(t)
            row.append(idx[t])
        delta.append(row)
    return Dfa(a.n, delta, acc, 0)


class Builder:
    """grammar expressions to NFA with conjunctive lookahead to DFA

    marker symbols (for captures) are symbols >= NSYM and are skipped by every
    lookahead."""

    def __init__(self, g, markers=()):
        self.g = g
        self.markers = list(markers)
        self.n = NSYM + len(self.markers)
        self.look_cache = {}
        self.dfas = []
        self.sink = []

    # NFA: list of nodes; ('c', frozenset, next) ('s', [nexts]) ('l', dfa, next) ('a',)
    def frag(self, e, k, nodes):
        """returns entry node of `e` followed by node k"""
        t = e[0]
        if t == 'lit':
            for ch in reversed(e[1]):
                if ch not in SYM:
                    raise Unsupported('literal character %r' % ch)
                nodes.append(('c', frozenset([SYM[ch]]), k))
                k = len(nodes) - 1
            return k
        if t == 'cls':
            nodes.append(('c', e[1], k))
            return len(nodes) - 1
        if t in ('eps', 'pos'):
            return k
        if t == 'fail':
            nodes.append(('s', []))
            return len(nodes) - 1
        if t == 'mark':
            nodes.append(('c', frozenset([NSYM + self.markers.index(e[1])]), k))
            return len(nodes) - 1
        if t == 'rule':
            return self.frag(self.rule_expr(e[1]), k, nodes)
        if t == 'seq':
            if e[2] is not None and e[2][3]:
                raise Unsupported('an action which decides whether the text matches')
            for _, x in reversed(e[1]):
                k = self.frag(x, k, nodes)
            return k
        if t in ('slice', 'quiet'):
            return self.frag(e[1], k, nodes)
        if t == 'not':
            nodes.append(('l', self.look(e[1], False), k))
            return len(nodes) - 1
        if t == 'and':
            nodes.append(('l', self.look(e[1], True), k))
            return len(nodes) - 1
        if t == 'alt':
            outs = []
            for i, x in enumerate(e[1]):
                n = self.frag(x, k, nodes)
                for y in e[1][:i]:
                    nodes.append(('l', self.look(y, False), n))
                    n = len(nodes) - 1
                outs.append(n)
            nodes.append(('s', outs))
            return len(nodes) - 1
        if t == 'opt':
            return self.frag(('alt', [e[1], ('eps',)]), k, nodes)
        if t == 'union':
            # alternatives which exclude each other
            nodes.append(('s', [self.frag(x, k, nodes) for x in e[1]]))
            return len(nodes) - 1
        if t == 'mrep':
            # any number of e[1], as long as e[2] (the same without markers) matches
            nodes.append(None)
            head = len(nodes) - 1
            body = self.frag(e[1], head, nodes)
            nodes.append(('l', self.look(e[2], False), k))
            nodes[head] = ('s', [body, len(nodes) - 1])
            return head
        if t == 'rep':
            _, x, lo, hi, sep = e
            if sep is not None:
                # x ** sep  =  (x (sep x)*)?
                tail = ('rep', ('seq', [(None, sep), (None, x)], None), 0, None, None)
                one = ('seq', [(None, x), (None, tail)], None)
                return self.frag(one if lo else ('opt', one), k, nodes)
            if hi is not None:
                for _ in range(hi - lo):
                    k2 = self.frag(x, k, nodes)
                    nodes.append(('l', self.look(x, False), k))
                    nodes.append(('s', [k2, len(nodes) - 1]))
                    k = len(nodes) - 1
                for _ in range(lo):
                    k = self.frag(x, k, nodes)
                return k
            nodes.append(None)
            head = len(nodes) - 1
            body = self.frag(x, head, nodes)
            nodes.append(('l', self.look(x, False), k))
            nodes[head] = ('s', [body, len(nodes) - 1])
            k = head
            for _ in range(lo):
                k = self.frag(x, k, nodes)
            return k
        raise Unsupported(t)

    def rule_expr(self, name):
        return self.g.rules[norm(self.g, name)].expr

    def look(self, e, positive):
        key = repr(e)
        if key not in self.look_cache:
            nodes = [('any',)]
            s = self.frag(e, 0, nodes)
            d = self.determinize(nodes, s, lookahead=True).minimize()
            self.look_cache[key] = d
        d = self.look_cache[key]
        k2 = (key, positive)
        if k2 not in self.look_cache:
            dd = d if positive else d.complement()
            self.dfas.append(dd)
            self.sink.append(dd.sinks())
            self.look_cache[k2] = len(self.dfas) - 1
        return self.look_cache[k2]

    def closure(self, nodes, threads):
        """threads: iterable of (node, frozenset of (dfa, state)) -> set of char/accept threads"""
        out = set()
        seen = set()
        st = list(threads)
        while st:
            th = st.pop()
            if th in seen:
                continue
            seen.add(th)
            q, lk = th
            n = nodes[q]
            if n[0] == 's':
                for t in n[1]:
                    st.append((t, lk))
            elif n[0] == 'l':
                d = n[1]
                s = self.dfas[d].start
                yes, no = self.sink[d]
                if s in no:
                    continue
                st.append((n[2], lk if s in yes else lk | {(d, s)}))
            else:
                out.add(th)
        return out

    def determinize(self, nodes, start, lookahead=False):
        from collections import deque
        init = frozenset(self.closure(nodes, [(start, frozenset())]))
        idx = {init: 0}
        delta = []
        acc = []
        dq = deque([init])
        while dq:
            S = dq.popleft()
            a = False
            for q, lk in S:
                if nodes[q][0] in ('a', 'any') and all(self.dfas[d].acc[s] for d, s in lk):
                    a = True
            acc.append(a)
            row = []
            # group symbols with the same behaviour
            cache = {}
            for k in range(self.n):
                nxt = []
                sig = []
                for q, lk in S:
                    n = nodes[q]
                    if lookahead and k >= NSYM:
                        nxt.append((q, lk))
                        continue
                    if n[0] == 'any':
                        t = q
                    elif n[0] == 'c' and k in n[1]:
                        t = n[2]
                    else:
                        continue
                    if k >= NSYM:
                        nxt.append((t, lk))
                        continue
                    dead = False
                    nl = set()
                    for d, s in lk:
                        s2 = self.dfas[d].delta[s][k]
                        yes, no = self.sink[d]
                        if s2 in no:
                            dead = True
                            break
                        if s2 not in yes:
                            nl.add((d, s2))
                    if not dead:
                        nxt.append((t, frozenset(nl)))
                key = frozenset(nxt)
                if key not in cache:
                    T = frozenset(self.closure(nodes, nxt))
                    # a thread whose language contains everything absorbs the rest
                    full = [(q, lk) for q, lk in T if nodes[q][0] == 'any' and not lk]
                    if full:
                        T = frozenset(full[:1])
                    if T not in idx:
                        idx[T] = len(idx)
                        dq.append(T)
                        if len(idx) > 60000:
                            raise Unsupported('automaton too large')
                    cache[key] = idx[T]
                row.append(cache[key])
            delta.append(row)
        return Dfa(self.n, delta, acc, 0)

    def language(self, e):
        nodes = [('a',)]
        s = self.frag(e, 0, nodes)
        return self.determinize(nodes, s).minimize()


def show(word, markers=()):
    return ''.join(SIGMA[k] if k < NSYM else '⟨%s⟩' % markers[k - NSYM] for k in word)
