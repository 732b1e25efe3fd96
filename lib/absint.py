"""Abstract interpretation of the dumped MIR.

Values are terms over the symbols of an arbitrary input (lib/terms.py).  Loops
are not unrolled: the loop body is analysed once for a generic element of the
list it walks over, the change of every variable is generalised to "for every
element of the prefix", and the result is accepted only when it is a fixpoint.
Recursive functions are replaced at every call by a contract which is inferred
and re-established on the function body.  Whatever the analysis does not
understand becomes an explicit unknown (`top`); results that depend on an
unknown are marked and never reported as violations.
"""
import json
import time
import re
from terms import *
import terms

OWN = ('packetc', 'packetc_lib')
SKIP = mk('SKIP')
REENTER = mk('REENTER')
EV = ('EV',)


class Budget(Exception):
    pass


class Anchor(Exception):
    """something the analysis needs is not in the program any more"""


def norm(path):
    """strip generic arguments, keep `<impl ..>`"""
    out = ''
    i = 0
    while i < len(path):
        if path.startswith('::<', i) and not path.startswith('::<impl', i):
            d = 0
            j = i + 2
            while True:
                if path[j] == '<':
                    d += 1
                elif path[j] == '>' and path[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out += path[i]
            i += 1
    return out


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.bodies = d['bodies']
        self.roots = d['roots']
        self.missing = d['missing']
        self.callees = []
        self._loops = {}
        self._norm = {}

    def norm(self, p):
        r = self._norm.get(p)
        if r is None:
            r = self._norm[p] = norm(p)
        return r

    def find(self, suffix):
        return [b for b in self.bodies if b['path'] == suffix or b['path'].endswith('::' + suffix)]

    # ---- control flow
    def succs(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = [b for _, b in t[2]]
            if t[3] is not None and t[3] >= 0:
                r.append(t[3])
            return r
        if k == 'drop':
            return [t[1]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[4]]
        return []

    def loops(self, bid):
        """head -> set of blocks (natural loops)"""
        if bid in self._loops:
            return self._loops[bid]
        bl = self.bodies[bid]['blocks']
        n = len(bl)
        succ = [self.succs(b[1]) if b else [] for b in bl]
        order = []
        seen = {0}
        st = [(0, iter(succ[0]))]
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                st.pop()
                order.append(u)
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for u in order:
            for v in succ[u]:
                preds[v].append(u)
        dom = {order[0]: {order[0]}}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ds = [dom[p] for p in preds[b] if p in dom]
                nd = set.intersection(*ds) | {b} if ds else {b}
                if dom.get(b) != nd:
                    dom[b] = nd
                    ch = True
        loops = {}
        for u in order:
            for v in succ[u]:
                if v in dom[u]:
                    body = loops.setdefault(v, {v})
                    work = [u]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += preds[x]
        self._loops[bid] = loops
        return loops

    # ---- recursion
    def callees_of(self, bid):
        out = []
        for b in self.bodies[bid]['blocks']:
            if not b:
                continue
            for s in b[0]:
                if s[0] == '=':
                    self._ops(s[2], out)
            t = b[1]
            if t[0] == 'call':
                self._ops(t[1], out)
                for a in t[2]:
                    self._ops(a, out)
        return out

    def _ops(self, x, out):
        if isinstance(x, list):
            if len(x) >= 3 and x[0] == 'agg' and x[1] == 'closure':
                i = self.types[x[2]].get('inst', -1)
                if i >= 0:
                    out.append(i)
            for y in x:
                self._ops(y, out)
        elif isinstance(x, dict):
            f = x.get('f')
            if isinstance(f, dict) and f.get('inst', -1) >= 0:
                out.append(f['inst'])
            ty = x.get('ty')
            if isinstance(ty, int) and self.types[ty]['k'] == 'closure':
                i = self.types[ty].get('inst', -1)
                if i >= 0:
                    out.append(i)
            for k, y in x.items():
                if k != 'f':
                    self._ops(y, out)

    def rec_heads(self, root, opaque):
        """targets of back edges in the call graph, depth first from root"""
        heads = set()
        state = {}

        def go(b):
            state[b] = 1
            for c in self.callees_of(b):
                if c in opaque:
                    continue
                if state.get(c) == 1:
                    heads.add(c)
                elif c not in state:
                    go(c)
            state[b] = 2
        import sys
        sys.setrecursionlimit(20000)
        go(root)
        return heads, set(state)


class St:
    __slots__ = ('mem', 'facts', 'taint', 'scope', 'trail')

    def __init__(self):
        self.mem = {EV: List()}
        self.facts = {}
        self.taint = frozenset()
        self.scope = frozenset()
        self.trail = None

    def fork(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.taint = self.taint
        s.scope = self.scope
        s.trail = self.trail
        return s

    def path(self):
        r = []
        t = self.trail
        while t:
            r.append(t[0])
            t = t[1]
        return r[::-1]


def top(reason):
    return mk('top', reason)


_tops = {}


def contains_top(v, seen=None):
    if not isinstance(v, T):
        return isinstance(v, (tuple, frozenset)) and any(contains_top(x) for x in v)
    r = _tops.get(v)
    if r is None:
        st = [v]
        while st:
            x = st[-1]
            if x in _tops:
                st.pop()
                continue
            if x.t == 'top':
                _tops[x] = True
                st.pop()
                continue
            subs = []
            todo = list(x.a)
            while todo:
                y = todo.pop()
                if isinstance(y, T):
                    subs.append(y)
                elif isinstance(y, (tuple, frozenset)):
                    todo.extend(y)
            new = [y for y in subs if y not in _tops]
            if new:
                st.extend(new)
            else:
                _tops[x] = any(_tops[y] for y in subs)
                st.pop()
        r = _tops[v]
    return r


def subterms(v):
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset, list)):
            st.extend(x)


# ---------------------------------------------------------------- predicates

def mk_not(p):
    if p is TRUE:
        return FALSE
    if p is FALSE:
        return TRUE
    if p.t == 'not':
        return p.a[0]
    if p.t == 'top':
        return p
    return mk('not', p)


def pos(l):
    """l > 0"""
    l = as_lin(l)
    c = const_int(l)
    if c is not None:
        return Bool(c > 0)
    if all(k > 0 for _, k in l.a[1]) and l.a[0] > 0:
        return TRUE
    if all(k < 0 for _, k in l.a[1]) and l.a[0] <= 0:
        return FALSE
    return mk('pos', l)


def eqz(l):
    l = as_lin(l)
    c = const_int(l)
    if c is not None:
        return Bool(c == 0)
    if all(k > 0 for _, k in l.a[1]) and l.a[0] > 0:
        return FALSE
    if all(k < 0 for _, k in l.a[1]) and l.a[0] < 0:
        return FALSE
    if l.a[1][0][1] < 0:
        l = lin(0, ((l, -1),))
    if l.a[0] == 0 and all(k > 0 for _, k in l.a[1]) and len(l.a[1]) == 1:
        return mk_not(pos(l))
    return mk('eqz', l)


def mk_and(*ps):
    r = []
    for p in ps:
        if p is FALSE:
            return FALSE
        if p is TRUE:
            continue
        if p.t == 'and':
            r += p.a
        else:
            r.append(p)
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return mk('and', *r)


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.t == 'top':
        return a
    if b.t == 'top':
        return b
    if a.t == 'lin' or b.t == 'lin' or a.t in INTS or b.t in INTS:
        return eqz(sub(a, b))
    for x, y in ((a, b), (b, a)):
        if x.t == 'bool':
            return y if x.a[0] else mk_not(y)
    if a.t == 'str' or b.t == 'str':
        a, b = as_str(a), as_str(b)
        if a is b:
            return TRUE
        ca, cb = str_const(a), str_const(b)
        if ca is not None and cb is not None:
            return Bool(ca == cb)
        # common literal prefix
        pa, pb = a.a[0], b.a[0]
        if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return FALSE
        return mk('eq', *sorted((a, b)))
    if a.t == 'chr' and b.t == 'chr':
        return Bool(a.a[0] == b.a[0])
    if a.t == 'adt' and b.t == 'adt':
        if a.a[1] != b.a[1]:
            return FALSE
        return mk_and(*[mk_eq(x, y) for x, y in zip(a.a[2], b.a[2])])
    if a.t == 'tup' and b.t == 'tup':
        return mk_and(*[mk_eq(x, y) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if x.t == 'adt' and y.t not in ('adt',):
            return mk_and(mk('isvar', y, x.a[1]),
                          *[mk_eq(f, fld(y, x.a[1], i)) for i, f in enumerate(x.a[2])])
    return mk('eq', *sorted((a, b)))


INTS = {'len', 'slen', 'idx', 'cast', 'arith', 'discr', 'lookupint', 'agg', 'ndi', 'carry', 'cv', 'carried'}


def nondet(eng, name, vals, ty):
    """a value that is not determined by the input: time, environment, state that outlives a call"""
    t = eng.p.types[ty]
    while t['k'] in ('ref', 'ptr') or t['k'] == 'adt' and t['path'] in TRANSPARENT and t.get('args') or atomic_of(t):
        if atomic_of(t):
            return mk('nd' if 'Bool' in t['name'] else 'ndi', name, vals, ty)
        ty = t['t'] if t['k'] in ('ref', 'ptr') else t['args'][0]
        t = eng.p.types[ty]
    return mk('ndi' if t['k'] == 'int' else 'nd', name, vals, ty)


TRANSPARENT = {'std::rc::Rc', 'std::boxed::Box', 'std::sync::Arc', 'std::cell::RefCell', 'std::cell::Cell', 'std::sync::Mutex', 'std::sync::RwLock',
               'std::cell::UnsafeCell', 'std::sync::MutexGuard', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard', 'std::cell::Ref', 'std::cell::RefMut',
               'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock'}


def atomic_of(t):
    return t['k'] == 'adt' and 'sync::atomic::Atomic' in t['path']


def depends_nd(v):
    return any(x.t in ('nd', 'ndi') for x in subterms(v))



def fld(v, variant, i):
    if v.t == 'adt':
        if v.a[1] != variant:
            return top('field of another variant')
        if i < len(v.a[2]):
            return v.a[2][i]
        return top('field')
    if v.t in ('tup',):
        return v.a[i]
    if v.t == 'clo':
        return v.a[1][i]
    if v.t == 'vref':
        return fld(v.a[0], variant, i)
    if v.t in ('top', 'boxu'):
        return v
    if v.t == 'pick':
        return picked(v)
    if v.t == 'optif':
        return v.a[1]
    if v.t == 'upd':
        if v.a[1] == variant and v.a[2] == i:
            return v.a[3]
        return fld(v.a[0], variant, i)
    if v.t == 'map' or v.t == 'list' or v.t == 'str':
        return top('field of %s' % v.t)
    return mk('fld', v, variant, i)


def picked(v):
    lst = v.a[0]
    # a single guarded producer: the payload of its (unnamed) match
    if lst.t == 'list' and len(lst.a) == 1 and lst.a[0].t == 'for':
        L, b, body = lst.a[0].a
        s = body[0]
        if len(body) == 1 and (s.t == 'one' or (s.t == 'if' and len(s.a[1]) == 1 and s.a[1][0].t == 'one')):
            val = s.a[0] if s.t == 'one' else s.a[1][0].a[0]
            return subst(val, {b: mk('match', lst)})
    return mk('picked', lst)


def llen(v):
    if v.t == 'list':
        r = Int(0)
        for s in v.a:
            if s.t == 'one':
                r = add(r, Int(1))
            elif s.t == 'for' and len(s.a[2]) == 1 and s.a[2][0].t == 'one':
                r = add(r, llen(s.a[0]))
            else:
                r = add(r, mk('len', List(s)))
        return r
    if v.t in ('sorted', 'sortedby', 'rev'):
        return llen(v.a[0])
    if v.t == 'range':
        return v.a[0]
    if v.t == 'top':
        return v
    return mk('len', v)


def slen(v):
    if v.t == 'str':
        r = Int(0)
        for p in v.a[0]:
            r = add(r, Int(len(p.encode())) if isinstance(p, str) else slen(p))
        return r
    if v.t == 'top':
        return v
    return mk('slen', v)


REBUILD['len'] = llen
REBUILD['slen'] = slen
REBUILD['pos'] = pos
REBUILD['eqz'] = eqz
REBUILD['not'] = mk_not
REBUILD['fld'] = fld
REBUILD['eq'] = mk_eq


def _and(*a):
    return mk_and(*a)


REBUILD['and'] = _and


def as_map(v):
    if v.t == 'map':
        return v
    return mk('map', (mk('base', v),))


def map_ops(v):
    return as_map(v).a[0]


def pure_ins(ops):
    for o in ops:
        if o.t in ('ins', 'base'):
            continue
        if o.t == 'for':
            if not pure_ins(o.a[2]):
                return False
            continue
        if o.t == 'if':
            if not pure_ins(o.a[1]):
                return False
            continue
        return False
    return True


def map_add(m, op):
    """append an operation, inlining a complete copy of another map"""
    ops = map_ops(m)
    if op.t == 'for' and op.a[0].t == 'entries' and len(op.a[2]) == 1 and op.a[2][0].t == 'ins':
        E = op.a[1]
        k, v = op.a[2][0].a
        m2 = as_map(op.a[0].a[0])
        if k is fld(E, 0, 0) and (v is fld(E, 0, 1) or v is UNIT):
            if not ops:
                return m2
            if pure_ins(map_ops(m2)):
                return mk('map', ops + map_ops(m2))
    return mk('map', ops + (op,))


def _remap(ops):
    m = mk('map', ())
    for o in ops:
        m = map_add(m, o)
    return m


REBUILD['map'] = _remap


# ---------------------------------------------------------------- engine

class Frame:
    __slots__ = ('uid', 'bid', 'body')


COUNTING = ('ienum', 'izipn')


def counters(v):
    """what the numbering iterators within an iterator have counted so far"""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T) and x.t not in ('it', 'itg', 'itn', 'list', 'map', 'str'):
            if x.t in COUNTING:
                out.append(x.a[1])
                walk(x.a[0])
            else:
                walk(x.a)
    walk(v)
    return out


def with_counters(v, ns):
    ns = list(ns)

    def walk(x):
        if isinstance(x, tuple):
            return tuple(walk(y) for y in x)
        if isinstance(x, T) and x.t not in ('it', 'itg', 'itn', 'list', 'map', 'str'):
            if x.t in COUNTING:
                n = ns.pop(0)
                return mk(x.t, walk(x.a[0]), n)
            if any(y.t in COUNTING for y in subterms(x)):
                return mk(x.t, *[walk(y) for y in x.a])
        return x
    return walk(v)


def frame_of(v, L, j):
    """an iterator without its position in the list and its counters: what has to stay the same from round to round"""
    return subst(with_counters(v, [UNIT] * len(counters(v))),
                 {x: UNDEF for x in subterms(v) if x.t in ('itg', 'itn') and x.a[0] is L and x.a[1] == j})


class Engine:
    def __init__(self, prog, models, opaque=None, oracle=None, budget=3000000):
        self.p = prog
        self.models = models
        self.opaque = opaque or {}
        self.oracle = oracle
        self.uid = 0
        self.steps = 0
        self.budget = budget
        self.deadline = time.time() + 300
        self.stack = []
        self.rec = {}
        self.ctx = {}
        self.cbfun = {}
        self.next_at = 'none'   # where the call that is being looked at stands: no loop, head of a loop, in a loop
        self.probe = 0      # inside a round whose result is not final
        self.root = None
        self.heads = set()
        self.panics = []
        self.exits = []
        self.unknown = {}
        self.analysed = set()
        self.loops_seen = {}
        self.callsites = set()
        self.summaries = {}
        self.quiet = 0
        self.loop_fail = []
        self.static_writes = set()

    # ---- memory
    def cell(self):
        self.uid += 1
        return ('h', self.uid)

    def load(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == 'static':
                v = nondet(self, 'static ' + cell[1], (), cell[2])
            else:
                return top('uninitialised')
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == 'f':
            while v.t == 'vref':
                v = v.a[0]
            if v.t == 'ref':
                v = self.load(st, v.a[0], v.a[1])
            return fld(v, p[1], p[2])
        if p[0] == 'i':
            return self.index(st, v, p[1])
        if p[0] == 'm':
            return self.map_value(self, st, v, p[1])
        return top('projection')

    def index(self, st, v, i):
        if v.t == 'top':
            return v
        lst = v
        if lst.t == 'list':
            c = const_int(i)
            if c is not None:
                n = 0
                for s in lst.a:
                    if s.t != 'one':
                        break
                    if n == c:
                        return s.a[0]
                    n += 1
                if c >= 0 and len(lst.a) == 1 and lst.a[0].t == 'for' and self._ident(lst.a[0]):
                    return mk('at', lst.a[0].a[0], i)
            if len(lst.a) == 1 and lst.a[0].t == 'for' and len(lst.a[0].a[2]) == 1 and lst.a[0].a[2][0].t == 'one':
                L, b, body = lst.a[0].a
                if i.t == 'idx' and i.a[0].a[0] is L:
                    return subst(body[0].a[0], {b: i.a[0]})
                if self._ident(lst.a[0]):
                    return mk('at', L, i)
            return mk('at', lst, i)
        if i.t == 'idx' and i.a[0].t == 'e' and i.a[0].a[0] is v:
            return i.a[0]
        return mk('at', v, i)

    def _ident(self, seg):
        return len(seg.a[2]) == 1 and seg.a[2][0].t == 'one' and seg.a[2][0].a[0] is seg.a[1]

    def store(self, st, cell, path, val):
        if cell[0] == 'static':
            self.static_writes.add('static ' + cell[1])
        if not path:
            st.mem[cell] = val
            return
        old = st.mem.get(cell, UNDEF)
        st.mem[cell] = self.update(st, old, path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == 'f':
            _, variant, i = p
            if v.t == 'adt':
                f = list(v.a[2])
                while len(f) <= i:
                    f.append(UNDEF)
                f[i] = self.update(st, f[i], path[1:], val)
                return mk('adt', v.a[0], variant, tuple(f))
            if v.t == 'tup':
                f = list(v.a)
                while len(f) <= i:
                    f.append(UNDEF)
                f[i] = self.update(st, f[i], path[1:], val)
                return mk('tup', *f)
            if v.t == 'clo':
                f = list(v.a[1])
                f[i] = self.update(st, f[i], path[1:], val)
                return mk('clo', v.a[0], tuple(f))
            if v.t == 'undef':
                return self.update(st, mk('tup'), path, val)
            if v.t == 'top':
                return v
            n = p[3] if len(p) > 3 else None
            return mk('upd', v, variant, i, self.update(st, fld(v, variant, i), path[1:], val))
        if p[0] == 'i':
            c = const_int(p[1])
            if v.t == 'list' and c is not None and c < len(v.a) and all(s.t == 'one' for s in v.a[:c + 1]):
                segs = list(v.a)
                segs[c] = one(self.update(st, segs[c].a[0], path[1:], val))
                return List(*segs)
            return top('indexed assignment')
        if p[0] == 'm':
            if v.t == 'top':
                return v
            new = self.update(st, self.map_value(self, st, v, p[1]), path[1:], val)
            new = self.deep(st, new)
            return mk('map', map_ops(v) + (mk('ins', p[1], new),))
        return top('assignment')

    def deref(self, st, v):
        """value behind any number of references"""
        n = 0
        while v.t in ('ref', 'vref'):
            v = self.load(st, v.a[0], v.a[1]) if v.t == 'ref' else v.a[0]
            n += 1
            if n > 50:
                return top('reference cycle')
        return v

    def deref1(self, st, v):
        if v.t == 'ref':
            return self.load(st, v.a[0], v.a[1])
        if v.t == 'vref':
            return v.a[0]
        return v

    def deep(self, st, v, memo=None):
        """value with all references inside it resolved"""
        if memo is None:
            memo = {}
        if not isinstance(v, T):
            if isinstance(v, tuple):
                return tuple(self.deep(st, x, memo) for x in v)
            return v
        if v.t in ('ref', 'vref'):
            return self.deep(st, self.deref1(st, v), memo)
        if v.t not in ('adt', 'tup', 'list', 'one', 'str', 'clo', 'map', 'ins'):
            return v
        r = memo.get(v)
        if r is None:
            a = tuple(self.deep(st, x, memo) for x in v.a)
            r = v if a == v.a else rebuild(v.t, a)
            memo[v] = r
        return r

    # ---- places
    def lv(self, st, fr, place):
        cell = (fr.uid, place[0])
        path = ()
        val = None    # set when the place is inside an immutable value
        variant = 0
        for p in place[1]:
            k = p[0]
            if k == 'deref':
                v = self.load(st, cell, path) if val is None else val
                if v.t == 'boxu':
                    v = v.a[0]
                if v.t == 'ref':
                    cell, path, val = v.a[0], v.a[1], None
                elif v.t == 'vref':
                    val = v.a[0]
                elif val is None and v.t not in STRUCTURAL and v.t not in ('top', 'upd', 'undef'):
                    # symbol standing for what it refers to
                    val = v
            elif k == 'downcast':
                variant = p[1]
                continue
            elif k == 'field':
                step = ('f', variant, p[1])
                if val is None:
                    path = path + (step,)
                else:
                    val = self.proj(st, val, step)
            elif k == 'index':
                i = self.load(st, (fr.uid, p[1]), ())
                if val is None:
                    path = path + (('i', i),)
                else:
                    val = self.index(st, val, i)
            elif k == 'cindex':
                if p[-1]:
                    v = self.load(st, cell, path) if val is None else val
                    val = mk('at', v, sub(llen(as_list(v)), Int(p[1])))
                else:
                    i = Int(p[1])
                    if val is None:
                        path = path + (('i', i),)
                    else:
                        val = self.index(st, val, i)
            else:
                val = top('place ' + k)
            variant = 0
        return (cell, path, val, variant)

    def read(self, st, fr, place):
        cell, path, val, _ = self.lv(st, fr, place)
        return self.load(st, cell, path) if val is None else val

    def write(self, st, fr, place, v):
        cell, path, val, _ = self.lv(st, fr, place)
        if val is not None:
            st.taint = st.taint | {'write through a shared reference'}
            return
        self.store(st, cell, path, v)

    def place_ty(self, fr, place):
        t = fr.body['locals'][place[0]]
        variant = 0
        T_ = self.p.types
        for p in place[1]:
            ty = T_[t]
            k = p[0]
            if k == 'deref':
                if ty['k'] in ('ref', 'ptr'):
                    t = ty['t']
                elif ty['k'] == 'adt' and ty.get('args'):
                    t = ty['args'][0]
                else:
                    return None
            elif k == 'downcast':
                variant = p[1]
                continue
            elif k == 'field':
                if ty['k'] == 'tuple':
                    t = ty['ts'][p[1]]
                elif ty['k'] == 'closure':
                    t = ty['upvars'][p[1]]
                elif ty['k'] == 'adt' and ty.get('variants'):
                    fs = ty['variants'][variant]['fields']
                    t = fs[p[1]]['ty']
                else:
                    return None
            elif k in ('index', 'cindex'):
                t = ty.get('t')
                if t is None:
                    return None
            else:
                return None
            variant = 0
        return t

    # ---- constants and operands
    def const(self, c):
        k = c['c']
        if k == 'bool':
            return Bool(c['v'])
        if k == 'char':
            return Char(c['v'])
        if k == 'int':
            return Int(int(c['v']))
        if k == 'str':
            return mk('vref', Str(c['v']))
        if k == 'array':
            return List(*[one(self.const(x)) for x in c['v']])
        if k == 'tuple':
            return Tup(*[self.const(x) for x in c['v']])
        if k == 'adt':
            ty = self.p.types[c['ty']]
            return Adt(ty['path'], c['variant'], *[self.const(x) for x in c['v']])
        if k == 'ref':
            return Vref(self.const(c['v']))
        if k == 'zst':
            ty = self.p.types[c['ty']]
            if ty['k'] == 'tuple':
                return Tup(*[UNDEF for _ in ty['ts']]) if ty['ts'] else UNIT
            if ty['k'] == 'closure':
                return mk('clo', c['ty'], ())
            if ty['k'] == 'adt':
                return Adt(ty['path'], 0)
            if ty['k'] == 'fndef' and ty.get('f'):
                return self.fnval(ty['f'])
            return UNIT
        if k == 'fn':
            return self.fnval(c['f'])
        if k == 'static':
            return mk('ref', ('static', c['path'], c['ty']), ())
        return top('constant')

    def fnval(self, f):
        key = json.dumps(f, sort_keys=True)
        t = mk('fn', key)
        return t

    def operand(self, st, fr, o):
        if o[0] == 'const':
            return self.const(o[1])
        return self.read(st, fr, o[1])

    # ---- predicates on states
    def variants(self, st, v, n):
        # the same unknown may stand for different values
        s = st.facts.get(mk('variant', v)) if not contains_top(v) else None
        if s is None:
            s = frozenset(range(n))
            if self.oracle:
                r = self.oracle(st, mk('variant', v))
                if r is not None:
                    s = r
        return s

    def decide(self, st, p):
        """True / False / None"""
        if p is TRUE:
            return True
        if p is FALSE:
            return False
        if p.t == 'not':
            r = self.decide(st, p.a[0])
            return None if r is None else not r
        if p.t == 'and':
            rs = [self.decide(st, q) for q in p.a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if p.t == 'or':
            rs = [self.decide(st, q) for q in p.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if contains_top(p):
            return None
        r = st.facts.get(p)
        if r is not None:
            return r
        if p.t == 'isvar':
            s = st.facts.get(mk('variant', p.a[0]))
            if s is not None:
                if p.a[1] not in s:
                    return False
                if len(s) == 1:
                    return True
            return None
        if p.t in ('pos', 'eqz'):
            r = self.arith(st, p)
            if r is not None:
                return r
        if p.t == 'in':
            r = self.in_map(st, map_ops(p.a[0]), p.a[1], p)
            if r is not None:
                return r
        if self.oracle:
            return self.oracle(st, p)
        return None

    def bounds(self, st, key):
        """known bounds of the linear form with coefficients `key` (tuple)"""
        lo, hi = None, None
        neg = tuple((t, -k) for t, k in key)
        if all(k > 0 for _, k in key):
            lo = 0
        if all(k < 0 for _, k in key):
            hi = 0
        if self.oracle:
            b = self.oracle(st, mk('bounds', key))
            if b:
                lo = b[0] if lo is None else max(lo, b[0] if b[0] is not None else lo)
                hi = b[1] if hi is None else min(hi, b[1] if b[1] is not None else hi)
        for p, v in st.facts.items():
            if p.t == 'pos':
                l = p.a[0]
                c = l.a[0]
                if l.a[1] == key:
                    # key + c > 0
                    if v:
                        lo = 1 - c if lo is None else max(lo, 1 - c)
                    else:
                        hi = -c if hi is None else min(hi, -c)
                elif l.a[1] == neg:
                    # -key + c > 0  <=> key < c
                    if v:
                        hi = c - 1 if hi is None else min(hi, c - 1)
                    else:
                        lo = c if lo is None else max(lo, c)
            elif p.t == 'eqz' and v:
                l = p.a[0]
                if l.a[1] == key:
                    lo = hi = -l.a[0]
                elif l.a[1] == neg:
                    lo = hi = l.a[0]
        return lo, hi

    def arith(self, st, p):
        l = p.a[0]
        lo, hi = self.bounds(st, l.a[1])
        c = l.a[0]
        if p.t == 'pos':
            if lo is not None and lo + c > 0:
                return True
            if hi is not None and hi + c <= 0:
                return False
        else:
            if lo is not None and lo + c > 0 or hi is not None and hi + c < 0:
                return False
            if lo is not None and lo == hi and lo + c == 0:
                return True
            # excluded end points
        return None

    def in_map(self, st, ops, k, p=None):
        """is key k in the map built by ops?"""
        ops = tuple(ops)
        while True:
            if not ops:
                return False
            q = mk('in', mk('map', ops), k)
            r = st.facts.get(q)
            if r is not None:
                return r
            if self.oracle:
                r = self.oracle(st, q)
                if r is not None:
                    return r
            o = ops[-1]
            rest = ops[:-1]
            if o.t == 'ins':
                e = self.decide(st, mk_eq(o.a[0], k))
                if e is True:
                    return True
                if e is False:
                    ops = rest
                    continue
                r = self.in_map(st, rest, k)
                if r is True:
                    return True
                return None
            if o.t == 'rem':
                e = self.decide(st, mk_eq(o.a[0], k))
                if e is True:
                    return False
                if e is False:
                    ops = rest
                    continue
                r = self.in_map(st, rest, k)
                if r is False:
                    return False
                return None
            if o.t == 'rec':
                call, leaf = o.a
                info = self.rec.get(call.a[0])
                if info:
                    for (i, lf) in info['ensures']:
                        if lf == leaf and self.ret_ok(st, call):
                            a = call.a[1][i]
                            if self.decide(st, mk_eq(a, k)) is True:
                                return True
                    r = self.in_map(st, rest, k)
                    if r is True and 'grow' in info['mono'].get(leaf, ()):
                        return True
                    if r is False and 'shrink' in info['mono'].get(leaf, ()):
                        return False
                return None
            return None

    def ret_ok(self, st, call):
        r = mk('ret', call)
        if call.a[2]:     # returns a Result
            s = st.facts.get(mk('variant', r))
            return s == frozenset([0])
        return True

    def branch(self, st, p, where=None):
        """[(truth, state)]"""
        if p.t == 'vref' or p.t == 'ref':
            p = self.deref(st, p)
        if p.t == 'not':
            return [(not b, s) for b, s in self.branch(st, p.a[0], where)]
        if p.t == 'and':
            out = []
            cur = [st]
            for q in p.a:
                nxt = []
                for s in cur:
                    for b, s2 in self.branch(s, q, where):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((False, s2))
                cur = nxt
            return out + [(True, s) for s in cur]
        if p.t == 'or':
            return [(not b, s) for b, s in self.branch(st, mk_and(*[mk_not(q) for q in p.a]), where)]
        d = self.decide(st, p)
        if d is not None:
            return [(d, st)]
        out = []
        if p.t == 'isvar':
            v, i = p.a
            key = mk('variant', v)
            s0 = st.facts.get(key)
            a = st.fork()
            a.facts[key] = frozenset([i])
            b = st.fork()
            if contains_top(v):
                a.taint = b.taint = st.taint | {'variant of %s' % (v,)}
            elif s0 is not None:
                b.facts[key] = s0 - {i}
            else:
                b.facts[p] = False
            return [(True, a), (False, b)]
        for val in (True, False):
            s = st.fork()
            if contains_top(p):
                s.taint = s.taint | {'condition %s' % (p,)}
            s.facts[p] = val
            if where:
                s.trail = ((where, p, val), s.trail)
            out.append((val, s))
        return out

    # ---- rvalues
    def rvalue(self, st, fr, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'rawptr':
            place = rv[2] if k == 'ref' else rv[-1]
            cell, path, val, _ = self.lv(st, fr, place)
            if val is not None:
                return Vref(val)
            # reborrow of a symbol that stands for what it refers to
            if place[1] and place[1][-1][0] == 'deref' and cell[0] != 'static':
                v = self.load(st, cell, path)
                if v.t not in STRUCTURAL and v.t not in ('ref', 'vref', 'top', 'upd'):
                    pt = self.place_ty(fr, [place[0], place[1][:-1]])
                    if pt is not None and self.p.types[pt]['k'] == 'ref' and not self.p.types[pt].get('mut'):
                        return v
            return mk('ref', cell, path)
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            ty = self.p.types[rv[3]]
            if ty['k'] == 'int' and (v.t == 'lin' or v.t in INTS or v.t == 'fld' or v.t == 'at'):
                c = const_int(v)
                if c is not None:
                    bits = ty['bits']
                    c &= (1 << bits) - 1
                    if ty['signed'] and c >> (bits - 1):
                        c -= 1 << bits
                    return Int(c)
                if ty['bits'] >= 64:
                    return v
                return mk('cast', ty['name'], v)
            if v.t == 'discr':
                return v
            if ty['k'] == 'int' and v.t == 'chr':
                return Int(v.a[0])
            return v
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), self.checked_type(fr, dest))
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if v.t in ('bool', 'not', 'pos', 'eqz', 'eq', 'in', 'isvar', 'and', 'or', 'top', 'fld', 'app'):
                    return mk_not(v)
                return top('bitwise not') if v.t == 'lin' else mk_not(v)
            if rv[1] == 'Neg':
                return lin(0, ((v, -1),))
            if rv[1] == 'PtrMetadata':
                d = self.deref(st, v)
                return llen(as_list(d)) if d.t != 'str' else slen(d)
            return top('unary ' + rv[1])
        if k == 'discr':
            place = rv[1]
            v = self.deref_adt(st, self.read(st, fr, place))
            t = self.place_ty(fr, place)
            return self.discr(v, t)
        if k == 'agg':
            kind, ty, variant, ops = rv[1], rv[2], rv[3], rv[4]
            vs = [self.operand(st, fr, o) for o in ops]
            if kind == 'tuple':
                return Tup(*vs)
            if kind == 'array':
                return List(*[one(v) for v in vs])
            if kind == 'closure':
                return mk('clo', ty, tuple(vs))
            if kind == 'adt':
                return Adt(self.p.types[ty]['path'], variant, *vs)
            if kind == 'rawptr':
                return vs[0]
            return top('aggregate ' + str(kind))
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            try:
                n = int(rv[2])
                if n <= 64:
                    return List(*[one(v)] * n)
            except Exception:
                pass
            return top('repeat')
        if k == 'len':
            v = self.deref(st, self.read(st, fr, rv[1]))
            return llen(as_list(v))
        return top('rvalue ' + k)

    def deref_adt(self, st, v):
        while v.t in ('vref', 'ref'):
            v = self.deref1(st, v)
        return v

    def discr(self, v, t):
        if v.t == 'top':
            return v
        ty = self.p.types[t] if t is not None else None
        if v.t == 'adt':
            if ty and ty.get('variants') and v.a[1] < len(ty['variants']):
                d = ty['variants'][v.a[1]].get('discr', v.a[1])
                return Int(int(d))
            return Int(v.a[1])
        return mk('discr', v, -1 if t is None else t)

    def is_discr(self, d, n):
        v, t = d.a
        if v.t in ('pick', 'optif'):
            p = pos(llen(v.a[0])) if v.t == 'pick' else v.a[0]
            return p if n == 1 else mk_not(p)
        ty = self.p.types[t] if t >= 0 else None
        if ty and ty.get('variants'):
            for i, x in enumerate(ty['variants']):
                if int(x.get('discr', i)) == n:
                    return mk('isvar', v, i) if len(ty['variants']) > 1 else TRUE
            return FALSE
        return mk('isvar', v, n)

    def checked_type(self, fr, dest):
        """(least, greatest) value of the type of a checked operation"""
        if dest is None or dest[1]:
            return None
        t = self.p.types[fr.body['locals'][dest[0]]]
        if t['k'] == 'tuple' and len(t['ts']) == 2:
            t = self.p.types[t['ts'][0]]
        if t['k'] != 'int':
            return None
        n = t['bits']
        return (-(1 << n - 1), (1 << n - 1) - 1) if t.get('signed') else (0, (1 << n) - 1)

    def binop(self, st, op, a, b, rng=None):
        a, b = self.deref(st, a), self.deref(st, b)
        if a.t == 'top':
            return a if 'Overflow' not in op else Tup(a, FALSE)
        if b.t == 'top':
            return b if 'Overflow' not in op else Tup(b, FALSE)
        ov = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        ca, cb = const_int(a), const_int(b)

        def big(r):
            # only narrow types are filled by what a schema can count
            return pos(sub(r, Int(rng[1]))) if rng and rng[1] < 1 << 16 else FALSE
        if base == 'Add':
            r = add(a, b)
            return Tup(r, big(r)) if ov else r
        if base == 'Sub':
            r = sub(a, b)
            if rng and rng[0] < 0:
                return Tup(r, pos(sub(Int(rng[0]), r)) if rng[1] < 1 << 16 else FALSE) if ov else r
            return Tup(r, pos(sub(b, a))) if ov else r
        if base == 'Mul':
            if ca is not None:
                r = un_lin(lin(0, ((as_lin(b), ca),)))
            elif cb is not None:
                r = un_lin(lin(0, ((as_lin(a), cb),)))
            else:
                r = mk('arith', 'mul', *sorted((a, b)))
            return Tup(r, big(r)) if ov else r
        if base in ('Eq', 'Ne'):
            r = None
            for x, c in ((a, cb), (b, ca)):
                if x.t == 'discr' and c is not None:
                    r = self.is_discr(x, c)
            if r is None:
                r = mk_eq(a, b)
            return r if base == 'Eq' else mk_not(r)
        if base in ('Lt', 'Gt', 'Le', 'Ge'):
            if a.t == 'chr' and b.t == 'chr':
                x, y = a.a[0], b.a[0]
                return Bool({'Lt': x < y, 'Gt': x > y, 'Le': x <= y, 'Ge': x >= y}[base])
            if base == 'Lt':
                return pos(sub(b, a))
            if base == 'Gt':
                return pos(sub(a, b))
            if base == 'Le':
                return pos(add(sub(b, a), Int(1)))
            return pos(add(sub(a, b), Int(1)))
        if ca is not None and cb is not None:
            try:
                v = {'BitAnd': lambda: ca & cb, 'BitOr': lambda: ca | cb, 'BitXor': lambda: ca ^ cb,
                     'Shl': lambda: ca << cb, 'Shr': lambda: ca >> cb, 'Div': lambda: ca // cb,
                     'Rem': lambda: ca % cb}[base]()
                return Tup(Int(v), FALSE) if ov else Int(v)
            except Exception:
                return top('arithmetic')
        if base in ('BitAnd', 'BitOr', 'BitXor') and (rng is not None or ca is not None or cb is not None or is_intlike(a) or is_intlike(b)):
            return mk('arith', base.lower(), a, b)
        if base == 'BitAnd':
            return mk_and(a, b)
        if base == 'BitOr':
            if a is TRUE or b is TRUE:
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
            if a.t in BOOLT and b.t in BOOLT:
                return mk_not(mk_and(mk_not(a), mk_not(b)))
        if base == 'BitXor':
            if a is TRUE:
                return mk_not(b)
            if b is TRUE:
                return mk_not(a)
            if a is FALSE:
                return b
            if b is FALSE:
                return a
        return mk('arith', base.lower(), a, b)

    # ---- running
    def tick(self):
        self.steps += 1
        if self.steps > self.budget or (self.steps % 500 == 0 and time.time() > self.deadline):
            raise Budget('analysis budget exhausted')

    def call_body(self, bid, args, st):
        body = self.p.bodies[bid]
        self.analysed.add(bid)
        self.uid += 1
        fr = Frame()
        fr.uid = self.uid
        fr.bid = bid
        fr.body = body
        n = body['nargs']
        st = st.fork()
        for i in range(n):
            st.mem[(fr.uid, i + 1)] = args[i] if i < len(args) else UNDEF
        self.stack.append(bid)
        try:
            outs = self.run_region(fr, 0, st)
        finally:
            self.stack.pop()
        res = []
        for kind, payload, s in outs:
            if kind != 'ret':
                # a loop signal that nobody took
                s.taint = s.taint | {'iteration across a call'}
                continue
            s.mem = {c: v for c, v in s.mem.items() if c[0] != fr.uid}
            res.append((s, payload))
        return res

    def run_region(self, fr, start, st, head=None, blocks=None):
        out = []
        loops = self.p.loops(fr.bid)
        bl = fr.body['blocks']
        work = [(start, st, True)]
        while work:
            bb, s, first = work.pop()
            if head is not None and bb == head and not first:
                out.append(('back', None, s))
                continue
            if blocks is not None and bb not in blocks:
                out.append(('exit', bb, s))
                continue
            if bb in loops and not (bb == head and first):
                lb = loops[bb]
                self.loops_seen.setdefault((fr.bid, bb), 0)
                outs = self.summarize(s, lambda z: self.run_region(fr, bb, z, head=bb, blocks=lb),
                                      (fr.body['path'], self.block_span(fr, bb)))
                for kind, payload, s2 in outs:
                    if kind == 'exit':
                        work.append((payload, s2, False))
                    else:
                        out.append((kind, payload, s2))
                continue
            self.tick()
            stmts, term = bl[bb]
            for sm in stmts:
                if sm[0] == '=':
                    v = self.rvalue(s, fr, sm[2], sm[1])
                    self.write(s, fr, sm[1], v)
                elif sm[0] == 'dead':
                    s.mem.pop((fr.uid, sm[1]), None)
                elif sm[0] == 'setd':
                    v = self.read(s, fr, sm[1])
                    if v.t == 'adt':
                        self.write(s, fr, sm[1], mk('adt', v.a[0], sm[2], v.a[2]))
                    else:
                        self.write(s, fr, sm[1], top('set discriminant'))
            k = term[0]
            if k == 'goto':
                work.append((term[1], s, False))
            elif k == 'return':
                out.append(('ret', s.mem.get((fr.uid, 0), UNIT), s))
            elif k in ('unreachable',):
                pass
            elif k == 'drop':
                work.append((term[1], s, False))
            elif k == 'switch':
                for tgt, s2 in self.switch(s, fr, term):
                    work.append((tgt, s2, False))
            elif k == 'assert':
                cond = self.operand(s, fr, term[1])
                exp = term[2]
                w = (fr.body['path'], term[5])
                for b, s2 in self.branch(s, cond, w):
                    if b == exp:
                        work.append((term[4], s2, False))
                    else:
                        self.panic(s2, fr, term[5], 'assert ' + str(term[3]), cond)
            elif k == 'call':
                self.next_at = 'none' if head is None else 'head' if bb == head else 'loop'
                for kind, payload in self.do_call(s, fr, term):
                    if kind == 'ok':
                        s2, v = payload
                        if v is SKIP:
                            out.append(('back', None, s2))
                        elif v is REENTER:
                            out.append(('reenter', None, s2))
                        elif term[4] >= 0:
                            self.write(s2, fr, term[3], v)
                            work.append((term[4], s2, False))
            elif k == 'diverge':
                self.panic(s, fr, fr.body['ispan'], 'diverge', None)
            else:
                raise Anchor('terminator ' + k)
        return out

    def block_span(self, fr, bb):
        b = fr.body['blocks'][bb]
        for s in b[0]:
            if s[0] == '=' and s[-1]:
                return tuple(s[-1])
        t = b[1]
        if t[0] == 'call':
            return tuple(t[5])
        return tuple(fr.body['ispan'])

    def panic(self, st, fr, span, what, cond):
        if self.quiet:
            return
        self.panics.append({'fn': fr.body['path'], 'crate': fr.body['crate'], 'span': tuple(span) if span else None,
                            'what': what, 'cond': cond, 'st': st, 'stack': tuple(self.stack)})

    def switch(self, st, fr, term):
        v = self.operand(st, fr, term[1])
        v = self.deref(st, v)
        targets, other = term[2], term[3]
        w = (fr.body['path'], tuple(term[4]) if term[4] else None)
        c = const_int(v)
        if v.t == 'bool':
            c = 1 if v.a[0] else 0
        if v.t == 'chr':
            c = v.a[0]
        if c is not None:
            for val, bb in targets:
                if int(val) == c:
                    return [(bb, st)]
            return [(other, st)] if other is not None and other >= 0 else []
        ty = self.p.types[term[5]] if len(term) > 5 and term[5] is not None else None
        if v.t == 'discr':
            return self.switch_discr(st, v, targets, other, w)
        if ty is not None and ty['k'] == 'bool' or v.t in BOOLT:
            out = []
            for b, s in self.branch(st, v, w):
                n = 1 if b else 0
                for val, bb in targets:
                    if int(val) == n:
                        out.append((bb, s))
                        break
                else:
                    if other is not None and other >= 0:
                        out.append((other, s))
            return out
        # integers / characters
        out = []
        cur = st
        for val, bb in targets:
            p = eqz(sub(v, Int(int(val)))) if v.t != 'top' else v
            if ty is not None and ty['k'] == 'char' and v.t != 'top':
                p = mk_eq(v, Char(int(val)))
            nxt = None
            for b, s in self.branch(cur, p, w):
                if b:
                    out.append((bb, s))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        if other is not None and other >= 0:
            out.append((other, cur))
        return out

    def switch_discr(self, st, d, targets, other, w):
        v, t = d.a
        ty = self.p.types[t] if t >= 0 else None
        if v.t in ('pick', 'optif'):
            out = []
            for b, s in self.branch(st, pos(llen(v.a[0])) if v.t == 'pick' else v.a[0], w):
                n = 1 if b else 0
                for val, bb in targets:
                    if int(val) == n:
                        out.append((bb, s))
                        break
                else:
                    out.append((other, s))
            return out
        if not ty or not ty.get('variants'):
            n = max([int(x) for x, _ in targets] + [0]) + 1
            if other is not None and other >= 0:
                n += 1
            dmap = {i: i for i in range(n)}
        else:
            dmap = {int(x.get('discr', i)): i for i, x in enumerate(ty['variants'])}
            n = len(ty['variants'])
        have = self.variants(st, v, n)
        key = mk('variant', v)
        tainted = contains_top(v)
        if not tainted:
            have = frozenset(i for i in have if st.facts.get(mk('isvar', v, i)) is not False)
        out = []
        rest = set(have)
        for val, bb in targets:
            i = dmap.get(int(val))
            if i is None or i not in have:
                continue
            rest.discard(i)
            if have == frozenset([i]):
                s = st
            else:
                s = st.fork()
                s.trail = ((w, key, frozenset([i])), s.trail)
                if tainted:
                    s.taint = s.taint | {'variant of %s' % (v,)}
            s.facts[key] = frozenset([i])
            out.append((bb, s))
        if rest and other is not None and other >= 0:
            if frozenset(rest) == have:
                s = st
            else:
                s = st.fork()
                s.trail = ((w, key, frozenset(rest)), s.trail)
                if tainted:
                    s.taint = s.taint | {'variant of %s' % (v,)}
            if len(rest) < n:
                s.facts[key] = frozenset(rest)
            out.append((other, s))
        return out

    # ---- calls
    def do_call(self, st, fr, term):
        f = term[1]
        args = [self.operand(st, fr, a) for a in term[2]]
        span = tuple(term[5]) if term[5] else None
        rty = self.place_ty(fr, term[3])
        self.callsites.add((fr.bid, span))
        site = (fr.body['path'], span)
        if f[0] == 'const' and f[1].get('c') == 'fn':
            outs = self.call_callee(f[1]['f'], args, st, rty, site, fr)
        else:
            fv = self.operand(st, fr, f)
            outs = self.call_value(fv, args, st, rty, site)
        return [('ok', o) for o in outs]

    def call_callee(self, c, args, st, rty, site, fr=None):
        if c.get('ctor') is not None:
            ty = self.p.types[c['ctor'][0]]
            return [(st, Adt(ty['path'], c['ctor'][1], *args))]
        inst = c.get('inst', -1)
        name = self.p.norm(c['path'])
        if inst in self.opaque:
            return self.opaque[inst](self, st, args, rty, site)
        if (c.get('trait') or '').startswith('std::ops::Fn') and c['name'] in ('call', 'call_mut', 'call_once'):
            tup = self.deref(st, args[1])
            if tup.t != 'tup':
                return [(self.tainted(st, 'call'), top('call'))]
            return self.call_value(args[0], list(tup.a), st, rty, site)
        own = c.get('rcrate') in OWN
        if own and inst >= 0 and not self.derived(c):
            return self.call_own(inst, args, st, rty, site)
        if c.get('trait'):
            m = self.models.get(name) or self.models.get(c['trait'] + '::*')
        else:
            m = self.models.get(name)
        if m:
            r = m(self, st, args, c, rty, site)
            if r is not None:
                return r
        if inst >= 0:
            return self.call_own(inst, args, st, rty, site)
        return self.unknown_call(c, name, args, st, rty, site)

    def derived(self, c):
        t = c.get('trait')
        return t in ('std::clone::Clone', 'std::cmp::PartialEq')

    def call_own(self, inst, args, st, rty, site):
        if inst in self.heads:
            return self.call_rec(inst, args, st, rty, site)
        if inst in self.stack and self.stack.count(inst) > 3:
            st = st.fork()
            st.taint = st.taint | {'unexpected recursion'}
            return [(st, top('recursion'))]
        return self.call_body(inst, args, st)

    def unknown_call(self, c, name, args, st, rty, site):
        """no model: pure function of its arguments unless it can mutate something"""
        self.unknown[name] = self.unknown.get(name, 0) + 1
        st = st.fork()
        vals = []
        for a in args:
            vals.append(self.deep(st, a))
        ret = self.p.types[rty] if rty is not None else None
        sig_mut = [i for i, a in enumerate(args) if a.t == 'ref' and self.arg_mut(c, i)]
        nd = rty is not None and not any(contains_top(v) for v in vals) and any(depends_nd(v) for v in vals)
        for i in sig_mut:
            self.store(st, args[i].a[0], args[i].a[1], top('modified by ' + name))
        if ret is not None and ret['k'] == 'tuple' and not ret['ts']:
            return [(st, UNIT)]
        if any(contains_top(v) for v in vals):
            return [(st, top(name))]
        if nd:
            return [(st, nondet(self, name, tuple(vals), rty))]
        return [(st, mk('app', name, tuple(vals)))]

    def arg_mut(self, c, i):
        m = c.get('muts')
        if m is None:
            return True
        return i < len(m) and m[i]

    def call_value(self, f, args, st, rty, site):
        """call of a closure / fn pointer value"""
        self_arg = f
        v = self.deref(st, f)
        if v.t == 'clo':
            ty = self.p.types[v.a[0]]
            inst = ty.get('inst', -1)
            if inst < 0:
                return [(st, top('closure without body'))]
            body = self.p.bodies[inst]
            lt = self.p.types[body['locals'][1]] if body['nargs'] >= 1 else None
            if lt is not None and lt['k'] in ('ref', 'ptr'):
                a0 = self_arg
                # innermost reference to the closure itself
                while a0.t in ('ref', 'vref') and self.deref1(st, a0).t in ('ref', 'vref'):
                    a0 = self.deref1(st, a0)
                if a0.t == 'clo':
                    a0 = Vref(a0)
            else:
                a0 = v
            return self.call_own(inst, [a0] + list(args), st, rty, site)
        if v.t == 'fn':
            c = json.loads(v.a[0])
            return self.call_callee(c, list(args), st, rty, site)
        if v.t == 'symfn':
            st = st.fork()
            vals = tuple(self.deep(st, a) for a in args)
            n = mk('cbres', v.a[0], vals)
            self.event(st, mk('ev', 'callback', (v,) + vals, n), site)
            return [(st, n)]
        st = st.fork()
        for a in args:
            if a.t == 'ref':
                self.store(st, a.a[0], a.a[1], top('modified by an unknown function'))
        return [(st, top('call of unknown function'))]

    def event(self, st, ev, site):
        l = st.mem[EV]
        st.mem[EV] = mk('list', *(l.a + (one(ev),)))

    # ---- recursion
    def call_rec(self, bid, args, st, rty, site):
        info = self.rec_info(bid)
        st = st.fork()
        leaves = self.leaves(st, bid, args)
        eff = info['effects']
        masked = {}
        for leaf, (cell, path) in leaves.items():
            if eff.get(leaf) == 'append':
                masked[(cell, path)] = mk('buf')
            elif eff.get(leaf) == 'map':
                old = self.load(st, cell, path)
                if old.t != 'top':
                    masked[(cell, path)] = mk('buf', ' '.join(o.t for o in map_ops(old)))
        s2 = st
        if masked:
            s2 = st.fork()
            for (cell, path), v in masked.items():
                self.store(s2, cell, path, v)
        snap = tuple(self.deep(s2, a) for a in args)
        res = self.p.types[self.p.bodies[bid]['locals'][0]]
        is_res = res['k'] == 'adt' and res['path'] == RES
        call = mk('call', bid, snap, is_res)
        # what the changed containers hold when the call is made
        if not self.probe:
            self.ctx[call] = (self.root, {leaf: self.load(st, cell, path) for leaf, (cell, path) in leaves.items() if eff.get(leaf)})
        for leaf, (cell, path) in leaves.items():
            e = eff.get(leaf)
            if e is None:
                continue
            old = self.load(st, cell, path)
            if e == 'append' and old.t == 'str':
                self.store(st, cell, path, Str(old, mk('nt', call, leaf)))
            elif e == 'map':
                self.store(st, cell, path, mk('map', map_ops(old) + (mk('rec', call, leaf),)))
            elif e == 'listappend':
                self.store(st, cell, path, mk('list', *(as_list(old).a + (mk('recseg', call, leaf),))))
            else:
                self.store(st, cell, path, top('changed by recursive %s' % self.p.bodies[bid]['path']))
        # effects of callbacks passed along
        outs = [(st, None)]
        cbs = [a for a in args if self.deref(st, a).t == 'clo']
        for a in args:
            v = self.deref(st, a)
            if v.t == 'clo' and bid in self.rec and info['callback'] is not None:
                outs = self.run_callback(outs, a, call, info, site)
        if info['events'] and not cbs:
            for s, _ in outs:
                self.event(s, mk('ev', 'rec', (call,), mk('ret', call)), site)
        ret = UNIT if res['k'] == 'tuple' and not res['ts'] else mk('ret', call)
        if contains_top(snap):
            for s, _ in outs:
                s.taint = s.taint | {'recursive call with unknown arguments'}
        return [(s, ret if r is None else r) for s, r in outs]

    def run_callback(self, outs, clo, call, info, site):
        """the callee calls back for each element of a sequence it chooses, perhaps depending on the results"""
        res = []
        for st, _ in outs:
            L = mk('cbcalls', call)
            if not self.probe:
                # what a single call gives
                e = as_list(L).a[0].a[1]
                self.quiet += 1
                try:
                    one_call = [([(p, v) for p, v in s.facts.items() if st.facts.get(p) != v], r, s.taint)
                                for s, r in self.call_value(clo, [e], st.fork(), None, site)]
                finally:
                    self.quiet -= 1
                self.cbfun[call] = (e, one_call)
            itc = self.cell()
            st = st.fork()
            st.mem[itc] = mk('it', as_list(L).a)
            st.mem[EV] = mk('list', *(st.mem[EV].a + (one(mk('ev', 'rec', (call,), mk('ret', call))),)))

            def step(s, itc=itc):
                o = []
                for s2, x in self.iter_next(s, itc, site):
                    if x is REENTER:
                        o.append(('reenter', None, s2))
                    elif x is SKIP:
                        o.append(('back', None, s2))
                    elif x is NONE:
                        o.append(('exit', None, s2))
                    else:
                        e = fld(x, 1, 0)
                        for s3, r in self.call_value(clo, [e], s2, None, site):
                            o.append(('back', None, s3))
                return o
            for kind, payload, s2 in self.summarize(st, step, ('callback', site)):
                s2.mem.pop(itc, None)
                res.append((s2, None))
        return res

    def res_split(self, st, r):
        r = self.deref(st, r)
        if r.t == 'adt':
            return [(r.a[1] == 0, st)]
        out = []
        key = mk('variant', r)
        have = st.facts.get(key, frozenset([0, 1])) if not contains_top(r) else frozenset([0, 1])
        for i in (0, 1):
            if i in have:
                s = st.fork()
                s.facts[key] = frozenset([i])
                if contains_top(r):
                    s.taint = s.taint | {'result of unknown'}
                out.append((i == 0, s))
        return out

    def leaves(self, st, bid, args):
        """memory reachable through &mut parameters: {leaf path: (cell, path)}"""
        out = {}
        body = self.p.bodies[bid]

        def go(v, ty, key, cell, path, mutable):
            t = self.p.types[ty]
            if t['k'] == 'ref':
                if v.t == 'ref':
                    inner = self.load(st, v.a[0], v.a[1])
                    go(inner, t['t'], key + ('*',), v.a[0], v.a[1], t['mut'])
                return
            if t['k'] == 'adt' and t.get('variants') and len(t['variants']) == 1 and v.t == 'adt' and not t['enum']:
                for i, f in enumerate(t['variants'][0]['fields']):
                    if i < len(v.a[2]):
                        go(v.a[2][i], f['ty'], key + (i,), cell, path + (('f', 0, i),), mutable)
                return
            if t['k'] == 'dyn' or t['k'] == 'closure':
                return
            if cell is not None and mutable:
                # reference to a reference: follow it
                if v.t == 'ref':
                    inner = self.load(st, v.a[0], v.a[1])
                out[key] = (cell, path)
        for i in range(body['nargs']):
            if i < len(args):
                go(args[i], body['locals'][i + 1], (i,), None, (), False)
        return out

    def sym(self, st, ty, name):
        """arbitrary value of a type; memory is created for &mut"""
        t = self.p.types[ty]
        k = t['k']
        if k == 'ref':
            inner = self.p.types[t['t']]
            if inner['k'] == 'dyn' and inner.get('trait', '').startswith('std::ops::Fn'):
                return mk('symfn', name)
            if t['mut']:
                c = self.cell()
                st.mem[c] = self.sym(st, t['t'], name)
                return mk('ref', c, ())
            return self.sym(st, t['t'], name)
        if k == 'adt':
            p = t['path']
            if p == 'std::string::String':
                return Str(mk('sym', name))
            if not t['enum'] and t.get('variants') and self.has_mut(ty):
                return Adt(p, 0, *[self.sym(st, f['ty'], name + '.' + f['name'])
                                   for f in t['variants'][0]['fields']])
            if kind_of(t) in ('map', 'set'):
                return as_map(mk('sym', name))
            if kind_of(t) == 'vec':
                return as_list(mk('sym', name))
            return mk('sym', name)
        if k == 'str':
            return mk('sym', name)
        if k == 'tuple' and not t['ts']:
            return UNIT
        if k == 'dyn':
            return mk('symfn', name)
        return mk('sym', name)

    def has_mut(self, ty, d=0):
        t = self.p.types[ty]
        if t['k'] == 'ref':
            return bool(t['mut'])
        if t['k'] == 'adt' and t.get('variants') and d < 4:
            return any(self.has_mut(f['ty'], d + 1) for v in t['variants'] for f in v['fields'])
        return False

    def summary(self, bid, consts=()):
        """outcomes of a function for arbitrary arguments (some fixed)"""
        body = self.p.bodies[bid]
        st = St()
        consts = dict(consts)
        args = []
        names = {n[1][0]: n[0] for n in body['names'] if not n[1][1]}
        for i in range(body['nargs']):
            if i in consts:
                args.append(consts[i])
            else:
                args.append(self.sym(st, body['locals'][i + 1], '%s.%s' % (body['path'].split('::')[-1], names.get(i + 1, i))))
        entry = {leaf: self.load(st, c, p) for leaf, (c, p) in self.leaves(st, bid, args).items()}
        locs = self.leaves(st, bid, args)
        saved = self.stack, self.root, self.probe
        self.stack, self.root, self.probe = [], bid, 0
        for k in [k for k, v in self.ctx.items() if v[0] == bid]:
            del self.ctx[k]
        try:
            outs = self.call_body(bid, args, st)
        finally:
            self.stack, self.root, self.probe = saved
        return {'bid': bid, 'args': args, 'entry': entry, 'locs': locs, 'st0': st,
                'outs': [(s, r, {leaf: self.load(s, c, p) for leaf, (c, p) in locs.items()}) for s, r in outs]}

    def rec_info(self, bid):
        info = self.rec.get(bid)
        if info is not None:
            return info
        body = self.p.bodies[bid]
        info = {'effects': {}, 'ensures': set(), 'mono': {}, 'callback': None, 'events': False, 'summary': None,
                'rounds': 0}
        self.rec[bid] = info
        self.quiet += 1
        try:
            first = True
            for rnd in range(12):
                info['rounds'] = rnd + 1
                sm = self.summary(bid)
                new = {}
                mono = {}
                ens = None
                cb = None
                evs = False
                for s, r, exit_ in sm['outs']:
                    if s.mem[EV].a:
                        evs = True
                        for t in subterms(s.mem[EV]):
                            if t.t == 'cbres':
                                cb = True
                    for leaf, v in exit_.items():
                        e = sm['entry'][leaf]
                        if v is e:
                            continue
                        if e.t == 'str':
                            k = 'append' if v.t == 'str' and str_suffix(e, v) is not None else 'top'
                        elif v.t == 'map' and map_ops(v)[:len(map_ops(e))] == map_ops(e):
                            k = 'map'
                        elif v.t == 'list' and v.a[:len(as_list(e).a)] == as_list(e).a:
                            k = 'listappend'
                        else:
                            k = 'top'
                        if new.get(leaf) not in (None, k):
                            k = 'top'
                        new[leaf] = k
                for leaf, k in new.items():
                    if k == 'map':
                        fl = {'grow', 'shrink'}
                        for s, r, exit_ in sm['outs']:
                            ops = map_ops(exit_[leaf])[len(map_ops(sm['entry'][leaf])):]
                            self.mono(ops, fl, bid, leaf)
                        mono[leaf] = frozenset(fl)
                cand = set()
                for i in range(body['nargs']):
                    for leaf, k in new.items():
                        if k == 'map' and leaf[0] != i:
                            cand.add((i, leaf))
                if first:
                    ens = cand
                else:
                    ens = set()
                    for (i, leaf) in cand & (info['ensures'] | cand):
                        good = True
                        for s, r, exit_ in sm['outs']:
                            for ok, s2 in (self.res_split(s, r) if self.is_res(bid) else [(True, s)]):
                                if ok and self.in_map(s2, map_ops(exit_[leaf]), self.deep(s2, sm['args'][i])) is not True:
                                    good = False
                        if good:
                            ens.add((i, leaf))
                    ens &= info['ensures'] | (cand if new != info['effects'] else set())
                changed = new != info['effects'] or ens != info['ensures'] or mono != info['mono'] or \
                    cb != info['callback'] or evs != info['events']
                info.update(effects=new, ensures=ens, mono=mono, callback=cb, events=evs, summary=sm)
                if not changed:
                    break
                first = False
            else:
                info['effects'] = {l: 'top' for l in info['effects']}
                info['ensures'] = set()
        finally:
            self.quiet -= 1
        return info

    def is_res(self, bid):
        res = self.p.types[self.p.bodies[bid]['locals'][0]]
        return res['k'] == 'adt' and res['path'] == RES

    def mono(self, ops, fl, bid, leaf):
        for o in ops:
            if o.t == 'ins':
                fl.discard('shrink')
            elif o.t in ('rem', 'retain'):
                fl.discard('grow')
            elif o.t == 'for':
                self.mono(o.a[2], fl, bid, leaf)
            elif o.t == 'if':
                self.mono(o.a[1], fl, bid, leaf)
            elif o.t == 'rec':
                if o.a[0].a[0] == bid:
                    continue
                i2 = self.rec.get(o.a[0].a[0])
                m = i2['mono'].get(o.a[1], ()) if i2 else ()
                for x in list(fl):
                    if x not in m:
                        fl.discard(x)
            else:
                fl.clear()

    # ---- loops
    def summarize(self, st0, step, label):
        results = []
        work = [(st0, 0)]
        rounds = 0
        while work:
            S, n = work.pop()
            rounds += 1
            if rounds > 150:
                # unrolling does not come to an end
                self.loop_fail.append((label, 'too many rounds'))
                return self.give_up(st0, step)
            self.quiet += 1
            self.probe += 1
            try:
                outs = step(S.fork())
            finally:
                self.quiet -= 1
                self.probe -= 1
            backs = [o for o in outs if o[0] == 'back']
            reent = [o for o in outs if o[0] == 'reenter']
            if not backs and not reent:
                results += self.redo(step, S)
                continue
            drv = self.find_drivers(S, backs) if backs else None
            if drv is None:
                if n > 40:
                    self.loop_fail.append((label, 'no driving list found'))
                    results += self.give_up(S, step)
                    continue
                outs = self.redo(step, S)
                for o in outs:
                    if o[0] in ('back', 'reenter'):
                        work.append((o[2], n + 1))
                    else:
                        results.append(o)
                continue
            r, again = self.generic(S, step, drv, label)
            results += r
            work += [(s, n + 1) for s in again]
            if n > 40:
                break
        return results

    def redo(self, step, S):
        """run for real (panics are recorded)"""
        return step(S.fork())

    def give_up(self, S, step):
        """unknown loop: everything it changes is unknown"""
        G = S.fork()
        for _ in range(3):
            self.quiet += 1
            self.probe += 1
            try:
                outs = step(G.fork())
            finally:
                self.quiet -= 1
                self.probe -= 1
            ch = False
            for o in outs:
                if o[0] == 'back':
                    for c, v in list(G.mem.items()):
                        if o[2].mem.get(c, v) is not v and v.t != 'top':
                            G.mem[c] = top('loop')
                            ch = True
            if not ch:
                break
        G.taint = G.taint | {'loop'}
        res = []
        for o in step(G.fork()):
            if o[0] not in ('back', 'reenter'):
                res.append(o)
        return res

    def find_drivers(self, S, backs):
        cells = {}
        Ls = []
        for c, v in S.mem.items():
            if v.t in ('it', 'imap', 'ifilter', 'ifmap', 'ienum', 'izipn', 'ichain', 'adt', 'tup', 'ipeek'):
                its = [x for x in subterms(v) if x.t == 'it' and x.a and x.a[0] and x.a[0][0].t == 'for']
                for it in its:
                    L = it.a[0][0].a[0]
                    # an empty list is passed over: the round took its element from what follows
                    empty = pos(llen(L))
                    if all(c in b[2].mem and (b[2].facts.get(empty) is False or any(
                            y.t == 'itn' and y.a[0] is L for y in subterms(b[2].mem[c]))) for b in backs) and any(
                            b[2].facts.get(empty) is not False for b in backs):
                        cells.setdefault(c, []).append(it)
                        if L not in Ls:
                            Ls.append(L)
        if len(Ls) == 1:
            return ('it', Ls[0], cells)
        if Ls:
            return None
        # counters: i = i0 .. while i < len(L)
        for c, v in S.mem.items():
            ci = const_int(v) if v.t == 'lin' else None
            if ci != 0:
                continue
            if not all(b[2].mem.get(c) is Int(1) for b in backs):
                continue
            for p, val in backs[0][2].facts.items():
                if p in S.facts or p.t != 'pos' or val is not True:
                    continue
                l = p.a[0]
                if l.a[0] == 0 and len(l.a[1]) == 1 and l.a[1][0][1] == 1 and l.a[1][0][0].t == 'len':
                    if all(b[2].facts.get(p) is True for b in backs):
                        return ('ctr', l.a[1][0][0].a[0], {c: None})
        return None

    def generic(self, S, step, drv, label):
        kind, L, cells = drv
        j = 0
        while elem(L, j) in S.scope:
            j += 1
        E, P = elem(L, j), pre(L, j)
        G = S.fork()
        G.scope = G.scope | {E}
        more = pos(sub(llen(L), idx(E)))
        for c, its in cells.items():
            if kind == 'it':
                m = {}
                for it in its:
                    seg = it.a[0][0]
                    body = subst(seg.a[2], {seg.a[1]: E, pre(seg.a[1].a[0], seg.a[1].a[1]): P})
                    m[it] = mk('itg', L, j, body, it.a[0][1:])
                G.mem[c] = subst(S.mem[c], m)
            else:
                G.mem[c] = idx(E)
        head = {c: S.mem[c] for c in S.mem}
        bad = set()
        stable = False
        outs = None
        carried = {}        # cells whose value in a round depends on the one before in no simpler way
        for rnd in range(12):
            self.quiet += 1
            self.probe += 1
            try:
                outs = step(G.fork())
            finally:
                self.quiet -= 1
                self.probe -= 1
            backs = [o[2] for o in outs if o[0] == 'back']
            full, guards = self.guards(G, backs, more)
            new = {}
            for c, vg in G.mem.items():
                if c in cells:
                    for b in backs:
                        v = b.mem.get(c)
                        if kind == 'ctr':
                            if v is not add(idx(E), Int(1)):
                                bad.add('driver')
                        elif v is None or not any(x.t == 'itn' and x.a[0] is L and x.a[1] == j for x in subterms(v)):
                            bad.add('driver')
                    new[c] = vg
                    if kind == 'it' and 'driver' not in bad:
                        n0, ng, nb = counters(S.mem[c]), counters(vg), [counters(b.mem[c]) for b in backs]
                        if any(frame_of(b.mem[c], L, j) is not frame_of(vg, L, j) or len(n) != len(ng) for b, n in zip(backs, nb)) or len(n0) != len(ng):
                            bad.add('driver')
                        elif ng:
                            new[c] = with_counters(vg, [self.generalise(n0[i], ng[i], [(g, n[i]) for g, n in zip(guards, nb)], E, P, L)
                                                        for i in range(len(ng))])
                    continue
                v0 = S.mem[c]
                if any(c not in b.mem for b in backs):
                    continue
                if c in bad:
                    new[c] = vg
                    continue
                ks = [(g, b.mem[c]) for g, b in zip(guards, backs)]
                if c in carried:
                    new[c] = vg
                    if any(contains_top(v) for _, v in ks):
                        bad.add(c)
                        new[c] = top('loop variable')
                    continue
                new[c] = self.generalise(v0, vg, ks, E, P, L)
                if new[c] is vg:
                    continue
                if (new[c].t == 'top' or contains_top(new[c]) or rnd >= 4) and not contains_top(v0) and carryable(v0) and not any(contains_top(v) for _, v in ks) and rnd < 9:
                    carried[c] = len(carried)
                    new[c] = as_kind(v0, mk('carry', E.i, carried[c], P))
                elif rnd >= 9:
                    bad.add(c)
                    new[c] = top('loop variable')
            if 'driver' in bad:
                self.loop_fail.append((label, 'irregular iteration'))
                return self.give_up(S, step), []
            if new == G.mem:
                stable = True
                break
            G.mem = new
        if not stable:
            self.loop_fail.append((label, 'no fixpoint'))
            return self.give_up(S, step), []
        self.loops_seen[label] = self.loops_seen.get(label, 0) + 1
        outs = self.redo(step, G)
        if carried:
            outs = self.close_carried(outs, {c: k for c, k in carried.items() if c not in bad}, S, G, E, P, more)
        backs = [o[2] for o in outs if o[0] == 'back']
        full, guards = self.guards(G, backs, more)
        taint = frozenset()
        for b in backs:
            taint |= b.taint
        # rounds with different effects have to be told apart by what is known about them
        for i in range(len(backs)):
            for k in range(i):
                if any(backs[i].mem.get(c) is not backs[k].mem.get(c) for c in S.mem if c not in cells) and not any(
                        opposed(p, v, q, w) for p, v in full[i] for q, w in full[k]):
                    taint |= {'rounds not told apart'}
        outs = self.merge_exits(outs, S, cells, L, E, more, full)
        res, again = [], []
        for k, payload, s in outs:
            if k == 'back':
                continue
            if s.facts.get(more) is False:
                s = self.finish_loop(s, S, L, E, P, more, full)
                s.taint = s.taint | taint
                if isinstance(payload, T):
                    payload = subst(payload, {P: L, idx(E): llen(L)})
                if k == 'reenter':
                    again.append(s)
                else:
                    res.append((k, payload, s))
            elif s.scope is S.scope:
                # left early, at which element does not matter
                s.taint = s.taint | taint
                if k == 'reenter':
                    again.append(s)
                else:
                    res.append((k, payload, s))
            else:
                # left early at element E: all earlier elements went through
                s.facts.pop(more, None)
                if backs and any(full):
                    s.facts[self.forall(P, E, full)] = True
                if k == 'reenter':
                    again.append(s)
                else:
                    res.append((k, payload, s))
        return res, again

    def merge_exits(self, outs, S, cells, L, E, more, full):
        """loops left early with the same effect whichever element it was: some element did not go through"""
        early = [o for o in outs if o[0] != 'back' and o[2].facts.get(more) is not False]
        fs = frozenset(full)
        if not early or not fs or frozenset() in fs:
            return outs
        k0, p0, s0 = early[0]
        if k0 == 'reenter':
            return outs
        for k, p, s in early:
            if k != k0 or p is not p0 or isinstance(p, T) and E in frees(p):
                return outs
            if any(E in frees(v) for c, v in s.mem.items() if c not in cells) or any(
                    s.mem.get(c) is not s0.mem.get(c) for c in S.mem if c not in cells):
                return outs
        s = s0.fork()
        s.scope = S.scope
        s.facts = dict(S.facts)
        s.facts[self.forall(L, E, fs)] = False
        for c, v in list(s.mem.items()):
            if E in frees(v):
                s.mem[c] = top('used iterator')
        for _, _, o in early:
            s.taint = s.taint | o.taint
        return [o for o in outs if o not in early] + [(k0, p0, s)]

    def close_carried(self, outs, carried, S, G, E, P, more):
        """replaces the values carried from round to round by what they are: the start value and the rounds so far"""
        backs = [o[2] for o in outs if o[0] == 'back']
        full, _ = self.guards(G, backs, more)
        order = sorted(carried, key=lambda c: carried[c])
        ok = all(c in b.mem for b in backs for c in order) and not any(contains_top(b.mem[c]) for b in backs for c in order) and not any(
            contains_top(p) for f in full for p, _ in f) and [carried[c] for c in order] == list(range(len(order)))
        inits = tuple(S.mem[c] for c in order)
        alts = None
        if ok:
            own = {mk('carry', E.i, k, P): mk('cv', E, k) for k in carried.values()}
            alts = subst(tuple(mk('alt', f, tuple(b.mem[c] for c in order)) for f, b in zip(full, backs)), own)
            if any(x.t == 'carry' and x.a[0] == E.i for x in subterms(alts)):
                ok = False
        memo = {}

        def rw(x, bound=frozenset()):
            if isinstance(x, tuple):
                return tuple(rw(y, bound) for y in x)
            if isinstance(x, frozenset):
                return frozenset(rw(y, bound) for y in x)
            if not isinstance(x, T) or x in bound:
                return x
            if bound and x.t == 'pre' and elem(x.a[0], x.a[1]) in bound:
                return x
            key = (x, bound & frees(x)) if bound else x
            r = memo.get(key)
            if r is not None:
                return r
            if x.t == 'carry' and x.a[0] == E.i:
                r = mk('carried', x.a[1], inits, mkfor2(rw(x.a[2], bound), E, alts, 'for')) if ok else top('loop variable')
            elif x.t in ('for', 'forall'):
                L2, body = rw(x.a[0], bound), rw(x.a[2], bound | {x.a[1]})
                r = x if L2 is x.a[0] and body == x.a[2] else mkfor2(L2, x.a[1], body, x.t)
            else:
                a2 = tuple(rw(y, bound) for y in x.a)
                r = x if all(p is q or p == q for p, q in zip(a2, x.a)) else rebuild(x.t, a2)
            memo[key] = r
            return r
        res = []
        for k, p, s in outs:
            s = s.fork()
            for c, v in s.mem.items():
                s.mem[c] = rw(v)
            facts = {}
            for q, v in s.facts.items():
                q2 = rw(q)
                if q2.t == 'not':
                    q2, v = q2.a[0], (not v)
                if q2 is TRUE or q2 is FALSE:
                    continue
                if contains_top(q2) and not contains_top(q):
                    s.taint = s.taint | {'loop variable'}
                facts[q2] = v
            s.facts = facts
            res.append((k, rw(p) if isinstance(p, T) else p, s))
        return res

    def forall(self, L, E, full):
        return mkfor2(L, E, frozenset(full), 'forall')

    def finish_loop(self, s, S, L, E, P, more, full):
        m = {P: L, idx(E): llen(L)}
        s = s.fork()
        memo = {}
        for c, v in s.mem.items():
            s.mem[c] = subst(v, m, memo)
        facts = {}
        for p, v in s.facts.items():
            if p is more:
                continue
            if p in S.facts:
                facts[p] = v
                continue
            q = subst(p, m, memo)
            if q.t == 'not':
                q, v = q.a[0], (not v)
            if q is TRUE or q is FALSE:
                continue
            facts[q] = v
        s.facts = facts
        s.scope = s.scope - {E}
        fs = frozenset(full)
        if fs and frozenset() not in fs:
            s.facts[self.forall(L, E, fs)] = True
        return s

    def guards(self, G, backs, more):
        full = []
        for b in backs:
            full.append(frozenset((p, v) for p, v in b.facts.items() if p is not more and G.facts.get(p) != v))
        guards = []
        for i, f in enumerate(full):
            g = set()
            for (p, v) in f:
                for k, f2 in enumerate(full):
                    if k != i and any(opposed(p, v, q, w) for q, w in f2):
                        g.add((p, v))
                        break
            guards.append(frozenset(g))
        return full, guards

    def generalise(self, v0, vg, ks, E, P, L):
        if all(v is vg for _, v in ks):
            return v0 if v0 is vg else self.settle(v0, vg)
        vs = [v for _, v in ks]
        if v0.t == 'top' or vg.t == 'top':
            return top('loop variable')
        # strings
        if v0.t == 'str' and vg.t == 'str':
            suf = [str_suffix(vg, as_str(v)) if v.t != 'top' else None for v in vs]
            if all(x is not None for x in suf):
                body = self.body(ks, suf)
                return Str(v0, mkfor2(P, E, body, 'for')) if body else v0
            return top('string')
        if v0.t == 'list' and vg.t == 'list':
            n = len(vg.a)
            if all(v.t == 'list' and v.a[:n] == vg.a for v in vs):
                body = self.body(ks, [v.a[n:] for v in vs])
                return mk('list', *(v0.a + (mkfor2(P, E, body, 'for'),))) if body else v0
            return top('list')
        if v0.t == 'map' and vg.t == 'map':
            n = len(map_ops(vg))
            if all(v.t == 'map' and map_ops(v)[:n] == map_ops(vg) for v in vs):
                body = self.body(ks, [map_ops(v)[n:] for v in vs])
                body = self.self_refs(body, map_ops(vg), E)
                return mk('map', map_ops(v0) + (mkfor2(P, E, body, 'for'),)) if body else v0
            return top('map')
        if is_intlike(v0) and is_intlike(vg) and all(is_intlike(v) for v in vs):
            ds = [const_int(sub(v, vg)) for v in vs]
            if all(d is not None for d in ds):
                if len(set(ds)) == 1:
                    return add(v0, un_lin(lin(0, ((idx(E), ds[0]),))))
                if all(d >= 0 for d in ds):
                    body = self.body(ks, [(one(UNIT),) * d for d in ds])
                    return add(v0, llen(List(mkfor2(P, E, body, 'for'))))
            return self.last(v0, vg, ks, E, P)
        if v0.t == 'bool':
            tgt = Bool(not v0.a[0])
            if all(v is vg or v is tgt for v in vs):
                body = self.body(ks, [() if v is vg else (one(UNIT),) for v in vs])
                # an unconditional assignment
                p = pos(llen(List(mkfor2(P, E, body, 'for')))) if body else FALSE
                return p if tgt is TRUE else mk_not(p)
            return self.last(v0, vg, ks, E, P)
        if v0 is NONE or (v0.t == 'adt' and v0.a[0] == OPT):
            if v0 is NONE and all(v is vg or (v.t == 'adt' and v.a[0] == OPT and v.a[1] == 1) for v in vs):
                body = self.body(ks, [() if v is vg else (one(fld(v, 1, 0)),) for v in vs])
                return mk('pick', List(mkfor2(P, E, body, 'for'))) if body else v0
            if v0 is NONE:
                return top('option')
        if v0.t == vg.t and all(v.t == v0.t for v in vs):
            if v0.t == 'adt' and all(v.a[:2] == v0.a[:2] and len(v.a[2]) == len(v0.a[2]) for v in vs + [vg]):
                return mk('adt', v0.a[0], v0.a[1], tuple(
                    self.generalise(v0.a[2][i], vg.a[2][i], [(g, v.a[2][i]) for g, v in ks], E, P, L)
                    for i in range(len(v0.a[2]))))
            if v0.t == 'tup' and all(len(v.a) == len(v0.a) for v in vs + [vg]):
                return mk('tup', *[
                    self.generalise(v0.a[i], vg.a[i], [(g, v.a[i]) for g, v in ks], E, P, L)
                    for i in range(len(v0.a))])
            if v0.t == 'clo' and all(v.a[0] == v0.a[0] for v in vs + [vg]):
                return mk('clo', v0.a[0], tuple(
                    self.generalise(v0.a[1][i], vg.a[1][i], [(g, v.a[1][i]) for g, v in ks], E, P, L)
                    for i in range(len(v0.a[1]))))
            if v0.t in ('ienum', 'izipn'):
                return mk(v0.t, self.generalise(v0.a[0], vg.a[0], [(g, v.a[0]) for g, v in ks], E, P, L),
                          self.generalise(v0.a[1], vg.a[1], [(g, v.a[1]) for g, v in ks], E, P, L))
        return self.last(v0, vg, ks, E, P)

    def self_refs(self, body, ops, E):
        """the container as it is when the round begins, instead of its full history"""
        if not ops:
            return body
        n = len(ops)
        m = {}
        for x in subterms(body):
            if x.t == 'map' and x.a[0][:n] == ops:
                m[x] = mk('map', (mk('cur', E),) + x.a[0][n:])
        return subst(body, m) if m else body

    def settle(self, v0, vg):
        return v0

    def last(self, v0, vg, ks, E, P):
        body = self.body(ks, [() if v is vg else (one(v),) for _, v in ks])
        if any(contains_top(v) for _, v in ks):
            return top('loop variable')
        if any(x is vg for _, v in ks if v is not vg for x in subterms(v)):
            return top('loop variable')
        return mk('lastof', List(one(v0), mkfor2(P, E, body, 'for')))

    def body(self, ks, deltas):
        """effects of one iteration, guarded by the conditions that select them"""
        if len(set(deltas)) == 1:
            return deltas[0]
        alts = []
        single = {}
        for d0 in set(map(tuple, deltas)):
            # one decision that tells the rounds with this effect from all others
            ins = [g for (g, _), d in zip(ks, deltas) if tuple(d) == d0]
            outs = [g for (g, _), d in zip(ks, deltas) if tuple(d) != d0]
            for p, v in sorted(frozenset.intersection(*ins), key=lambda x: x[0].i):
                if isinstance(v, bool) and all((p, not v) in g for g in outs):
                    single[d0] = frozenset({(p, v)})
                    break
        for (g, _), d in zip(ks, deltas):
            if d:
                alts.append((single.get(tuple(d), g), tuple(d)))
        return tuple(mk('if', g, d) for g, d in self.merge(alts))

    def merge(self, alts):
        """join alternatives with the same effect whose guards differ in one decision"""
        alts = list(dict.fromkeys(alts))
        again = True
        while again:
            again = False
            for i in range(len(alts)):
                for k in range(i + 1, len(alts)):
                    if alts[i][1] != alts[k][1]:
                        continue
                    a, b = alts[i][0], alts[k][0]
                    x, y = a - b, b - a
                    if not x or not y:
                        g = a & b
                    elif len(x) == 1 and len(y) == 1:
                        (p, v), (q, w) = next(iter(x)), next(iter(y))
                        if p is not q:
                            continue
                        g = (a & b) | ({(p, v | w)} if p.t == 'variant' else set())
                    else:
                        continue
                    alts[i] = (frozenset(g), alts[i][1])
                    del alts[k]
                    again = True
                    break
                if again:
                    break
        return alts

    # ---- iterators
    def iter_next(self, st, cell, site, path=()):
        """[(state, Option value | SKIP | REENTER)] ; updates the iterator in memory"""
        it = self.load(st, cell, path)
        out = []
        for s, it2, x in self.nxt(st, it, site):
            if it2 is not it:
                s = s.fork()
                self.store(s, cell, path, it2)
            out.append((s, x))
        return out

    def nxt(self, st, it, site):
        """[(state, iterator afterwards, Some(x) | NONE | SKIP | REENTER)]"""
        t = it.t
        if t == 'it':
            segs = it.a[0]
            if not segs:
                return [(st, it, NONE)]
            s0 = segs[0]
            if s0.t == 'one':
                return [(st, mk('it', segs[1:]), Some(s0.a[0]))]
            if s0.t == 'for':
                L, b, body = s0.a
                out = []
                f = mk('at', L, Int(0))
                for has, s in self.branch(st, pos(llen(L))):
                    if not has:
                        for r in self.nxt(s, mk('it', segs[1:]), site):
                            out.append(r)
                        continue
                    if len(body) == 1 and body[0].t == 'one':
                        x = subst(body[0].a[0], {b: f})
                        out.append((s, mk('itn', L, -1, body, segs[1:]), Some(x)))
                    elif self.probe and all(x.t == 'if' for x in body):
                        # only to see what drives the loop
                        out += self.gen_body(s, subst(body, {b: f}), mk('itn', L, -1, body, segs[1:]))
                    else:
                        x = top('first of a filtered list')
                        out.append((s, mk('itn', L, -1, body, segs[1:]), Some(x)))
                return out
            if s0.t == 'if':
                out = []
                for ok, s in self.assume_guard(st, s0.a[0]):
                    out += self.nxt(s, mk('it', (s0.a[1] if ok else ()) + segs[1:]), site)
                return out
            return [(st, top('iterator'), top('iterator'))]
        if t == 'itg':
            L, j, body, rest = it.a
            E = elem(L, j)
            out = []
            for has, s in self.branch(st, pos(sub(llen(L), idx(E)))):
                if not has:
                    if rest:
                        out.append((s, mk('it', rest), REENTER))
                    else:
                        out.append((s, mk('it', ()), NONE))
                    continue
                adv = mk('itn', L, j, body, rest)
                out += self.gen_body(s, body, adv)
            return out
        if t == 'itn':
            # second element in one round
            return [(self.tainted(st, 'several elements per iteration'), top('iterator'), top('iterator'))]
        if t in ('imap', 'ifilter', 'ifmap'):
            inner, f = it.a
            out = []
            for s, i2, x in self.nxt(st, inner, site):
                if x in (NONE, SKIP, REENTER) or x.t == 'top':
                    out.append((s, mk(t, i2, f), x))
                    continue
                v = fld(x, 1, 0)
                if t == 'imap':
                    for s2, r in self.call_value(f, [v], s, None, site):
                        out.append((s2, mk(t, i2, f), Some(r)))
                elif t == 'ifilter':
                    for s2, r in self.call_value(f, [Vref(v)], s, None, site):
                        for b, s3 in self.branch(s2, r, site):
                            out.append((s3, mk(t, i2, f), x if b else SKIP))
                else:
                    for s2, r in self.call_value(f, [v], s, None, site):
                        for b, s3 in self.opt_split(s2, r, site):
                            out.append((s3, mk(t, i2, f), Some(self.payload(s3, r)) if b else SKIP))
            return self.skip_forward(out, site)
        if t in ('ienum', 'izipn'):
            inner, n = it.a
            out = []
            for s, i2, x in self.nxt(st, inner, site):
                if x in (NONE, SKIP, REENTER) or x.t == 'top':
                    out.append((s, mk(t, i2, n), x))
                else:
                    y = fld(x, 1, 0)
                    out.append((s, mk(t, i2, add(n, Int(1))), Some(Tup(n, y) if t == 'ienum' else Tup(y, n))))
            return out
        if t == 'ichain':
            a, b = it.a
            out = []
            for s, i2, x in self.nxt(st, a, site):
                if x is NONE:
                    if has_gen(a):
                        out.append((s, b, REENTER))
                    else:
                        out += self.nxt(s, b, site)
                else:
                    out.append((s, mk(t, i2, b), x))
            return out
        if t == 'iwrap':      # by-reference iterator stored elsewhere
            cellref = it.a[0]
            out = []
            for s, x in self.iter_next(st, cellref.a[0], site, cellref.a[1]):
                out.append((s, it, x))
            return out
        return [(self.tainted(st, 'iterator %s' % t), it, top('iterator'))]

    def skip_forward(self, outs, site):
        """elements of a concrete list that are filtered out: go on to the next one"""
        res = []
        work = list(outs)
        n = 0
        while work:
            s, it, x = work.pop()
            if x is SKIP and not any(y.t == 'itn' for y in subterms(it)):
                n += 1
                if n > 200:
                    raise Budget('filter')
                work += self.nxt(s, it, site)
            else:
                res.append((s, it, x))
        return res

    def gen_body(self, st, body, adv):
        """element of one generic round"""
        if len(body) == 1 and body[0].t == 'one':
            return [(st, adv, Some(body[0].a[0]))]
        if all(x.t == 'if' for x in body):
            out = []
            cur = [st]
            for x in body:
                nxt = []
                for s in cur:
                    for ok, s2 in self.assume_guard(s, x.a[0]):
                        if ok:
                            if len(x.a[1]) == 1 and x.a[1][0].t == 'one':
                                out.append((s2, adv, Some(x.a[1][0].a[0])))
                            elif not x.a[1]:
                                out.append((s2, adv, SKIP))
                            else:
                                out.append((self.tainted(s2, 'nested list'), adv, top('nested list')))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                out.append((s, adv, SKIP))
            return out
        return [(self.tainted(st, 'nested list'), adv, Some(top('nested list')))]

    def assume_guard(self, st, guard):
        """split on a conjunction of facts: [(holds, state)]"""
        out = []
        cur = [st]
        for p, v in sorted(guard, key=lambda x: x[0].i):
            nxt = []
            for s in cur:
                if p.t == 'variant':
                    have = s.facts.get(p) if not contains_top(p) else None
                    if have is not None and have <= v:
                        nxt.append(s)
                        continue
                    if have is not None and not (have & v):
                        out.append((False, s))
                        continue
                    a = s.fork()
                    a.facts[p] = v if have is None else have & v
                    nxt.append(a)
                    b = s.fork()
                    if have is not None:
                        b.facts[p] = have - v
                    else:
                        b.facts[mk('notin', p, v)] = True
                    out.append((False, b))
                else:
                    for t, s2 in self.branch(s, p):
                        if t == v:
                            nxt.append(s2)
                        else:
                            out.append((False, s2))
            cur = nxt
        return out + [(True, s) for s in cur]

    def opt_split(self, st, r, site=None):
        """[(is some, state)] of an Option value"""
        r = self.deref(st, r)
        if r.t == 'adt':
            return [(r.a[1] == 1, st)]
        if r.t == 'pick':
            return self.branch(st, pos(llen(r.a[0])), site)
        if r.t == 'optif':
            return self.branch(st, r.a[0], site)
        key = mk('variant', r)
        have = st.facts.get(key, frozenset([0, 1])) if not contains_top(r) else frozenset([0, 1])
        out = []
        for i in (1, 0):
            if i in have:
                s = st.fork()
                s.facts[key] = frozenset([i])
                if site:
                    s.trail = ((site, key, frozenset([i])), s.trail)
                if contains_top(r):
                    s.taint = s.taint | {'option of unknown'}
                out.append((i == 1, s))
        return out

    def payload(self, st, r, variant=1):
        return fld(self.deref(st, r), variant, 0)

    def tainted(self, st, why):
        s = st.fork()
        s.taint = s.taint | {why}
        return s


BOOLT = {'bool', 'not', 'pos', 'eqz', 'eq', 'in', 'isvar', 'and', 'or'}


def has_gen(it):
    return any(x.t in ('itg', 'itn') for x in subterms(it))


def carryable(v0):
    return is_intlike(v0) or v0.t in ('bool', 'str', 'list') or v0.t == 'adt' and v0.a[0] == OPT or v0.t == 'tup' and all(carryable(x) for x in v0.a)


def as_kind(v0, x):
    if v0.t == 'str':
        return Str(x)
    if v0.t == 'list':
        return List(mk('for', x, elem(x, 0), (one(elem(x, 0)),)))
    if v0.t == 'tup':
        return Tup(*[as_kind(y, fld(x, 0, i)) for i, y in enumerate(v0.a)])
    return x


def is_intlike(v):
    return v.t == 'lin' or v.t in INTS


def str_suffix(a, b):
    """parts p with b == a ++ p, or None"""
    pa, pb = a.a[0], b.a[0]
    n = len(pa)
    if pb[:n] == pa:
        return pb[n:]
    if n and pb[:n - 1] == pa[:n - 1] and len(pb) >= n and isinstance(pa[-1], str) and isinstance(pb[n - 1], str) \
            and pb[n - 1].startswith(pa[-1]):
        return (pb[n - 1][len(pa[-1]):],) + pb[n:]
    return None


def kind_of(t):
    """coarse container kind of a type table entry"""
    if t['k'] in ('slice', 'array'):
        return 'vec'
    if t['k'] == 'str':
        return 'str'
    if t['k'] != 'adt':
        return t['k']
    p = t['path']
    return {'std::vec::Vec': 'vec', 'std::collections::VecDeque': 'vec',
            'std::collections::HashMap': 'map', 'std::collections::BTreeMap': 'map',
            'std::collections::HashSet': 'set', 'std::collections::BTreeSet': 'set',
            'std::option::Option': 'option', 'std::result::Result': 'result',
            'std::string::String': 'str', 'std::path::PathBuf': 'path', 'std::path::Path': 'path',
            'std::ops::Range': 'range', 'std::ops::RangeInclusive': 'rangeinc',
            'std::fs::ReadDir': 'readdir', 'std::boxed::Box': 'box', 'std::rc::Rc': 'rc',
            'std::borrow::Cow': 'cow'}.get(p, 'adt')


def opposed(p, v, q, w):
    """do two facts exclude each other or at least tell cases apart"""
    if p is q:
        return v != w
    if q.t == 'notin' and q.a[0] is p:
        return bool(v & q.a[1])
    if p.t == 'notin' and p.a[0] is q:
        return bool(w & p.a[1])
    if p.t == 'variant' and q.t == 'isvar' and q.a[0] is p.a[0]:
        return (q.a[1] in v) != w
    if q.t == 'variant' and p.t == 'isvar' and p.a[0] is q.a[0]:
        return (p.a[1] in w) != v
    return False
