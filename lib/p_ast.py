"""P19: what the parser makes of the text.

The actions of the grammar are analysed as functions: a copy of the sources gets
one function per action, with the labels as parameters, and the compiler's
intermediate representation of those goes through the same engine as every other
function.  From the derived formulas follows, for every way a rule can match,
which parts of the text end up where in the syntax tree.  Those parts are marked
in the grammar, and the language of marked texts is compared with that of the
specification: an exact comparison over all texts.
"""
import itertools
import json
import os
import random
import shutil
import subprocess

import absint
import gentpl
import models
import pegram
import p_pipe
import p_syntax
import report
from inst import Inst, V, Stuck, NoReturn
from pegram import Unsupported, NSYM, SIGMA
from report import REPO, ROOT
from terms import *


class NotAForm(Exception):
    """the value of an action has no form that could be compared"""


class Lost(Exception):
    """an action does not carry over what it was given"""

    def __init__(self, rule, what):
        super().__init__(what)
        self.rule = rule


# ---------------------------------------------------------------- values

class Cap:
    """part of the text"""

    def __init__(self, id, expr, char=False):
        self.id, self.expr, self.char = id, expr, char

    def __repr__(self):
        return '<%s>' % self.id


class Seq:
    """list: pieces are single values or repetitions [(values for one way an item matches)]"""

    count = 0

    def __init__(self, pieces):
        self.pieces = pieces
        Seq.count += 1
        self.id = 's%d' % Seq.count


class Rep:
    """the items of a repetition, in the order of the text; ways[i] = values the i-th way contributes"""

    def __init__(self, id, ways):
        self.id, self.ways = id, ways


UNITV = V(0, [])


def label_type(g, e):
    """Rust type of the value of an expression, None if not known"""
    k = e[0]
    if k in ('lit', 'not'):
        return '()'
    if k == 'cls':
        return 'char'
    if k == 'slice':
        return "&'input str"
    if k == 'pos':
        return 'usize'
    if k == 'rule':
        return g.rules[pegram.norm(g, e[1])].ret
    if k in ('quiet', 'and'):
        return label_type(g, e[1])
    if k == 'opt':
        t = label_type(g, e[1])
        return t and 'Option<%s>' % t
    if k == 'rep':
        t = label_type(g, e[1])
        return t and 'Vec<%s>' % t
    if k == 'alt':
        for x in e[1]:
            t = label_type(g, x)
            if t:
                return t
        return None
    if k == 'seq':
        if e[2] is not None:
            return action_type(g, e)
        if len(e[1]) == 1:
            return label_type(g, e[1][0][1])
        return '()'
    return None


def action_type(g, e):
    """type of an inner action, where it can be read off"""
    toks = [t.s for t in e[2][2]]
    labels = {l: x for l, x in e[1] if l}
    if len(toks) == 1 and toks[0] in labels:
        return label_type(g, labels[toks[0]])
    if toks in (['true'], ['false']):
        return 'bool'
    if not toks:
        return '()'
    if len(toks) >= 5 and toks[0] == '(' and toks[-1] == ')' and all(t in labels for t in toks[1:-1:2]) and set(toks[2:-1:2]) == {','}:
        ts = [label_type(g, labels[t]) for t in toks[1:-1:2]]
        return None if None in ts else '(%s)' % ', '.join(ts)
    if len(toks) == 4 and toks[0] == 'Some' and toks[2] in labels:
        t = label_type(g, labels[toks[2]])
        return t and 'Option<%s>' % t
    if len(toks) == 5 and toks[0] in labels and toks[1:3] in (['.', 'is_some'], ['.', 'is_none'], ['.', 'is_empty']):
        return 'bool'
    return None


def sites(g):
    """every action: (rule, top level?, sequence)"""
    out = []
    for n in pegram.reachable(g, 'schema'):
        top = g.rules[n].expr
        tops = [id(x) for x in (top[1] if top[0] == 'alt' else [top])]
        w = [top]
        while w:
            e = w.pop(0)
            if e[0] == 'seq' and e[2] is not None:
                out.append((n, id(e) in tops, e))
            w.extend(pegram.children(e))
    return out


class Actions:
    """the actions of the grammar of /repo as analysed functions"""

    def __init__(self, rep, g):
        self.g = g
        fns = []
        self.index = {}
        for k, (rule, top, e) in enumerate(sites(g)):
            if e[2][3]:
                raise Unsupported('an action which decides whether the text matches')
            params = []
            for label, x in e[1]:
                if label is None:
                    continue
                t = label_type(g, x)
                if t is None:
                    raise Unsupported('type of label %s in rule %s' % (label, rule))
                params.append((label, t))
            ret = g.rules[rule].ret if top else action_type(g, e) or 'impl Sized'
            code = g.src[e[2][0]:e[2][1]]
            fns.append("pub fn verif_action_%d<'input>(%s) -> %s %s" % (
                k, ', '.join('%s: %s' % p for p in params), ret, code))
            self.index[id(e)] = (k, [p[0] for p in params], rule, g.line(e[2][0]))
        mod = ('\n#[allow(warnings)]\npub mod verif_actions {\nuse super::*;\n%s\n%s\n}\n' % ('\n'.join(g.uses), '\n'.join(fns)))
        self.prog = self.dump(mod)
        self.eng = absint.Engine(self.prog, models.M)
        self.sm = {}
        rep.coverage['actions_analysed'] = len(fns)

    def dump(self, mod):
        d = os.path.join(ROOT, '.build', 'actions-%d' % os.getpid())
        out = d + '.json'
        shutil.rmtree(d, ignore_errors=True)
        try:
            shutil.copytree(REPO, d, ignore=lambda p, ns: [n for n in ns if n in ('.git', 'target', 'node_modules')])
            with open(os.path.join(d, p_syntax.PARSER), 'a', encoding='utf-8', newline='') as f:
                f.write(mod)
            env = dict(os.environ, VERIF_REPO=d)
            r = subprocess.run(['bash', os.path.join(ROOT, 'tools', 'dump.sh'), out], capture_output=True, text=True, env=env)
            if r.returncode != 0 or not os.path.exists(out):
                raise Unsupported('actions which are not functions of their labels: ' + (r.stdout + r.stderr)[-600:])
            return absint.Prog(out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(out):
                os.unlink(out)

    def summary(self, k):
        if k not in self.sm:
            name = 'verif_action_%d' % k
            bid = self.prog.roots.get(name)
            if bid is None:
                raise Unsupported('action %d is generic' % k)
            self.eng.heads, _ = self.prog.rec_heads(bid, set())
            s = self.eng.summary(bid)
            self.sm[k] = (s, Inst(self.eng), [(a, b, {}) for a, b, _ in s['outs']], s['args'])
        return self.sm[k]

    def constants(self, k):
        nums, strs = set(), set()
        s, _, outs, _ = self.summary(k)
        for st, r, _ in outs:
            for f in list(st.facts) + [r]:
                for x in absint.subterms(f):
                    if x.t == 'lin' and isinstance(x.a[0], int) and 0 < abs(x.a[0]) < 600:
                        nums.add(abs(x.a[0]))
                    elif x.t == 'str':
                        strs |= {q for q in x.a[0] if isinstance(q, str) and 0 < len(q) < 60}
        return nums, strs

    def call(self, e, args):
        """value of the action of sequence e for concrete labels"""
        k, labels, rule, line = self.index[id(e)]
        s, inst, outs, params = self.summary(k)
        inst.memo = {}
        env = {'#frame': 0}
        for l in labels:
            env[mk('sym', 'verif_action_%d.%s' % (k, l))] = args[l]
        (st, r, _), e2 = inst.choose1(outs, env, 'the action of rule %s' % rule)
        if st.taint:
            raise Stuck(sorted(str(x) for x in st.taint)[0])
        return inst.ev(r, e2)


class RefActions:
    """the actions of the specification's grammar"""

    def __init__(self, g):
        def some(x):
            return V(1, [x])

        def flat(xs):
            return [x.f[0] for x in xs if x.variant == 1]
        none = V(0, [])
        self.fns = {
            ('string', 0): lambda s: s, ('ident_start', 0): lambda s: s, ('ident_chars', 0): lambda s: s,
            ('ident', 0): lambda i: i, ('enum_variant', 0): lambda s: s,
            ('enum_type', 0): lambda variants: V(0, [variants]),
            ('is_optional', 0): lambda o: o.variant == 1,
            ('struct_field', 0): lambda: none,
            ('struct_field', 1): lambda i, opt, t, a: some(V(0, [i, V(0, [t, a.variant == 1, opt])])),
            ('struct_type', 0): lambda fields: V(0, [flat(fields)]),
            ('r#type', 0): lambda e: V(0, [e]), ('r#type', 1): lambda s: V(1, [s]),
            ('decl', 0): lambda i, t: V(0, [i, t]),
            ('export', 0): lambda s: V(1, [s]),
            ('line', 0): lambda: none, ('line', 1): lambda e: some(e), ('line', 2): lambda s: some(s),
            ('schema', 0): lambda lines: flat(lines),
        }
        self.index = {}
        count = {}
        for rule, top, e in sites(g):
            i = count.get(rule, 0)
            count[rule] = i + 1
            self.index[id(e)] = ((rule, i), [l for l, _ in e[1] if l], rule, g.line(e[2][0]))

    def constants(self, k):
        return set(), set()

    def call(self, e, args):
        k, labels, rule, line = self.index[id(e)]
        return self.fns[k](**args)


# ---------------------------------------------------------------- ways a rule can match

class Ways:
    def __init__(self, g, actions):
        self.g, self.actions = g, actions
        self.n = 0
        self.words = {}
        self.problems = []
        self.evaluations = 0

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def unit(self, e):
        return label_type(self.g, e) == '()'

    def expand(self, e):
        """[(expression with the captured parts wrapped in ('cap', id, ..), value)], disjoint and complete"""
        k = e[0]
        if k in ('lit', 'not', 'eps', 'fail', 'and') and not (k == 'and' and not self.unit(e[1])):
            return [(e, UNITV)]
        if k == 'cls':
            c = Cap(self.fresh('c'), e, True)
            return [(('cap', c.id, e), c)]
        if k == 'slice':
            c = Cap(self.fresh('c'), e[1])
            return [(('cap', c.id, e[1]), c)]
        if k == 'quiet':
            return self.expand(e[1])
        if k == 'rule':
            r = self.g.rules[pegram.norm(self.g, e[1])]
            if r.params:
                raise Unsupported('rule with parameters')
            if r.ret == '()':
                return [(e, UNITV)]
            return self.expand(r.expr)
        if k == 'alt':
            out = []
            for i, x in enumerate(e[1]):
                guard = [(None, ('not', y)) for y in e[1][:i]]
                for m, v in self.expand(x):
                    out.append((('seq', guard + [(None, m)], None), v))
            return out
        if k == 'opt':
            out = [(m, V(1, [v])) for m, v in self.expand(e[1])]
            out.append((('not', e[1]), V(0, [])))
            return out
        if k == 'rep':
            _, x, lo, hi, sep = e
            if hi is not None:
                raise Unsupported('bounded repetition with a value')
            if self.unit(x):
                return [(e, Seq([Rep(self.fresh('r'), [[UNITV]])]))]
            ways = self.expand(x)
            body = ('union', [m for m, _ in ways])
            rep = Rep(self.fresh('r'), [[v] for _, v in ways])
            if sep is None:
                ex = ('seq', [(None, body)] * lo + [(None, ('mrep', body, x))], None)
                return [(ex, Seq([rep]))]
            more = ('seq', [(None, sep), (None, body)], None)
            plain = ('seq', [(None, sep), (None, x)], None)
            ex = ('seq', [(None, body), (None, ('mrep', more, plain))], None)
            out = [(ex, Seq([rep]))]
            if lo == 0:
                out.append((('not', x), Seq([])))
            return out
        if k == 'seq':
            return self.sequence(e)
        raise Unsupported('value of ' + k)

    def sequence(self, e):
        items, action = e[1], e[2]
        if action is None:
            if len(items) == 1:
                return self.expand(items[0][1])
            return [(e, UNITV)]
        parts = []
        for label, x in items:
            if label is None:
                parts.append([(x, None)])
            elif self.unit(x):
                parts.append([(x, UNITV)])
            else:
                parts.append(self.expand(x))
        out = []
        combos = list(itertools.product(*parts))
        for combo in combos:
            if len(combos) > 1:
                combo = [self.copy(m, v) for m, v in combo]
            args = {label: c[1] for (label, _), c in zip(items, combo) if label is not None}
            ex = ('seq', [(None, c[0]) for c in combo], None)
            out.append((ex, self.apply(e, args)))
        return out

    def copy(self, m, v):
        """the same way with captured parts of its own"""
        ids = {}

        def cap(i):
            if i not in ids:
                ids[i] = self.fresh(i[0])
            return ids[i]

        def ex(e):
            k = e[0]
            if k == 'cap':
                return ('cap', cap(e[1]), e[2])
            if k == 'seq':
                return ('seq', [(l, ex(x)) for l, x in e[1]], None)
            if k == 'union':
                return ('union', [ex(x) for x in e[1]])
            if k == 'mrep':
                return ('mrep', ex(e[1]), e[2])
            return e

        def val(x):
            if isinstance(x, Cap):
                return Cap(cap(x.id), x.expr, x.char)
            if isinstance(x, V):
                return V(x.variant, [val(y) for y in x.f])
            if isinstance(x, Seq):
                return Seq([Rep(cap(p.id), [[val(y) for y in w] for w in p.ways]) if isinstance(p, Rep) else val(p) for p in x.pieces])
            return x
        return ex(m), val(v)

    # ---- sample words for captured parts

    def pool(self, cap):
        key = repr(cap.expr)
        if key in self.words:
            return self.words[key]
        d = pegram.Builder(self.g).language(cap.expr)
        good = {q for q in range(len(d.delta)) if d.acc[q]}
        ch = True
        while ch:
            ch = False
            for q in range(len(d.delta)):
                if q not in good and any(t in good for t in d.delta[q]):
                    good.add(q)
                    ch = True

        def accepts(w):
            q = d.start
            for c in w:
                if c not in pegram.SYM:
                    return False
                q = d.delta[q][pegram.SYM[c]]
            return d.acc[q]
        out = []
        rnd = random.Random(7)
        favour = [pegram.SYM[c] for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_']
        for length in (1, 2, 3, 5, 8, 13, 40):
            for _ in range(12):
                q = d.start
                w = ''
                for i in range(length + 60):
                    if len(w) >= length and d.acc[q]:
                        break
                    opts = [k for k in favour if d.delta[q][k] in good] or [k for k in range(NSYM) if d.delta[q][k] in good]
                    if not opts:
                        break
                    k = rnd.choice(opts)
                    w += SIGMA[k]
                    q = d.delta[q][k]
                if d.acc[q] and w not in out:
                    out.append(w)
        special = [w for w in ('', '_', '_a', 'a_', '__', 'A', 'Ab', 'aB', 'uint8', 'bool', 'export', 'Export', 'exports', 'é', ' a ', 'a1', '0', '1a') if accepts(w)]
        rnd.shuffle(out)
        self.words[key] = (special, out, accepts)
        return self.words[key]

    # ---- actions

    def caps(self, v, acc, nested=False):
        """captured parts, and lists which are part of an item of a list (those are passed on whole)"""
        if isinstance(v, Cap):
            acc[v.id] = v
        elif isinstance(v, V):
            for x in v.f:
                self.caps(x, acc, nested)
        elif isinstance(v, Seq):
            if nested:
                acc[v.id] = v
                return acc
            for p in v.pieces:
                if isinstance(p, Rep):
                    for w in p.ways:
                        for x in w:
                            self.caps(x, acc, True)
                else:
                    self.caps(p, acc)
        return acc

    def apply(self, e, args):
        k, labels, rule, line = self.actions.index[id(e)]
        # what such a rule makes is what the syntax tree will hold
        ast = any(t.k == 'ident' and t.s in ('Enum', 'Struct', 'AST', 'Type', 'Node', 'Unresolved') for t in pegram.tokenize(self.g.rules[rule].ret))
        nums, strs = self.actions.constants(k)
        reps = []

        def find_reps(v):
            if isinstance(v, V):
                for x in v.f:
                    find_reps(x)
            elif isinstance(v, Seq):
                for p in v.pieces:
                    if isinstance(p, Rep):
                        reps.append(p)
                    else:
                        find_reps(p)
        for l in labels:
            find_reps(args[l])
        rnd = random.Random(11)
        state = {}

        def longs(out):
            base = max(out, key=len, default='a') or 'a'
            return [(base * (n // len(base) + 1))[:n] for n in sorted({100, 260} | {x + d for x in nums for d in (-1, 0, 1)}) if n > 0]

        def word(cap, idx):
            special, out, accepts = self.pool(cap)
            cand = [w for w in strs if accepts(w)] + special + out + [w for w in longs(out) if accepts(w)]
            if cap.char:
                cand = [w for w in cand if len(w) == 1]
            if not cand:
                raise NotAForm('no sample of a captured part')
            return cand[idx % len(cand)], len(cand)

        def concrete(v, pick, choice, note):
            if isinstance(v, Cap):
                return pick(v)
            if isinstance(v, V):
                return V(v.variant, [concrete(x, pick, choice, note) for x in v.f])
            if isinstance(v, Seq):
                out = []
                for p in v.pieces:
                    if isinstance(p, Rep):
                        for way in choice(p):
                            for x in p.ways[way]:
                                out.append(concrete(x, pick, sample, note if choice is sample else nested(note)))
                    else:
                        out.append(concrete(p, pick, choice, note))
                note(v, out)
                return out
            return v

        def nested(note):
            return note.inner

        def sample(p):
            """some items of a list inside an item"""
            good = [i for i in range(len(p.ways)) if any(self.caps(x, {}, True) for x in p.ways[i])]
            if not good:
                raise NotAForm('a list of items without any text')
            return (good * 3)[:max(3, len(good))]

        def run(choice_map, rot, same=False):
            """one evaluation: value with texts replaced by ('t', cap id, occurrence)"""
            used = {}
            occ = {}

            def pick(cap):
                n = occ[cap.id] = occ.get(cap.id, -1) + 1
                if same:
                    w, _ = word(cap, rot)
                    used.setdefault(w, []).append((cap.id, n))
                    return w
                idx = rot + 3 * len(used)
                for t in range(4000):
                    w, m = word(cap, idx + t)
                    if t >= m:
                        # more of them than samples: make the words longer
                        special, out, accepts = self.pool(cap)
                        base = max(out + special, key=len)
                        w = base + str(len(used))
                        if not accepts(w):
                            raise NotAForm('not enough different samples')
                    if w not in used:
                        break
                else:
                    raise NotAForm('not enough different samples')
                used[w] = [(cap.id, n)]
                return w
            kept = []
            depth = {}

            def note(v, out):
                pass

            def note1(v, out):
                n = occ[v.id] = occ.get(v.id, -1) + 1
                kept.append((out, ('t', v.id, n)))

            note.inner = note1
            note1.inner = note
            cargs = {l: concrete(args[l], pick, lambda p: choice_map.get(p.id, []), note) for l in labels}
            self.evaluations += 1
            r = self.actions.call(e, cargs)
            return r, (used, kept)

        order = {}

        def abstract(r, uk):
            """texts by their origin"""
            used, kept = uk
            if isinstance(r, str):
                if r not in used:
                    raise Lost(rule, 'the text %r is not one of the texts %r that were read' % (r[:60], sorted(used)[:4]))
                return ('t',) + used[r][0]
            if isinstance(r, V):
                return ('v', r.variant) + tuple(abstract(x, uk) for x in r.f)
            if isinstance(r, list):
                for k, o in kept:
                    if k and k == r:
                        return o
                return ('l',) + tuple(abstract(x, uk) for x in r)
            if isinstance(r, (bool, int)) or r is None:
                return ('k', r)
            raise NotAForm('value %r' % (r,))

        def shape(b):
            return ('t',) if b[0] == 't' else b[:1 + (b[0] == 'v')] + tuple(shape(x) for x in b[1 + (b[0] == 'v'):]) if b[0] in 'vl' else b

        # text order of what the labels hold
        rank = {}

        def order_of(v):
            if isinstance(v, Cap):
                rank.setdefault(v.id, len(rank))
            elif isinstance(v, V):
                for x in v.f:
                    order_of(x)
            elif isinstance(v, Seq):
                for p in v.pieces:
                    if isinstance(p, Rep):
                        rank.setdefault(p.id, len(rank))
                    else:
                        order_of(p)
        for l in labels:
            order_of(args[l])
        owner = {}
        for p in reps:
            for i, w in enumerate(p.ways):
                for x in w:
                    for c in self.caps(x, {}, True):
                        owner[c] = (p.id, i)
        leaves = {}
        for l in labels:
            if isinstance(args[l], (Cap, V)):
                leaves.update({c: x for c, x in self.caps(args[l], {}).items() if isinstance(x, Cap) and c not in owner})
        # the form: every repetition empty
        try:
            base = abstract(*run({}, 0))
        except Lost as x:
            raise x
        # how a single item of every way shows up
        images = {}
        single = {}
        for p in reps:
            for i in range(len(p.ways)):
                single[(p.id, i)] = abstract(*run({p.id: [i]}, 1))

        def slots(b, path=()):
            if b[0] == 'l':
                yield path
                for n, x in enumerate(b[1:]):
                    yield from slots(x, path + (n,))
            elif b[0] == 'v':
                for n, x in enumerate(b[2:]):
                    yield from slots(x, path + (n,))

        def at(b, path):
            for n in path:
                b = b[1 + n] if b[0] == 'l' else b[2 + n]
            return b

        def blank(b, path=(), keep=()):
            """structure without the contents of the lists at `keep`"""
            if b[0] == 'l':
                if path in keep:
                    return ('l*',)
                return ('l',) + tuple(blank(x, path + (n,), keep) for n, x in enumerate(b[1:]))
            if b[0] == 'v':
                return b[:2] + tuple(blank(x, path + (n,), keep) for n, x in enumerate(b[2:]))
            return b
        lists = [s for s in slots(base) if not any(base and at(base, s[:i])[0] == 'l' for i in range(len(s)))]
        empty = blank(base, (), lists)

        def bad(what):
            if ast:
                raise Lost(rule, what)
            raise NotAForm(what)
        # items of a list by origin
        def contribution(c):
            ids = []

            def go(x):
                if x[0] == 't':
                    ids.append(x[1])
                elif x[0] in 'vl':
                    for y in x[(2 if x[0] == 'v' else 1):]:
                        go(y)
            go(c)
            return ids
        image = {}
        for (rid, i), s in single.items():
            if blank(s, (), lists) != empty:
                bad('the result has another form when the list has an item')
            for sl in lists:
                content = at(s, sl)[1:]
                fixed = at(base, sl)[1:]
                rest = list(content)
                for f in fixed:
                    if f in rest:
                        rest.remove(f)
                    else:
                        bad('an item of the list goes missing')
                image[(rid, i, sl)] = rest

        def renum(c, n):
            """occurrence numbers of the caps of a repetition's items shifted"""
            if c[0] == 't':
                return ('t', c[1], n.get(c[1], c[2]) if c[1] in owner else c[2])
            if c[0] == 'v':
                return c[:2] + tuple(renum(x, n) for x in c[2:])
            if c[0] == 'l':
                return c[:1] + tuple(renum(x, n) for x in c[1:])
            return c

        def predicted(cm, sl):
            content = []
            for f in at(base, sl)[1:]:
                ids = contribution(f)
                content.append((min([rank.get(c, 0) for c in ids] or [-1]), 0, f))
            for p in reps:
                count = {}
                for pos, way in enumerate(cm.get(p.id, [])):
                    ids = set()
                    for x in p.ways[way]:
                        ids |= set(self.caps(x, {}, True))
                    n = {}
                    for c in ids:
                        n[c] = count[c] = count.get(c, -1) + 1
                    for it in image[(p.id, way, sl)]:
                        content.append((rank[p.id], pos + 1, renum(it, n)))
            content.sort(key=lambda x: x[:2])
            return [x[2] for x in content]
        tests = []
        for p in reps:
            n = len(p.ways)
            for ln in (2, 3):
                combos = list(itertools.product(range(n), repeat=ln))
                if len(combos) > 40:
                    combos = rnd.sample(combos, 40)
                tests += [{p.id: list(c)} for c in combos]
            for ln in sorted({4, 7, 16, 33} | {x + d for x in nums for d in (-1, 0, 1) if 0 < x + d < 300}):
                tests.append({p.id: [rnd.randrange(n) for _ in range(ln)]})
                for w in range(min(n, 5)):
                    tests.append({p.id: [w] * ln})
        if len(reps) > 1:
            for _ in range(30):
                tests.append({p.id: [rnd.randrange(len(p.ways)) for _ in range(rnd.randrange(4))] for p in reps})
        most = max([word(c, 0)[1] for c in leaves.values()] or [0])
        for rot in range(0, min(most, 160) + 3 if leaves else 1):
            b = abstract(*run({}, rot))
            if b != base:
                if shape(b) == shape(base):
                    raise Lost(rule, 'the result depends on what the names are: %s' % describe(b))
                bad('the result depends on what the names are: %s' % describe(b))
        for t_i, cm in enumerate(tests):
            r, used = run(cm, t_i % 9)
            b = abstract(r, used)
            if blank(b, (), lists) != empty:
                bad('the result has another form for a list of %d items' % max(map(len, cm.values())))
            for sl in lists:
                if list(at(b, sl)[1:]) != predicted(cm, sl):
                    bad('a list of %d items that were read becomes %d items, in the order %s' % (
                        max(map(len, cm.values())), len(at(b, sl)) - 1, brief(at(b, sl)[1:])))
        # items which read the same
        for p in reps:
            for i in range(len(p.ways)):
                if not self.caps_of_way(p, i):
                    continue
                for ln in (2, 3):
                    r, used = run({p.id: [i] * ln}, 2, same=True)
                    for sl in lists:
                        got = r
                        for n in sl:
                            got = got.f[n] if isinstance(got, V) else got[n]
                        want = len(at(base, sl)) - 1 + ln * len(image[(p.id, i, sl)])
                        if len(got) != want:
                            bad('%d equal items that were read become %d items' % (ln, len(got)))

        # back to values
        def value(c):
            if c[0] == 't':
                return allcaps[c[1]]
            if c[0] == 'k':
                return c[1]
            if c[0] == 'v':
                return V(c[1], [value(x) for x in c[2:]])
            return Seq([value(x) for x in c[1:]])

        allcaps = {}
        for l in labels:
            self.caps(args[l], allcaps)

        def build(b, path=()):
            if b[0] == 'l' and path in lists:
                pieces = []
                for f in at(base, path)[1:]:
                    ids = contribution(f)
                    pieces.append((min([rank.get(c, 0) for c in ids] or [-1]), value(f)))
                for p in reps:
                    ways = []
                    for i in range(len(p.ways)):
                        ways.append([value(c) for c in image[(p.id, i, path)]])
                    if any(ways):
                        pieces.append((rank[p.id], Rep(p.id, ways)))
                pieces.sort(key=lambda x: x[0])
                return Seq([x[1] for x in pieces])
            if b[0] == 'v':
                return V(b[1], [build(x, path + (n,)) for n, x in enumerate(b[2:])])
            return value(b)
        return build(base)

    def caps_of_way(self, p, i):
        acc = {}
        for x in p.ways[i]:
            self.caps(x, acc, True)
        return acc


def brief(items):
    def one(c):
        if c[0] == 't':
            return '%s#%d' % (c[1], c[2])
        if c[0] == 'k':
            return str(c[1])
        return '(' + ' '.join(one(x) for x in c[(2 if c[0] == 'v' else 1):]) + ')'
    return ', '.join(one(c) for c in items[:6])


def describe(b):
    return brief([b])


# ---------------------------------------------------------------- where the parts of the text end up

def names_of(prog):
    """names of the variants of the syntax tree's types, checked for the shape that is read below"""
    out = {}
    for t in prog.types:
        p = t.get('path') or ''
        if t['k'] == 'adt' and p.split('::')[-2:-1] == ['ast']:
            out[p.split('::')[-1]] = [(v['name'], len(v['fields'])) for v in t.get('variants') or []]
    want = {'Node': {('Decl', 2), ('Export', 1)}, 'Type': {('Enum', 1), ('Struct', 1)}}
    for n, vs in want.items():
        if n in out and set(out[n]) != vs:
            raise NotAForm('the type %s of the syntax tree' % n)
    if 'Unresolved' in out and out['Unresolved'] != [('Unresolved', 3)]:
        raise NotAForm('the type Unresolved of the syntax tree')
    return {n: [v for v, _ in out.get(n, [])] for n in want}


REF_NAMES = {'Node': ['Decl', 'Export'], 'Type': ['Enum', 'Struct']}


def roles(v, names):
    """captured part -> what it is in the syntax tree"""
    out = {}

    def put(c, role):
        if not isinstance(c, Cap):
            raise NotAForm('%s is not a part of the text' % role)
        out.setdefault(c.id, set()).add(role)

    def adt(x, n):
        if not isinstance(x, V) or len(x.f) != n:
            raise NotAForm('a node of the syntax tree')
        return x

    def each(s):
        if not isinstance(s, Seq):
            raise NotAForm('a list of the syntax tree')
        for p in s.pieces:
            if isinstance(p, Rep):
                for w in p.ways:
                    yield from w
            else:
                yield p

    def variant(ty, x):
        vs = names[ty]
        if not isinstance(x, V) or x.variant >= len(vs):
            raise NotAForm('a %s of the syntax tree' % ty)
        return vs[x.variant]
    for n in each(v):
        k = variant('Node', n)
        if k == 'Export':
            put(adt(n, 1).f[0], 'exported name')
            continue
        adt(n, 2)
        t = variant('Type', n.f[1])
        body = adt(adt(n.f[1], 1).f[0], 1).f[0]
        put(n.f[0], 'name of %s' % ('an enum' if t == 'Enum' else 'a struct'))
        for x in each(body):
            if t == 'Enum':
                put(x, 'variant')
                continue
            adt(x, 2)
            u = adt(x.f[1], 3)
            if not all(isinstance(q, bool) for q in u.f[1:]):
                raise NotAForm('flags of a field')
            kind = '%s%s field' % ('optional ' if u.f[2] else '', 'array' if u.f[1] else 'plain')
            put(x.f[0], 'name of %s' % kind)
            put(u.f[0], 'type of %s' % kind)
    return {c: ' and '.join(sorted(r)) for c, r in out.items()}


def marked(e, role):
    k = e[0]
    if k == 'cap':
        if e[1] in role:
            r = role[e[1]]
            return ('seq', [(None, ('mark', r + ':')), (None, e[2]), (None, ('mark', 'end'))], None)
        return e[2]
    if k == 'seq':
        return ('seq', [(l, marked(x, role)) for l, x in e[1]], None)
    if k == 'union':
        return ('union', [marked(x, role) for x in e[1]])
    if k == 'mrep':
        return ('mrep', marked(e[1], role), e[2])
    return e


def signature(v, num):
    if isinstance(v, Cap):
        return 'text'
    if isinstance(v, V):
        return '%d(%s)' % (v.variant, ','.join(signature(x, num) for x in v.f))
    if isinstance(v, Seq):
        return '[%s]' % ','.join(
            '*{%s}' % '|'.join(sorted('+'.join(signature(x, num) for x in w) for w in p.ways)) if isinstance(p, Rep) else signature(p, num)
            for p in v.pieces)
    return str(v)


def four(am, bm, a, b, limit=3000000):
    """shortest marked text on which am and bm differ while a and b accept it without the marks"""
    from collections import deque
    start = (am.start, bm.start, a.start, b.start)
    prev = {start: None}
    dq = deque([start])
    dead_a, dead_b = a.sinks()[1], b.sinks()[1]
    dead_m, dead_n = am.sinks()[1], bm.sinks()[1]
    while dq:
        s = dq.popleft()
        if am.acc[s[0]] != bm.acc[s[1]] and a.acc[s[2]] and b.acc[s[3]]:
            w = []
            c = s
            while prev[c] is not None:
                c, k = prev[c]
                w.append(k)
            return list(reversed(w)), am.acc[s[0]], len(prev)
        for k in range(am.n):
            t = (am.delta[s[0]][k], bm.delta[s[1]][k],
                 s[2] if k >= NSYM else a.delta[s[2]][k], s[3] if k >= NSYM else b.delta[s[3]][k])
            if t[2] in dead_a or t[3] in dead_b or (t[0] in dead_m and t[1] in dead_n):
                continue
            if t not in prev:
                prev[t] = (s, k)
                dq.append(t)
        if len(prev) > limit:
            raise Unsupported('automaton too large')
    return None, None, len(prev)


RULE = 'every part of an accepted text ends up in its place of the syntax tree, in the order of the text, and nothing else does'


def check_P19(rep):
    gr = p_syntax.grammars(rep)
    if gr is None:
        return
    g, ref = gr
    rep.coverage['rule'] = RULE
    try:
        rec = pegram.recursion(g, 'schema')
        bad, _ = pegram.endless_repetitions(g, 'schema')
        if rec or bad:
            rep.unsure('grammar', 'recursive rules or repetitions of something that can be empty: %s' % ', '.join(sorted(rec) + bad))
            return
        acts = Actions(rep, g)
        names = names_of(acts.prog)
        start = ('rule', 'schema')
        w = Ways(g, acts)
        try:
            ways = w.expand(start)
        except Lost as e:
            ln = g.line(g.rules[e.rule].pos)
            rep.violation('actions', 'P19/action/%s' % e.rule, '%s:%d (rule %s)' % (p_syntax.PARSER, ln, e.rule), RULE,
                          'the action of rule %s does not carry over what was read: %s' % (e.rule, e))
            return
        rep.ok('actions')
        rw = Ways(ref, RefActions(ref))
        rways = rw.expand(start)
        both = []
        for ws, nm in ((ways, names), (rways, REF_NAMES)):
            both.append([marked(m, roles(v, nm)) for m, v in ws])
        marks = set()

        def collect(e):
            if e[0] == 'mark':
                marks.add(e[1])
            for x in pegram.children(e) + (list(e[1]) if e[0] == 'union' else [e[1]] if e[0] == 'mrep' else []):
                collect(x)
        for es in both:
            for e in es:
                collect(e)
        ms = sorted(marks)
        am = pegram.Builder(g, ms).language(('union', both[0]))
        bm = pegram.Builder(ref, ms).language(('union', both[1]))
        a = pegram.Builder(g).language(start)
        b = pegram.Builder(ref).language(start)
        word, ours, n = four(am, bm, a, b)
    except NotAForm as e:
        rep.unsure('actions', str(e))
        return
    except (Unsupported, Stuck, NoReturn) as e:
        rep.unsure('grammar', 'not modelled: %s' % str(e)[:400])
        return
    rep.coverage['ways_to_match'] = w.n
    rep.coverage['evaluations_of_derived_actions'] = w.evaluations
    rep.coverage['states_of_marked_automaton'] = len(am.delta)
    rep.coverage['states_of_marked_specification'] = len(bm.delta)
    rep.coverage['states_compared'] = n
    rep.coverage['places'] = [m for m in ms if m != 'end']
    by = {}
    for m in ms:
        if m != 'end':
            by[m] = True
    if word is not None:
        # which rule: the innermost one whose ways differ
        who = None
        for n_ in reversed(pegram.reachable(ref, 'schema')):
            try:
                x = Ways(g, acts).expand(('rule', pegram.norm(g, n_)))
                y = Ways(ref, RefActions(ref)).expand(('rule', n_))
            except (Unsupported, NotAForm, Lost):
                continue
            if [signature(v, {}) for _, v in x] != [signature(v, {}) for _, v in y]:
                who = n_
                break
        where = p_syntax.PARSER
        if who:
            who = pegram.norm(g, who)
            where = '%s:%d (rule %s)' % (where, g.line(g.rules[who].pos), who)
        shown = pegram.show(word, ms)
        plain = pegram.show([k for k in word if k < NSYM])
        rep.violation('places', 'P19/places/%s' % (who or 'grammar'), where, RULE,
                      'for the text %r the reading %r is %s' % (plain, shown, 'what the parser gives, but not what the text says' if ours
                                                                 else 'what the text says, but not what the parser gives'))
        return
    for m in by:
        rep.ok('place/' + m.rstrip(':'))
    handed_over(rep)


def handed_over(rep):
    """compile passes the text to the parser and the tree to the type checker as they are"""
    pipe = p_pipe.opened(rep)
    if pipe is None:
        return
    for text in ('', 'a: struct { b: uint8 }\n', ' \n\ta: enum { A }\r\n#x', 'é☃: A\n\n', 'export a', 'EXPORT  b  \n'):
        label = 'handed over/%r' % text
        for nodes in ([], [V(1, ['a'])], [V(1, ['b']), V(1, ['a']), V(1, ['b'])]):
            try:
                v, seen = pipe.run(text, lambda s: V(0, [nodes]), lambda t: V(1, ['error']), lambda r: '')
            except (Stuck, NoReturn) as e:
                rep.unsure(label, str(e)[:300])
                break
            if seen.get('schema') != text:
                rep.violation(label, 'P19/text', pipe.where, RULE,
                              'the parser is given %r for a file with the text %r' % (seen.get('schema'), text))
                break
            if 'type_check' in seen and seen['type_check'] != nodes:
                rep.violation(label, 'P19/tree', pipe.where, RULE, 'the type checker is not given the tree the parser made')
                break
        else:
            rep.ok(label)
