"""The compile function: what it hands to the parser, the type checker and the generator, and what it makes of their results."""
import absint
import models
from inst import Inst, V, Stuck, NoReturn
from terms import *

STAGES = ('schema', 'type_check', 'generate')


class PipeInst(Inst):
    """derived outcomes of compile, looked at for one text and one result of each stage"""
    stage = None      # {name: function of the argument's value}
    seen = None

    def t_res(self, t, env):
        name, args = t.a
        f = self.stage.get(name)
        if f is None:
            raise Stuck(name)
        v = self.ev(args[0], env)
        self.seen[name] = v
        return f(v)

    def t_ev(self, t, env):
        return ('ev', t.a[0])

    def t_end(self, t, env):
        return None


class Pipe:
    def __init__(self, rep, prog):
        self.rep = rep
        p = self.p = prog

        def find(n):
            return [i for i, b in enumerate(p.bodies) if b['crate'] == 'packetc_lib' and b['path'].split('::')[-1] == n and b['nargs'] == 1]
        roots = find('compile')
        if len(roots) != 1:
            raise absint.Anchor('the compile function')
        self.bid = roots[0]
        opaque = {}
        for n in STAGES:
            ids = find(n)
            if len(ids) != 1:
                raise absint.Anchor('the function %s' % n)

            def eff(eng, st, args, rty, site, n=n):
                return models.effect(n)(eng, st, args, None, rty, site)
            opaque[ids[0]] = eff
        e = self.eng = absint.Engine(p, models.M, opaque=opaque)
        e.heads, _ = p.rec_heads(self.bid, set(opaque))
        self.sm = e.summary(self.bid)
        self.inst = PipeInst(e)
        self.outs = [(s, r, {}) for s, r, _ in self.sm['outs']]
        self.disp = None
        b = p.bodies[self.bid]
        self.where = '%s:%s (%s)' % (b['ispan'][0], b['ispan'][1], b['path'])
        self.param = self.parameter()
        self.names, self.nums = set(), set()
        for s, r, _ in self.outs:
            for f in list(s.facts) + [r]:
                for x in absint.subterms(f):
                    if x.t == 'lin' and x.a[0]:
                        self.nums.add(abs(x.a[0]))
                    elif x.t == 'str' and f is not r:
                        self.names |= {q for q in x.a[0] if isinstance(q, str) and 0 < len(q) < 60}
                    elif x.t == 'chr':
                        self.names.add(chr(x.a[0]) if isinstance(x.a[0], int) else str(x.a[0]))
        rep.coverage.setdefault('analysed', {})['compile'] = {
            'root': b['path'], 'outcomes': len(self.outs), 'unmodelled_functions': sorted(e.unknown),
            'loops_not_summarised': len(e.loop_fail), 'stages': list(STAGES), 'numbers': sorted(self.nums)[:50], 'strings': sorted(self.names)[:50]}

    def parameter(self):
        for s, r, _ in self.outs:
            for f in list(s.facts) + [r]:
                for x in absint.subterms(f):
                    if x.t == 'sym':
                        return x
        raise absint.Anchor('the parameter of compile')

    def run(self, text, parse, check=None, gen=None):
        """(variant of the result, payload, arguments the stages saw)"""
        i = self.inst
        i.memo = {}
        i.seen = {}
        i.stage = {'schema': parse, 'type_check': check, 'generate': gen}
        env = {'#frame': 0, self.param: text}
        (s, r, _), e2 = i.choose1(self.outs, env, 'compile')
        v = i.ev(r, e2)
        if not isinstance(v, V):
            raise Stuck('result of compile')
        seen = dict(i.seen)
        return v, seen

    # ---- results of the stages on their way out of compile

    def error_text(self, v):
        """what is shown of an error"""
        if self.disp is None:
            bid = self.p.roots.get('error_display')
            if bid is None:
                raise Stuck('how an error is shown')
            e = absint.Engine(self.p, models.M)
            e.heads, _ = self.p.rec_heads(bid, set())
            self.disp = (e, e.summary(bid), Inst(e))
        e, sm, i = self.disp
        me = sm['args'][0]
        me = me.a[0] if me.t == 'vref' else me
        i.memo = {}
        env = {'#frame': 0, me: v}
        out = [l for l in sm['entry'].items()]
        if len(out) != 1:
            raise Stuck('formatter')
        leaf, start = out[0]
        for x in absint.subterms(start):
            if x.t == 'sym':
                env[x] = ''
        (s, r, leaves), e2 = i.choose1(sm['outs'], env, 'the display of an error')
        if s.taint:
            raise Stuck('display of an error')
        t = i.ev(leaves[leaf], e2)
        if not isinstance(t, str):
            raise Stuck('display of an error')
        return t

    def verdict(self, text, ast, r):
        """what compile makes of the type checker's result r for this schema: ('ok', ..) | ('err', text) | None if not known"""
        try:
            v, seen = self.run(text, lambda s: V(0, [ast]), lambda a: V(0, ['#resolved']) if r[0] == 'ok' else V(1, [r[1]]), lambda x: '#code')
            if 'type_check' in seen and seen['type_check'] != ast:
                return None
            if v.variant == 0:
                return ('ok', r[1]) if r[0] == 'ok' else ('ok', {})
            e = v.f[0]
            return ('err', self.error_text(e))
        except NoReturn as e:
            return ('none', str(e))
        except Stuck:
            return None

    def output(self, text, code):
        """what compile makes of generated code, None if not known"""
        try:
            v, seen = self.run(text, lambda s: V(0, [[]]), lambda a: V(0, ['#resolved']), lambda x: code)
            if v.variant == 0 and isinstance(v.f[0], str) and seen.get('generate') == '#resolved':
                return v.f[0]
        except (Stuck, NoReturn):
            pass
        return None


def pipe_or_none(rep, prog):
    try:
        return Pipe(rep, prog)
    except (absint.Anchor, Stuck):
        return None
