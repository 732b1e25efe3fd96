"""P15: compiling any text terminates without panicking."""
import absint
import gentpl
import scheck
import pegram
import p_ast
import p_det
import p_pipe
import p_syntax
import pipe
from inst import V, Stuck, NoReturn

RULE = 'compilation returns code or an error for every text'


def site(p, prog):
    """file:line (function) of a panic"""
    f, sp = p['fn'], p['span']
    if not sp:
        return f
    return '%s:%s (%s)' % (sp[0], sp[1], f.split('::')[-1])


def own(eng):
    """panics in the repository's functions, once per place"""
    seen = {}
    for p in eng.panics:
        seen.setdefault((p['fn'], p['span'], p['what']), p)
    return list(seen.values())


def culprit(inst, eng, env, fallback):
    """the panic whose condition holds"""
    for p in own(eng):
        try:
            facts = list(p['st'].facts.items())
            free = sorted(gentpl.inst.frees(tuple(q for q, _ in facts)), key=lambda x: x.i)
            for e2 in inst.assignments(free, dict(env), facts, []):
                if inst.guard(facts, e2):
                    return '%s: %s' % (site(p, eng.p), p['what'])
        except (Stuck, KeyError):
            pass
    return fallback


def around(eng):
    return 'one of ' + '; '.join('%s: %s' % (site(p, eng.p), p['what']) for p in own(eng)[:6]) if own(eng) else None


def at(eng, where):
    """the only panic there is, or the function analysed"""
    ps = own(eng)
    return site(ps[0], eng.p) if len(ps) == 1 else where


def inventory(rep, what, eng, inst=None):
    if inst is not None:
        # the bodies of recursive functions, this time with their panics
        for h in eng.rec:
            eng.summary(h)
    rep.coverage[what] = {
        'functions_analysed': len(eng.analysed), 'loops_over_finite_sequences': len([k for k, v in eng.loops_seen.items() if v]),
        'loops_not_summarised': len(eng.loop_fail), 'recursive_functions': sorted(eng.p.bodies[h]['path'] for h in eng.rec),
        'panics_reached_under_a_condition': sorted({'%s: %s' % (site(p, eng.p), p['what']) for p in eng.panics}),
        'unmodelled_functions': sorted(eng.unknown)}


def check_P15(rep):
    rep.assumptions += ['library functions terminate and panic only as documented', 'the stack is large enough for the nesting of the schema',
                        'the parser library terminates on grammars without left recursion and without repetitions of the empty text']
    grammar(rep)
    prog = gentpl.dump()
    tpl = gentpl.Template(prog)
    tpl.inst.strict = True
    generator(rep, tpl)
    said = checker(rep, prog, tpl)
    messages(rep, prog, said, tpl)


def generator(rep, tpl):
    names, lens = tpl.hints()
    n = 0
    inventory(rep, 'generator', tpl.eng, tpl.inst)
    b = tpl.p.bodies[tpl.bid]
    where = '%s:%s (%s)' % (b['ispan'][0], b['ispan'][1], b['path'])
    for s in gentpl.shapes(names, lens) + large():
        name = 'generator ' + s.name
        tpl.inst.memo = {}
        v = tpl.builder.resolved(tpl.ty, s, None)
        try:
            tpl.fill(v)
        except NoReturn as e:
            rep.violation(name, 'generator', at(tpl.eng, where), RULE, 'no code is generated for the valid schema of shape %s: %s\n  %s' % (
                s.name, e, culprit(tpl.inst, tpl.eng, {tpl.arg: v}, around(tpl.eng))))
            continue
        except Stuck as e:
            rep.unsure(name, str(e))
            continue
        n += 1
        rep.ok(name)
    rep.coverage['generator']['shapes'] = n


def large():
    S = gentpl.Shape
    out = []
    for k in (130, 260):
        fs = [('f%d' % i, gentpl.BUILTINS[i % len(gentpl.BUILTINS)], *gentpl.MODS[i % 3]) for i in range(k)]
        out.append(S('%d fields' % k, {'Top': ('struct', fs)}, 'Top'))
        out.append(S('%d types' % k, dict([('T%d' % i, ('struct', [('x', 'uint8', False, False)])) for i in range(k)] + [('Top', ('struct', [('f%d' % i, 'T%d' % i, False, False) for i in range(k)]))]), 'Top'))
        out.append(S('names of %d' % k, {'n' * k: ('struct', [('f' * k, 'string', True, False), ('g', 'E' * k, False, True)]), 'E' * k: ('enum', ['v' * k, 'w']),
                                         'Top': ('struct', [('h' * k, 'n' * k, True, False)])}, 'Top'))
    n = 24
    out.append(S('%d levels' % n, dict([('L%d' % i, ('struct', [('l', 'L%d' % (i + 1), *gentpl.MODS[i % 3])])) for i in range(n)] + [('L%d' % n, ('struct', [('x', 'string', False, False)]))]), 'L0'))
    return out


def large_schemes():
    st, ex, S = scheck.st, scheck.ex, scheck.Scheme
    out = []
    for k in (130, 260):
        out.append(S('%d fields' % k, st('Z', *[('f%d' % i, 'uint8') for i in range(k)]), ex('Z')))
        out.append(S('%d fields of declared types' % k, st('A', ('x', 'int8')), st('Z', *[('f%d' % i, 'A') for i in range(k)]), ex('Z')))
        out.append(S('%d declarations' % k, *[st('D%d' % i, ('q', 'uint8')) for i in range(k)], ex('D3')))
        out.append(S('%d variants' % k, ('enum', 'E', ['V%d' % i for i in range(k)]), st('Z', ('x', 'E')), ex('Z')))
        out.append(S('names of %d' % k, ('enum', 'E' * k, ['V' * k]), st('Z' * k, ('x' * k, 'E' * k)), ex('Z' * k)))
        out.append(S('unknown name of %d' % k, st('Z', ('x', 'U' * k)), ex('Z')))
    out.append(S('chain of 24', *[st('N%d' % i, ('n', 'N%d' % (i + 1))) for i in range(24)], st('N24', ('x', 'float')), ex('N0')))
    out.append(S('cycle of 24', *[st('N%d' % i, ('n', 'N%d' % ((i + 1) % 24))) for i in range(24)], st('T', ('x', 'N0')), ex('T')))
    for n in ('', '0', '9x', '_', 'enum', 'struct', 'export', 'uint', 'a', 'Z', 'e'):
        for mod in scheck.MODS + [(True, True)]:
            out.append(S('type %r' % n, st('Z', ('f', n) + mod), ex('Z')))
            out.append(S('type %r of a later field' % n, st('Z', ('d', 'A'), ('f', n) + mod), st('A', ('x', 'int8')), ex('Z')))
        out.append(S('export %r' % n, st('Z', ('f', 'int8')), ex(n)))
        out.append(S('export %r of nothing' % n, ex(n)))
    for n in ('a', 'A', '_', 'Z9', 'aa'):
        out.append(S('short names', ('enum', 'E', [n]), st(n, (n, 'E'), ('_' + n, 'E', True, False)), ex(n)))
        out.append(S('short names', ('enum', n, [n, n + n]), st('Q', (n, n)), ex('Q')))
        out.append(S('short names', st(n, (n, n)), ex(n)))
    out.append(S('nothing'))
    out.append(S('only an export', ex('A')))
    return out


def checker(rep, prog, tpl):
    ck = scheck.Checker(prog)
    cn, cl = ck.hints()
    inventory(rep, 'type checker', ck.eng, ck.inst)
    b = prog.bodies[ck.bid]
    where = '%s:%s (%s)' % (b['ispan'][0], b['ispan'][1], b['path'])
    n = m = 0
    said = set()
    for s in scheck.valid(cn, cl) + scheck.invalid(cn, cl) + p_det.many() + large_schemes():
        name = 'type checker ' + s.label
        ck.inst.memo = {}
        try:
            r = ck.result(s)
        except Stuck as e:
            rep.unsure(name, str(e))
            continue
        if r[0] == 'none':
            rep.violation(name, 'type checker', at(ck.eng, where), RULE, 'type checking does not give a result: %s\n  %s\n  schema: %s' % (r[1], around(ck.eng), s.source()[:600]))
            continue
        n += 1
        if r[0] == 'err':
            said.add(r[1])
        if r[0] == 'ok':
            # what was accepted can be generated
            tpl.inst.memo = {}
            try:
                tpl.fill(ck.raw)
                m += 1
            except NoReturn as e:
                rep.violation(name, 'generator after type checker', at(tpl.eng, where), RULE, 'the schema is accepted, but generating its code does not give a result: %s\n  %s\n  schema: %s' % (
                    e, culprit(tpl.inst, tpl.eng, {tpl.arg: ck.raw}, around(tpl.eng)), s.source()[:600]))
                continue
            except Stuck as e:
                rep.unsure(name, str(e))
                continue
        rep.ok(name)
    rep.coverage['type checker']['schemes'] = n
    rep.coverage['type checker']['generated'] = m
    return sorted(said, key=lambda x: (len(x), x))


def messages(rep, prog, said, tpl):
    pp = pipe.Pipe(rep, prog)
    n = 0
    for t in p_pipe.texts(pp):
        for pos in p_pipe.points(t):
            name = 'syntax error in %r at %d' % (t[:40], pos)
            parse, _ = p_pipe.fail_at(t, pos)
            try:
                v, _ = pp.run(t, parse)
                if v.variant == 1:
                    pp.error_text(v.f[0])
            except NoReturn as e:
                rep.violation(name, 'syntax error', at(pp.eng, pp.where), RULE, 'no result for a text with a syntax error: %s\n  text: %r failing at character %d\n  %s' % (
                    e, t[:200], pos, around(pp.eng)))
                continue
            except Stuck as e:
                rep.unsure(name, str(e))
                continue
            n += 1
            rep.ok(name)
    # after the other stages, with what they give
    try:
        code = tpl.text(gentpl.Shape('one', {'T': ('struct', [('a', 'uint8', False, False)])}, 'T'))
    except Stuck:
        code = None
    ends = [('type error %r' % m, lambda a, m=m: V(1, [m]), None) for m in said[:10] + said[10:-5:max(1, len(said) // 40)] + said[-5:]]
    if code is not None:
        ends.append(('code', lambda a: V(0, ['#resolved']), lambda r: code))
    for label, check, gen in ends:
        for text in ('T: struct { a: uint8 }\r\nexport T\n', '# é\nA'):
            name = '%s for %r' % (label, text)
            try:
                v, _ = pp.run(text, lambda x: V(0, [[]]), check, gen)
                if v.variant == 1:
                    pp.error_text(v.f[0])
            except NoReturn as e:
                rep.violation(name, 'compile', at(pp.eng, pp.where), RULE, 'no result after %s: %s\n  %s' % (label, e, around(pp.eng)))
                continue
            except Stuck as e:
                rep.unsure(name, str(e))
                continue
            rep.ok(name)
    rep.coverage['error rendering'] = {'positions': n}
    inventory(rep, 'compile', pp.eng)


def grammar(rep):
    gr = p_syntax.grammars(rep)
    if gr is None:
        return
    g, _ = gr
    try:
        left = pegram.left_recursion(g, 'schema')
        loops, _ = pegram.endless_repetitions(g, 'schema')
    except pegram.Unsupported as e:
        rep.unsure('grammar', str(e))
        return
    for what, bad in (('left recursion', left), ('repetition of the empty text', loops)):
        if bad:
            r = sorted(bad)[0]
            rep.violation('grammar ' + what, what, p_syntax.PARSER, RULE, 'parsing may not end: %s in %s' % (what, ', '.join(sorted(bad))))
        else:
            rep.ok('grammar ' + what)
    rep.coverage['grammar'] = {'rules': len(pegram.reachable(g, 'schema')), 'recursive': sorted(pegram.recursion(g, 'schema'))}
    try:
        acts = p_ast.Actions(rep, g)
    except (pegram.Unsupported, absint.Anchor) as e:
        rep.unsure('actions', str(e)[:300])
        return
    sites = p_ast.sites(g)
    for k, (rule, top, e) in enumerate(sites):
        name = 'action of rule %s' % rule
        try:
            acts.summary(k)
        except (pegram.Unsupported, Stuck, absint.Anchor) as ex:
            rep.unsure(name, str(ex)[:300])
            continue
        if acts.eng.panics:
            break
        rep.ok(name)
    if acts.eng.panics:
        # on what the rules can capture
        try:
            p_ast.Ways(g, acts).expand(('rule', 'schema'))
            rep.ok('actions on captured texts')
        except NoReturn as ex:
            p = acts.eng.panics[0]
            rep.violation('actions', 'action', '%s (grammar action)' % p_syntax.PARSER, RULE, 'an action of the grammar does not return: %s\n  %s' % (ex, p['what']))
        except Exception as ex:
            rep.unsure('actions', str(ex)[:300])
    inventory(rep, 'actions', acts.eng)
