"""P16: the result depends only on the schema text."""
import re
import absint
import gentpl
import scheck
import pipe
from inst import V, Stuck, NoReturn

WORLDS = (0, 1, 2, 3, 5)


def header(text):
    """the timestamp in the header comment does not count"""
    ls = text.split('\n')
    for i, l in enumerate(ls):
        if not l.lstrip().startswith('//'):
            break
        ls[i] = re.sub(r'TIME\d*', 'TIME', l)
    return '\n'.join(ls)


def cause(nd):
    return ', '.join(sorted(nd)) or 'hash order'


def first_difference(a, b):
    la, lb = a.split('\n'), b.split('\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return i, x, y
    i = min(len(la), len(lb))
    return i, la[i] if i < len(la) else '<end>', lb[i] if i < len(lb) else '<end>'


def worlds(inst, f, norm, key):
    """[(world, value, sources looked at)] of f in several worlds, until one differs"""
    out = []
    for w in WORLDS:
        inst.seed = w
        inst.memo = {}
        inst.nd = set()
        try:
            out.append((w, norm(f()), inst.nd))
        except NoReturn:
            # not the subject here
            if not inst.nd:
                raise
            continue
        finally:
            inst.seed = 0
        if len(out) > 1 and key(out[-1][1]) != key(out[0][1]):
            return out
        if w and not inst.nd:
            break
    if not out:
        raise Stuck('it does not return')
    return out


def same(v):
    return repr(v)


def check_P16(rep):
    prog = gentpl.dump()
    # the generator
    tpl = gentpl.Template(prog)
    names, lens = tpl.hints()
    rep.assumptions += ['hash maps may be iterated in any order, the same for maps with the same keys',
                        'time, environment and content of global state are arbitrary; the parser library is deterministic']
    n = 0
    looked = set()
    shapes = gentpl.shapes(names, lens)
    for k, s in enumerate(shapes):
        if s.name.startswith('pair ') and k % 4:
            continue
        name = 'generator ' + s.name
        try:
            ws = worlds(tpl.inst, lambda: tpl.text(s), lambda t: t, header)
        except Stuck as e:
            rep.unsure(name, str(e))
            continue
        n += 1
        looked |= set().union(*[x[2] for x in ws])
        a, b = ws[0], ws[-1]
        if header(a[1]) == header(b[1]):
            rep.ok(name)
            continue
        i, x, y = first_difference(header(a[1]), header(b[1]))
        rep.violation(name, 'generated code', gentpl.locate(y if y != '<end>' else x), 'apart from the timestamp in the header the generated code only depends on the schema',
                      'the generated code for shape %s depends on %s\n  line %d: %s\n  or:      %s' % (s.name, cause(a[2] | b[2]), i + 1, x[:200], y[:200]))
    rep.coverage['generator'] = {'shapes': n, 'worlds': len(WORLDS), 'sources_of_nondeterminism_met': sorted(looked)}
    # the type checker
    ck = scheck.Checker(prog)
    cn, cl = ck.hints()
    n = 0
    looked = set()
    bid = prog.bodies[ck.bid]
    where = '%s:%s (%s)' % (bid['ispan'][0], bid['ispan'][1], bid['path'])
    for s in family(cn, cl):
        name = 'type checker ' + s.label
        try:
            ws = worlds(ck.inst, lambda: ck.result(s) + (ck.raw,), lambda r: r, outcome)
        except Stuck as e:
            rep.unsure(name, str(e))
            continue
        n += 1
        looked |= set().union(*[x[2] for x in ws])
        a, b = ws[0], ws[-1]
        if outcome(a[1]) == outcome(b[1]):
            rep.ok(name)
            continue
        if a[1][0] == b[1][0] == 'ok':
            # does it show in the code?
            try:
                tpl.inst.memo = {}
                x = tpl.fill(a[1][2])
                tpl.inst.memo = {}
                y = tpl.fill(b[1][2])
            except Stuck as e:
                rep.unsure(name, str(e))
                continue
            if header(x) == header(y):
                rep.ok(name)
                continue
        rep.violation(name, 'outcome', where, 'the outcome only depends on the schema',
                      'the outcome for %s depends on %s\n  scheme: %s\n  %s\n  or: %s' % (s.label, cause(a[2] | b[2]), s.text(), show(a[1]), show(b[1])))
    rep.coverage['type checker'] = {'schemes': n, 'worlds': len(WORLDS), 'sources_of_nondeterminism_met': sorted(looked)}
    # between them
    pp = pipe.Pipe(rep, prog)
    for label, text, check, gen in (('type error', 'x', lambda a: V(1, ['message\nof the type checker']), None),
                                    ('code', 'x', lambda a: V(0, ['#resolved']), lambda r: '// header\ncode\n'),
                                    ('syntax error', 'T: struct {\n', None, None)):
        def f():
            v, _ = pp.run(text, (lambda x: V(0, [[]])) if check else (lambda x: V(1, [V(0, [V(0, [1, 5, 4]), ('expected',)])])), check, gen)
            return (v.variant, v.f[0] if v.variant == 0 else pp.error_text(v.f[0]))
        try:
            ws = worlds(pp.inst, f, lambda r: r, same)
        except Stuck as e:
            rep.unsure('compile ' + label, str(e))
            continue
        a, b = ws[0], ws[-1]
        if a[1] == b[1]:
            rep.ok('compile ' + label)
        else:
            rep.violation('compile ' + label, 'compile', pp.where, 'the result only depends on the schema',
                          'the result depends on %s: %r or %r' % (cause(a[2] | b[2]), a[1], b[1]))


def show(r):
    return 'accepted with %s' % scheck_show(r[1]) if r[0] == 'ok' else 'rejected with: ' + r[1]


def scheck_show(x):
    return repr(x)[:300]


def outcome(r):
    """what a caller sees of it, without the order of maps"""
    return r[0], plain(r[1])


def plain(v):
    if isinstance(v, dict):
        return ('map', sorted((repr(k), repr(plain(x))) for k, x in v.items()))
    if isinstance(v, V):
        return (v.variant, [plain(x) for x in v.f])
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def family(names, lens):
    out = [s for s in scheck.invalid(names, lens)]
    step = max(1, len(out) // 100)
    out = out[::step]
    ok = [s for s in scheck.valid(names, lens)]
    step = max(1, len(ok) // 60)
    return out + ok[::step] + many()


def many():
    """several mistakes at once"""
    st, ex, S = scheck.st, scheck.ex, scheck.Scheme
    return [
        S('many unknown types', st('A', *[('f%d' % i, 'No%d' % i) for i in range(6)]), st('B', ('x', 'Nope'), ('y', 'Nil')), ex('A')),
        S('many cycles', st('A', ('b', 'B')), st('B', ('a', 'A')), st('C', ('d', 'D')), st('D', ('c', 'C')), st('E', ('e', 'E')), st('T', ('x', 'uint8')), ex('T')),
        S('one long cycle', *[st('N%d' % i, ('n', 'N%d' % ((i + 1) % 5))) for i in range(5)], st('T', ('x', 'N2')), ex('T')),
        S('cycle and unknown', st('A', ('b', 'B'), ('u', 'U')), st('B', ('a', 'A'), ('v', 'V')), st('T', ('x', 'A')), ex('T')),
        S('many wide enums', *[('enum', 'E%d' % k, ['V%d' % i for i in range(33 + k)]) for k in range(4)], st('T', ('x', 'E0'), ('y', 'E3')), ex('T')),
        S('many duplicates', st('A', ('x', 'uint8'), ('x', 'uint8'), ('y', 'int8'), ('y', 'int8')), st('A', ('x', 'uint8')), st('B', ('z', 'uint8'), ('z', 'uint8')), st('B'), ex('A')),
        S('many duplicate declarations', *[st(n, ('x', 'uint8')) for n in ('A', 'B', 'C', 'D', 'B', 'C', 'A', 'D')], ex('A')),
        S('many duplicate fields', st('A', *[(n, 'uint8') for n in 'xyzwyzwxxyzw']), st('B', *[(n, 'A') for n in 'klmnlmnk']), ex('A')),
        S('many duplicate fields later', st('A', *[(n, 'B') for n in 'xyzwyzwxxyzw']), st('B', *[(n, 'C') for n in 'klmnlmnk']), st('C', ('c', 'uint8')), ex('A')),
        S('many duplicate variants', ('enum', 'E', list('ABCDEBCDEA')), ('enum', 'F', list('XYZZYX')), st('A', ('x', 'E')), ex('A')),
        S('many optional arrays', st('A', *[(n, 'uint8', True, True) for n in 'xyzw']), st('B', *[(n, 'A', True, True) for n in 'klm']), ex('A')),
        S('many empty enums', *[('enum', n, []) for n in ('E', 'F', 'G', 'H')], st('A', ('x', 'E')), ex('A')),
        S('many exports', st('A'), st('B'), st('C'), ex('C'), ex('A'), ex('B')),
        S('several mistakes', st('A', ('a', 'None'), ('a', 'Nil')), ('enum', 'E', []), ('enum', 'F', ['V%d' % i for i in range(40)]), st('B', ('b', 'B')), st('C', ('o', 'A', True, True)), ex('Z')),
        *[S('unknown type %s among many' % n, *[st(chr(65 + i) * k, ('x', 'uint8')) for k in range(1, 8) for i in range(3)], st('T', ('x', n), ('y', 'int8')), ex('T'))
          for n in ('Q', 'Qq', 'Qqq', 'Qqqq', 'Qqqqq', 'Qqqqqq', 'Qqqqqqq', 'a', 'AB', 'uint', 'Uint8', 'int')],
        *[S('unknown export %s among many' % n, *[st(chr(65 + i) * k, ('x', 'uint8')) for k in range(1, 8) for i in range(3)], ex(n)) for n in ('Q', 'Qqq', 'Qqqqq', 'AB', 'uint8')],
        S('export of an enum among many', *[st('S%d' % k, ('x', 'uint8')) for k in range(4)], *[('enum', 'E%d' % k, ['A', 'B']) for k in range(4)], ex('E2')),
        S('unused types', *[st('U%d' % k, ('x', 'E%d' % k)) for k in range(5)], *[('enum', 'E%d' % k, ['A', 'B']) for k in range(5)], st('T', ('x', 'U3'), ('y', 'U1')), ex('T')),
        S('deep use', *[st('U%d' % k, ('x', 'U%d' % (k + 1)), ('y', 'E%d' % k)) for k in range(5)], st('U5', ('z', 'string')), *[('enum', 'E%d' % k, ['A', 'B']) for k in range(5)], ex('U0')),
    ]
