"""P17, P18: the language accepted by the grammar."""
import os

import pegram
from pegram import SIGMA, SYM, NSYM, Unsupported
from report import REPO, ROOT

PARSER = 'src/lib/parser.rs'


def grammars(rep):
    path = os.path.join(REPO, PARSER)
    if not os.path.exists(path):
        rep.error('no ' + PARSER)
        return None
    src = open(path, encoding='utf-8').read()
    try:
        g = pegram.find_grammar(src, PARSER)
    except Unsupported as e:
        rep.unsure('grammar', 'construct not modelled: %s' % e)
        return None
    if g is None:
        rep.error('no peg::parser! grammar in ' + PARSER)
        return None
    ref = pegram.find_grammar(open(os.path.join(ROOT, 'spec', 'grammar.peg')).read(), 'spec/grammar.peg')
    if 'schema' not in g.rules:
        rep.error('grammar has no rule schema')
        return None
    return g, ref


def rx(expr):
    """tiny regular expression combinators, as grammar expressions"""
    return expr


def cls(chars):
    return ('cls', frozenset(SYM[c] for c in chars))


def ncls(chars):
    return ('cls', frozenset(i for i in range(NSYM) if SIGMA[i] not in chars))


def seq(*es):
    return ('seq', [(None, e) for e in es], None)


WORD = [c for c in SIGMA if c.isascii() and (c.isalnum() or c == '_')]


class Nfa(pegram.Builder):
    """plain (non-PEG) regular expressions: choice and repetition without guards"""

    def __init__(self):
        class G:
            rules = {}
        super().__init__(G())

    def frag(self, e, k, nodes):
        t = e[0]
        if t == 'alt':
            outs = [self.frag(x, k, nodes) for x in e[1]]
            nodes.append(('s', outs))
            return len(nodes) - 1
        if t == 'rep':
            nodes.append(None)
            head = len(nodes) - 1
            body = self.frag(e[1], head, nodes)
            nodes[head] = ('s', [body, k])
            k = head
            for _ in range(e[2]):
                k = self.frag(e[1], k, nodes)
            return k
        if t == 'opt':
            return self.frag(('alt', [e[1], ('eps',)]), k, nodes)
        return super().frag(e, k, nodes)


def star(e):
    return ('rep', e, 0, None, None)


def plus(e):
    return ('rep', e, 1, None, None)


def alt(*es):
    return ('alt', list(es))


def lit(s):
    return ('lit', s)


def name_slices():
    """canonical layout, one position at a time left completely free"""
    punct = ' \t\r\n:?,{}[]#'
    free = plus(ncls(punct))
    return {
        'declared struct name': seq(free, lit(': struct { ab: uint8 }\n')),
        'declared enum name': seq(free, lit(': enum { Ab }\n')),
        'declared name after other lines': seq(lit('ab: enum { A }\nexport ab\n'), free, lit(': struct { x: uint8 }\n')),
        'field name': seq(lit('ab: struct { '), free, lit(': uint8 }\n')),
        'later field name': seq(lit('ab: struct { cd: uint8, '), free, lit(': uint8, ef: uint8 }\n')),
        'optional field name': seq(lit('ab: struct { '), free, lit('?: uint8 }\n')),
        'array field name': seq(lit('ab: struct { '), free, lit(': uint8[] }\n')),
        'variant': seq(lit('ab: enum { '), free, lit(' }\n')),
        'later variant': seq(lit('ab: enum { A, '), free, lit(', B }\n')),
        'field type name': seq(lit('ab: struct { ab: '), free, lit(' }\n')),
        'array field type name': seq(lit('ab: struct { ab: '), free, lit('[], cd: uint8 }\n')),
        'exported name': seq(lit('export '), free, lit('\n')),
    }


def layout_slice():
    """every word outside comments is one of a few plain ones; anything else is free"""
    words = alt(*[lit(w) for w in ('ab', 'A1', 'uint8', 'enum', 'struct', 'export')])
    nonword = ncls(''.join(WORD) + '#')
    comment = seq(lit('#'), star(ncls('\n')))
    gap = plus(nonword)
    # words never touch each other
    unit = alt(gap, seq(comment, alt(lit('\n'), ('eps',))))
    body = star(alt(unit, seq(words, alt(gap, seq(comment, lit('\n'))))))
    return seq(body, alt(('eps',), words, comment, seq(words, comment)))


def blame(g, ref):
    """rules whose own text differs in language from the reference rule of that name"""
    out = []
    for n in pegram.reachable(ref, 'schema'):
        try:
            m = pegram.norm(g, n)
        except Unsupported:
            continue
        try:
            a = pegram.Builder(g).language(('rule', m))
            b = pegram.Builder(ref).language(('rule', n))
            if pegram.product_diff(a, b) is not None:
                out.append((m, g.line(g.rules[m].pos)))
        except Unsupported:
            pass
    return out


def compare(rep, slices, rule):
    gr = grammars(rep)
    if gr is None:
        return
    g, ref = gr
    try:
        rec = pegram.recursion(g, 'schema')
        if rec:
            rep.unsure('grammar', 'recursive rules: %s' % ', '.join(sorted(rec)))
            return
        bad, _ = pegram.endless_repetitions(g, 'schema')
        if bad:
            rep.unsure('grammar', 'repetition of something that can be empty in %s' % ', '.join(bad))
            return
        A = pegram.Builder(g).language(('rule', 'schema'))
        B = pegram.Builder(ref).language(('rule', 'schema'))
    except Unsupported as e:
        rep.unsure('grammar', 'construct not modelled: %s' % e)
        return
    rules = pegram.reachable(g, 'schema')
    rep.coverage['grammar_rules_analysed'] = len(rules)
    rep.coverage['states_of_grammar_automaton'] = len(A.delta)
    rep.coverage['states_of_specification_automaton'] = len(B.delta)
    rep.coverage['rule'] = rule
    pairs = 0
    for name, e in slices.items():
        S = Nfa().language(e)
        a = pegram.intersect(S, A)
        b = pegram.intersect(S, B)
        pairs += len(a.delta)
        w = pegram.product_diff(a, b)
        if w is None:
            rep.ok(name)
            continue
        txt = pegram.show(w)
        got = None
        q = A.start
        for k in w:
            q = A.delta[q][k]
        got = A.acc[q]
        who = blame(g, ref)
        where = '; '.join('%s:%d (rule %s)' % (PARSER, ln, n) for n, ln in who[:1]) or PARSER
        inner = who[:1] and who[0][0] or 'schema'
        rep.violation(name, '%s/%s/%s' % (rep.prop, name, inner), where, rule,
                      'the grammar %s the text %r, the specification %s it (%s)' % (
                          'accepts' if got else 'rejects', txt, 'rejects' if got else 'accepts', name))
    rep.coverage['automaton_states_compared'] = pairs


def check_P17(rep):
    compare(rep, name_slices(),
            'in every name position the accepted words are exactly those of the lexical rule')


def check_P18(rep):
    compare(rep, {'layout': layout_slice()},
            'with fixed names, the accepted texts are exactly those of the layout rules')
