"""P10-P14, P25 and the type checker's part of P02, P03, P05, P08, P15."""
import re
import gentpl
import scheck
import report
import pipe
from inst import Stuck, BUILTINS


class Eval:
    """outcomes of the derived type checker for the schemes of a family"""

    def __init__(self, rep, prog=None):
        self.rep = rep
        self.prog = prog or gentpl.dump()
        self.ck = scheck.Checker(self.prog)
        self.names, self.lens = self.ck.hints()
        self.pipe = pipe.pipe_or_none(rep, self.prog)
        if self.pipe:
            self.names |= {n for n in self.pipe.names if re.fullmatch(r'[A-Za-z_]\w*', n)}
        self.through = 0
        self.stuck = 0
        self.n = 0
        e = self.ck.eng
        b = self.prog.bodies[self.ck.bid]
        rep.coverage.setdefault('analysed', {})
        rep.coverage['analysed']['type checker'] = {
            'root': b['path'], 'outcomes': len(self.ck.sm['outs']),
            'recursive_functions': {self.prog.bodies[h]['path']: len(self.ck.inst.summary(h)['outs']) for h in e.rec},
            'loops_summarised': len([k for k, v in e.loops_seen.items() if v]), 'loops_not_summarised': len(e.loop_fail),
            'unmodelled_functions': sorted(e.unknown), 'names_in_conditions': sorted(self.names), 'lengths_in_conditions': sorted(self.lens)}
        rep.assumptions += ['library functions behave as modelled (collections, iterators, string formatting)',
                            'the derived outcome conditions are compared with the rules of the language on a finite family of schema schemes, '
                            'extended by every name and length the conditions mention']

    def run(self, schemes):
        for s in schemes:
            ref = scheck.reference(s)
            try:
                r = self.ck.result(s)
            except Stuck as e:
                self.stuck += 1
                self.rep.unsure('scheme ' + s.label, str(e))
                continue
            self.n += 1
            # what compile makes of it
            out = self.pipe and self.pipe.verdict(s.source(), self.ck.ast(s), r)
            if out is not None:
                self.through += 1
                r = out
            yield s, ref, r

    def done(self, what):
        self.rep.coverage.setdefault('schemes', {})[what] = {'decided': self.n, 'undecided': self.stuck, 'followed_through_compile': self.through}

    def where(self):
        b = self.prog.bodies[self.ck.bid]
        sp = b['ispan']
        return '%s:%s (%s)' % (sp[0], sp[1], b['path'].split('::')[-1])


def show(r):
    if r[0] == 'ok':
        return 'accepted'
    if r[0] == 'err':
        return 'rejected with: ' + r[1]
    return 'no result: ' + r[1]


def rejected(rep, kinds, rule):
    ev = Eval(rep)
    for s, ref, r in ev.run([x for x in scheck.invalid(ev.names, ev.lens)
                             if scheck.reference(x)[0] == 'err' and {k for k, _ in scheck.reference(x)[1]} & kinds]):
        mine = [k for k, _ in ref[1] if k in kinds]
        if r[0] == 'err':
            rep.ok('scheme ' + s.label)
        else:
            rep.violation('scheme ' + s.label, '%s: %s' % (mine[0], 'accepted' if r[0] == 'ok' else 'no result'), ev.where(), rule,
                          'a schema with this mistake is not rejected (%s)\n  mistake: %s\n  scheme: %s' % (
                              show(r), ', '.join('%s %s' % (k, n) for k, n in ref[1]), s.text()))
    ev.done('invalid')
    return ev


def check_P10(rep):
    rejected(rep, {'duplicate declaration', 'duplicate field', 'duplicate variant'}, 'duplicate names are rejected')


def check_P11(rep):
    ev = rejected(rep, {'no export', 'several exports', 'unknown export', 'export of no struct'}, 'exactly one export, naming a declared struct')
    base = [scheck.st('Za', ('a', 'uint8'), ('b', 'Mb')), scheck.st('Mb', ('c', 'Ec')), ('enum', 'Ec', ['One', 'Two'])]
    fam = []
    for pos in range(4):
        for n in ('Za', 'Mb'):
            ds = list(base)
            ds.insert(pos, scheck.ex(n))
            fam.append(scheck.Scheme('export of %s at %d' % (n, pos), *ds))
    for s, ref, r in ev.run(fam):
        if r[0] == 'ok':
            if export_name(r) == ref[2]:
                rep.ok('scheme ' + s.label)
            else:
                rep.violation('scheme ' + s.label, 'wrong export', ev.where(), 'the exported type is the one the export names',
                              'exported %s\n  scheme: %s' % (export_name(r), s.text()))
        else:
            rep.violation('scheme ' + s.label, 'export position', ev.where(), 'the export may appear anywhere', '%s\n  scheme: %s' % (show(r), s.text()))
    ev.done('export positions')


def check_P12(rep):
    rejected(rep, {'unknown type', 'recursive type'}, 'unknown and recursive types are rejected')


def check_P13(rep):
    rejected(rep, {'empty enum', 'large enum', 'optional array'}, 'bad enums and optional arrays are rejected')


def check_P14(rep):
    ev = Eval(rep)
    for s, ref, r in ev.run(scheck.valid(ev.names, ev.lens)):
        assert ref[0] == 'ok', s.text()
        if r[0] == 'ok':
            rep.ok('scheme ' + s.label)
        else:
            skel = re.sub(r"\w*[0-9A-Z_]\w*", '_', r[1]) if r[0] == 'err' else 'no result'
            rep.violation('scheme ' + s.label, 'valid schema: ' + skel, ev.where(), 'every valid schema is accepted',
                          '%s\n  scheme: %s' % (show(r), s.text()))
    ev.done('valid')


def check_P25(rep):
    ev = Eval(rep)
    skels = {}
    for s, ref, r in ev.run(scheck.invalid(ev.names, ev.lens)):
        if ref[0] != 'err' or r[0] != 'err':
            if r[0] == 'ok' and ref[0] == 'err':
                rep.unsure('scheme ' + s.label, 'accepted, so there is no message')
            elif r[0] == 'none':
                rep.unsure('scheme ' + s.label, 'no result, so there is no message')
            continue
        words = set(re.findall(r'\w+', r[1]))
        ok = []
        for kind, names in ref[1]:
            if kind == 'recursive type':
                good = any(n in words for n in names)
            else:
                good = all(n in words for n in names)
            if good:
                ok.append(kind)
        if not ok:
            kind, names = ref[1][0]
            rep.violation('scheme ' + s.label, 'culprit: ' + kind, ev.where(), 'the message names what is wrong',
                          'mistake: %s %s\n  message: %s\n  scheme: %s' % (kind, names, r[1], s.text()))
            continue
        rep.ok('scheme ' + s.label)
        if len(ref[1]) == 1:
            sk = r[1]
            for n in sorted({x for it in s.items for x in names_of(it)}, key=len, reverse=True):
                sk = re.sub(r'\b%s\b' % re.escape(n), '·', sk)
            sk = re.sub(r'\d+', '#', sk)
            skels.setdefault(sk, {}).setdefault(ref[1][0][0], (s, r[1]))
    for sk, kinds in sorted(skels.items()):
        if len(kinds) > 1:
            ks = sorted(kinds)
            rep.violation('kinds', 'kind: ' + ' / '.join(ks), ev.where(), 'each kind of mistake is reported as that kind',
                          'the same message is used for %s\n  %s' % (' and '.join(ks), '\n  '.join('%s: %s' % (k, kinds[k][1]) for k in ks)))
        else:
            rep.ok('message "%s"' % sk)
    ev.done('invalid')


def names_of(it):
    yield it[1]
    if it[0] == 'enum':
        yield from it[2]
    if it[0] == 'struct':
        for f in it[2]:
            yield f[0]
            yield f[1]


# ---------------------------------------------------------------- the resolved schema

def export_name(r):
    e = r[1].get('export') if isinstance(r[1], dict) else None
    return e.get('name') if isinstance(e, dict) else None


def expected(s):
    kinds = {i[1]: i for i in s.items if i[0] != 'export'}
    return kinds


def compare(s, ref, r, out):
    """differences between the resolved schema and the scheme: out.append((category, key, what))"""
    kinds = expected(s)
    d = r[1]
    try:
        types, export = d['types'], d['export']
        keys = {k for k in types if k not in BUILTINS}
    except (KeyError, TypeError):
        raise Stuck('form of the resolved schema')
    want = {n for n in ref[1] if n not in BUILTINS}
    if keys - want:
        out.append(('reach', 'unused type kept', 'types kept: %s, reachable: %s' % (sorted(keys), sorted(want))))
    if want - keys:
        out.append(('reach', 'used type dropped', 'types kept: %s, reachable: %s' % (sorted(keys), sorted(want))))
    if export['name'] != ref[2]:
        out.append(('reach', 'export name', 'export is %s instead of %s' % (export['name'], ref[2])))
    seen = set()

    def struct(fs, name, depth=0):
        decl = kinds[name][2]
        got = [f['name'] for f in fs]
        if got != [f[0] for f in decl]:
            out.append(('order', 'fields of a struct', 'struct %s has fields %s instead of %s' % (name, got[:10], [f[0] for f in decl][:10])))
            return
        for f, g in zip(decl, fs):
            if g['type'][0] != f[1]:
                out.append(('type', 'type of a field', 'field %s of %s has type %s instead of %s' % (f[0], name, g['type'][0], f[1])))
            else:
                typ(g['type'], depth + 1)
            if bool(g['array']) != f[2] or bool(g['optional']) != f[3]:
                out.append(('type', 'modifiers of a field', 'field %s of %s: array=%s optional=%s instead of %s, %s' % (f[0], name, g['array'], g['optional'], f[2], f[3])))

    def typ(t, depth=0):
        n, v = t
        if depth == 0:
            pass
        elif n in seen:
            return
        seen.add(n)
        k, a = v
        if n in BUILTINS:
            if k != 'Builtin' or a[0][0].lower() != n:
                out.append(('type', 'builtin', '%s resolved to %s' % (n, v)))
            return
        if n not in kinds:
            out.append(('type', 'undeclared', '%s' % n))
            return
        if k.lower() != kinds[n][0]:
            out.append(('type', 'kind', '%s resolved as %s' % (n, k)))
            return
        if k == 'Struct':
            struct(a[0]['fields'], n, depth)
        else:
            vs = kinds[n][2]
            e = a[0]
            if [x['name'] for x in e['variants']] != vs:
                out.append(('enum', 'variants', 'variants of %s: %s' % (n, [x['name'] for x in e['variants']][:8])))
            if [x['value'] for x in e['variants']] != list(range(len(vs))):
                out.append(('enum', 'values', 'bit positions of an enum with %d variants: %s' % (len(vs), [x['value'] for x in e['variants']])))
            w = 'u8' if len(vs) <= 8 else 'u16' if len(vs) <= 16 else 'u32'
            if e['repr'][0].lower() != w:
                out.append(('enum', 'width', 'an enum with %d variants is stored as %s' % (len(vs), e['repr'][0])))
    try:
        for k, t in types.items():
            if t[0] != k:
                out.append(('type', 'name of a type', '%s is stored as %s' % (t[0], k)))
            typ(t)
        if ref[2] in kinds:
            struct(export['struct']['fields'], ref[2])
    except (KeyError, TypeError, IndexError) as e:
        raise Stuck('form of the resolved schema: %r' % (e,))


def resolved(rep, prog, cat, rule, pick=None):
    ev = Eval(rep, prog)
    fam = scheck.valid(ev.names, ev.lens)
    if pick:
        fam = [x for x in fam if pick(x)]
    for s, ref, r in ev.run(fam):
        if r[0] != 'ok':
            rep.unsure('scheme ' + s.label, 'not accepted')
            continue
        out = []
        try:
            compare(s, ref, r, out)
        except Stuck as e:
            rep.unsure('scheme ' + s.label, str(e))
            continue
        bad = [o for o in out if o[0] in cat]
        for _, key, what in bad[:3]:
            rep.violation('scheme ' + s.label, 'resolved: ' + key, ev.where(), rule, what + '\n  scheme: ' + s.text())
        if not bad:
            rep.ok('scheme ' + s.label)
    ev.done('resolved')


def field_order(rep, prog):
    resolved(rep, prog, {'order'}, 'the resolved fields of a struct are its declared fields in order', lambda x: not x.label.startswith('enum of'))


def enum_values(rep, prog):
    resolved(rep, prog, {'enum'}, 'variant i has bit position i and the width follows from the number of variants',
             lambda x: 'enum' in x.label or 'variants' in x.label or x.label.startswith('small'))


def reachable_only(rep, prog):
    resolved(rep, prog, {'reach', 'type'}, 'the resolved schema has exactly the reachable types, each as declared')


def modifiers(rep, prog):
    resolved(rep, prog, {'type'}, 'the resolved fields have the declared types and modifiers', lambda x: 'field' in x.label or x.label.startswith('small'))
