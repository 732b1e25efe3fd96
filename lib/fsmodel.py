"""File trees and path functions (the vocabulary of the command line analysis)."""
from inst import Inst, V, Stuck, Elem
from terms import *

CWD = '/w'


# ---------------------------------------------------------------- paths (as std::path defines them on Unix)

def comps(p):
    out = []
    if p.startswith('/'):
        out.append(V(1, []))
    for i, s in enumerate(p.split('/')):
        if s == '' or (s == '.' and (i > 0)):
            continue
        out.append(V(2, []) if s == '.' else V(3, []) if s == '..' else V(4, [s]))
    return out


def comp_str(c):
    return {1: '/', 2: '.', 3: '..'}[c.variant] if c.variant != 4 else c.f[0]


def join(a, b):
    if b.startswith('/'):
        return b
    if not a:
        return b
    return a + ('' if a.endswith('/') else '/') + b


def of_comps(cs):
    r = ''
    for c in cs:
        r = join(r, comp_str(c) if isinstance(c, V) else c)
    return r


def file_name(p):
    cs = comps(p)
    return cs[-1].f[0] if cs and cs[-1].variant == 4 else None


def split_name(n):
    """stem and extension"""
    if n is None or n == '..':
        return n, None
    i = n.rfind('.')
    if i <= 0:
        return n, None
    return n[:i], n[i + 1:]


def parent(p):
    cs = comps(p)
    if not cs or cs[-1].variant == 1:
        return None
    return of_comps(cs[:-1])


def with_file_name(p, n):
    if file_name(p) is not None:
        p = parent(p)
    return join(p, n)


def with_extension(p, e):
    n = file_name(p)
    if n is None:
        return p
    stem, _ = split_name(n)
    return with_file_name(p, stem + ('.' + e if e else ''))


def strip_prefix(p, base):
    a, b = comps(p), comps(base)
    if a[:len(b)] != b:
        return None
    return of_comps(a[len(b):])


def resolve(p):
    """absolute path without . and .."""
    out = []
    for c in comps(join(CWD, p)):
        if c.variant == 4:
            out.append(c.f[0])
        elif c.variant == 3 and out:
            out.pop()
    return '/' + '/'.join(out)


def utf8(s):
    return not any(0xD800 <= ord(c) < 0xE000 for c in s)


def opt(v):
    return V(0, []) if v is None else V(1, [v])


class Tree:
    """directories and files with their texts; a set of operations that fail"""

    def __init__(self, nodes, faults=(), order=False):
        self.nodes = {CWD: None, '/': None}
        for p, t in nodes.items():
            q = resolve(p)
            self.nodes[q] = t
            while True:
                q = q.rsplit('/', 1)[0] or '/'
                if q in self.nodes:
                    break
                self.nodes[q] = None
        self.faults = {(o, x if o == 'compile' else resolve(x)) for o, x in faults}
        self.order = order

    def isdir(self, p):
        p = resolve(p)
        return self.nodes.get(p, '') is None and ('stat', p) not in self.faults

    def isfile(self, p):
        p = resolve(p)
        return self.nodes.get(p) is not None and ('stat', p) not in self.faults

    def exists(self, p):
        p = resolve(p)
        return p in self.nodes and ('stat', p) not in self.faults

    def children(self, p):
        q = resolve(p)
        pre = q if q.endswith('/') else q + '/'
        names = sorted(x[len(pre):] for x in self.nodes if x.startswith(pre) and x != q and '/' not in x[len(pre):])
        return names[::-1] if self.order else names

    def blocked(self, q):
        """q is a directory, or a directory above q does not exist and cannot be created"""
        if self.nodes.get(q, '') is None:
            return True
        while '/' in q[1:]:
            q = q.rsplit('/', 1)[0]
            if self.nodes.get(q) is not None or q not in self.nodes and ('mkdir', q) in self.faults:
                return True
        return False

    def listing(self, p):
        out = []
        q = resolve(p)
        for n in self.children(p):
            if ('entry', join(q, n)) in self.faults:
                out.append(V(1, [('err', 'entry')]))
            else:
                out.append(V(0, [('entry', join(p, n))]))
        return out


class FsInst(Inst):
    """derived outcomes of the command, looked at for one file tree"""
    tree = None
    kind = 'Other'
    kind_used = False
    makers = frozenset()     # operations of the program that create directories

    def text(self, v):
        if isinstance(v, tuple) and v[0] == 'handle':
            return v[1]
        if not isinstance(v, str):
            raise Stuck('path %r' % (v,))
        return v

    # operations
    def t_res(self, t, env):
        name, args = t.a
        vs = [self.ev(a, env) for a in args]
        return self.operation(name, vs)

    def operation(self, name, vs):
        tr = self.tree
        err = V(1, [('err', name)])

        def ok(v):
            return V(0, [v])
        if name == 'compile':
            if not isinstance(vs[0], str):
                raise Stuck('compile')
            return err if ('compile', vs[0]) in tr.faults else ok(code(vs[0]))
        if name in ('entry_metadata', 'entry_file_type'):
            return ok(('meta', vs[0][1]))
        if name in ('write_all', 'write_some', 'flush'):
            if not (isinstance(vs[0], tuple) and vs[0][0] == 'handle'):
                raise Stuck('write to %r' % (vs[0],))
            return err if (name != 'flush' and ('write', resolve(vs[0][1])) in tr.faults) else ok(V(0, []))
        if name != 'file_options_open':
            p = self.text(vs[0])
            q = resolve(p)
        if name in ('metadata', 'symlink_metadata'):
            return ok(('meta', p)) if tr.exists(p) else err
        if name == 'read_dir':
            return ok(('dir', p)) if tr.isdir(p) and ('list', q) not in tr.faults else err
        if name in ('read_to_string', 'read'):
            return ok(tr.nodes[q]) if tr.isfile(p) and ('read', q) not in tr.faults else err
        if name == 'file_open':
            return ok(('handle', p)) if tr.exists(p) and ('read', q) not in tr.faults else err
        if name in ('write',):
            return err if ('write', q) in tr.faults or tr.blocked(q) else ok(V(0, []))
        if name == 'file_create':
            return err if ('write', q) in tr.faults or tr.blocked(q) else ok(('handle', p))
        if name == 'file_options_open':
            fl = vs[0][1]
            p = self.text(vs[1])
            q = resolve(p)
            if not (fl.get('write') or fl.get('append')):
                return ok(('handle', p)) if tr.isfile(p) and ('read', q) not in tr.faults else err
            if ('write', q) in tr.faults or tr.blocked(q) or (q not in tr.nodes and not (fl.get('create') or fl.get('create_new'))) \
                    or (q in tr.nodes and fl.get('create_new')):
                return err
            return ok(('handle', p))
        if name == 'create_dir_all':
            return err if tr.blocked(q + '/') or tr.isfile(p) else ok(V(0, []))
        if name == 'create_dir':
            if q in tr.nodes:
                return err
            up = q.rsplit('/', 1)[0] or '/'
            if up not in tr.nodes and self.makers != {'create_dir'}:
                raise Stuck('create_dir')
            return err if up not in tr.nodes or tr.blocked(q + '/') else ok(V(0, []))
        if name == 'canonicalize':
            return ok(q) if tr.exists(p) else err
        if name in ('exists', 'try_exists'):
            return ok(tr.exists(p))
        if name in ('rename', 'copy'):
            return err if ('write', resolve(self.text(vs[1]))) in tr.faults else ok(V(0, []))
        if name in ('remove_file', 'remove_dir_all', 'remove_dir'):
            return ok(V(0, [])) if tr.exists(p) else err
        raise Stuck('operation %s' % name)

    PATHF = {
        'path_extension': lambda s, p: opt(split_name(file_name(p))[1]),
        'path_file_stem': lambda s, p: opt(split_name(file_name(p))[0]),
        'path_file_name': lambda s, p: opt(file_name(p)),
        'path_parent': lambda s, p: opt(parent(p)),
        'path_to_str': lambda s, p: opt(p if utf8(p) else None),
        'path_to_string_lossy': lambda s, p: ''.join('�' if 0xD800 <= ord(c) < 0xE000 else c for c in p),
        'path_display': lambda s, p: p,
        'path_with_extension': lambda s, p, e: with_extension(p, e),
        'path_with_file_name': lambda s, p, n: with_file_name(p, n),
        'path_join': lambda s, p, n: join(p, n),
        'path_strip_prefix': lambda s, p, b: V(1, [('err', 'prefix')]) if strip_prefix(p, b) is None else V(0, [strip_prefix(p, b)]),
        'path_starts_with': lambda s, p, b: strip_prefix(p, b) is not None,
        'path_ends_with': lambda s, p, b: (comps(p)[len(comps(p)) - len(comps(b)):] == comps(b)) if len(comps(b)) <= len(comps(p)) else False,
        'path_is_absolute': lambda s, p: p.startswith('/'),
        'path_has_root': lambda s, p: p.startswith('/'),
        'path_is_relative': lambda s, p: not p.startswith('/'),
        'path_is_dir': lambda s, p: s.tree.isdir(p),
        'path_is_file': lambda s, p: s.tree.isfile(p),
        'path_exists': lambda s, p: s.tree.exists(p),
        'path_try_exists': lambda s, p: V(0, [s.tree.exists(p)]),
        'path_is_symlink': lambda s, p: False,
        'os_into_string': lambda s, p: V(0, [p]) if utf8(p) else V(1, [p]),
        'components': lambda s, p: comps(p),
    }

    def t_app(self, t, env):
        name, args = t.a
        f = self.PATHF.get(name)
        if f:
            vs = [self.text(self.ev(a, env)) for a in args]
            return f(self, *vs)
        if name in ('entry_path', 'entry_file_name'):
            e = self.ev(args[0], env)
            if not (isinstance(e, tuple) and e[0] == 'entry'):
                raise Stuck(name)
            return e[1] if name == 'entry_path' else file_name(e[1])
        if name == 'comp_as_os_str':
            return comp_str(self.ev(args[0], env))
        if name in ('error_downcast_ref', 'error_is', 'error_downcast'):
            e = self.ev(args[0], env)
            ty = self.ev(args[1], env)
            if not (isinstance(e, tuple) and e[0] == 'err'):
                raise Stuck(name)
            is_io = e[1] not in ('compile', 'message', 'prefix', 'exit')
            if ty.split('::')[-2:] != ['io', 'Error'] and not ty.endswith('io::error::Error'):
                if is_io or e[1] in ('message', 'compile'):
                    raise Stuck('kind of error')
            yes = is_io and ty.endswith('Error') and 'io' in ty
            return yes if name == 'error_is' else opt(e if yes else None) if name.endswith('ref') else V(0 if yes else 1, [e])
        if name == 'error_kind':
            e = self.ev(args[0], env)
            if not (isinstance(e, tuple) and e[0] == 'err'):
                raise Stuck(name)
            self.kind_used = True
            ty = next((t for t in self.eng.p.types if t.get('path', '').split('::')[-1] == 'ErrorKind' and t.get('variants')), None)
            names = [v['name'] for v in ty['variants']] if ty else []
            if self.kind not in names:
                raise Stuck(name)
            return V(names.index(self.kind), [])
        if name.startswith('meta_') or name.startswith('ftype_'):
            m = self.ev(args[0], env)
            if not (isinstance(m, tuple) and m[0] == 'meta'):
                raise Stuck(name)
            what = name.split('_', 1)[1]
            if what == 'is_dir':
                return self.tree.isdir(m[1])
            if what == 'is_file':
                return self.tree.isfile(m[1])
            if what == 'is_symlink':
                return False
            if what == 'file_type':
                return m
            if what == 'len' and self.tree.isfile(m[1]):
                return len(self.tree.nodes[resolve(m[1])].encode())
            raise Stuck(name)
        return Inst.t_app(self, t, env)

    def t_pathof(self, t, env):
        return of_comps(self.items(t.a[0], env))

    def t_listing(self, t, env):
        d = self.ev(t.a[0], env)
        if not (isinstance(d, tuple) and d[0] == 'dir'):
            raise Stuck('listing')
        return self.tree.listing(d[1])

    def t_oopts(self, t, env):
        return ('options', {n: self.ev(b, env) for n, b in t.a[0]})

    def t_conv(self, t, env):
        return self.ev(t.a[1], env)

    def t_anyhow(self, t, env):
        return ('err', 'message')

    def t_display(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, tuple):
            return str(v)
        return Inst.t_display(self, t, env)

    def t_exitcode(self, t, env):
        c = self.ev(t.a[0], env)
        return V(0, [V(0, [])]) if c == 0 else V(1, [('err', 'exit')])

    # callbacks
    def bind(self, formal, actual, env, out):
        f = formal
        while f.t == 'vref':
            f = f.a[0]
        if f.t == 'symfn':
            a = actual
            while a.t == 'vref':
                a = a.a[0]
            if a.t == 'symfn':
                out['#cb'] = env.get('#cb')
            else:
                out['#cb'] = (self.calling, env)
            return
        return Inst.bind(self, formal, actual, env, out)

    def call1(self, call, env):
        site, _ = self.site(call)
        old = getattr(self, 'calling', None)
        self.calling = site
        try:
            return Inst.call1(self, call, env)
        finally:
            self.calling = old

    def t_cbres(self, t, env):
        cb = env.get('#cb')
        if cb is None:
            raise Stuck('callback')
        site, cenv = cb
        fun = self.eng.cbfun.get(site)
        if fun is None:
            raise Stuck('callback')
        e, alts = fun
        env2 = dict(cenv)
        env2[e] = Elem(self.ev(t.a[1][0], env), 0, [])
        for facts, r, taint in alts:
            if self.guard(facts, env2):
                if taint:
                    raise Stuck('callback depends on %s' % sorted(taint)[0])
                return self.ev(r, env2)
        raise Stuck('callback')

    def t_cbcalls(self, t, env):
        run = self.call(t.a[0], env)
        return [e[2][1] for e in self.events(run, True) if e[1] == 'callback']

    # events
    def t_symfn(self, t, env):
        return ('symfn',)

    def t_ev(self, t, env):
        name, vals = t.a[0], t.a[1]
        site = t.a[3] if len(t.a) > 3 else None
        if name == 'rec':
            return ('ev', 'rec', self.call(vals[0], env), site)
        if name == 'print':
            return ('ev', 'print', [], site)
        return ('ev', name, [self.ev(v, env) for v in vals], site)

    def events(self, run, callbacks=False):
        out = []
        for e in self.segs(run['st'].mem[absint_EV].a, run['env']):
            if e[1] == 'rec':
                out += self.events(e[2], callbacks)
            elif e[1] == 'callback' and not callbacks:
                continue
            else:
                out.append(e)
        return out


import absint  # noqa: E402
absint_EV = absint.EV


def code(t):
    return 'CODE<%s>' % t
