"""Models of the standard library functions used by (or likely to be used by) the analysed code.

A model maps (engine, state, argument values, callee, return type, call site) to
a list of (state, value) outcomes.  Everything not listed here is either
analysed from its own MIR or treated as unknown.
"""
from terms import *
from absint import *
import re

import absint

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def simple(*names):
    """pure model: f(engine, state, dereferenced args) -> value"""
    def deco(f):
        def g(eng, st, args, c, rty, site):
            return [(st, f(eng, st, *[eng.deref(st, a) for a in args]))]
        for n in names:
            M[n] = g
        return f
    return deco


def ty_of(eng, c, i=0):
    """i-th type argument with references stripped"""
    if i >= len(c['args']):
        return None
    t = eng.p.types[c['args'][i]]
    while t['k'] == 'ref':
        t = eng.p.types[t['t']]
    return t


# ---------------------------------------------------------------- identities

def ident(eng, st, args, c, rty, site):
    return [(st, args[0])]


for n in ['std::rc::Rc::new', 'std::boxed::Box::new', 'std::cell::RefCell::new', 'std::cell::Cell::new', 'std::boxed::Box::pin',
          'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow',
          'std::borrow::BorrowMut::borrow_mut', 'std::hint::must_use', 'std::hint::black_box', 'std::convert::identity',
          'std::string::String::as_str', 'std::string::String::as_mut_str', 'std::string::String::into_boxed_str',
          'std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::str::<impl str>::as_bytes',
          'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::vec::Vec::into_boxed_slice',
          'core::slice::<impl [T]>::as_ref', 'std::slice::<impl [T]>::into_vec', 'std::slice::<impl [T]>::to_vec',
          'std::path::Path::new', 'std::path::PathBuf::as_path', 'std::path::Path::as_os_str', 'std::path::PathBuf::into_os_string',
          'std::rc::Rc::clone', 'std::mem::ManuallyDrop::new', 'std::path::PathBuf::into_boxed_path',
          'std::cell::RefCell::into_inner', 'std::boxed::Box::leak', 'std::path::Path::to_path_buf', 'std::ffi::OsStr::to_os_string',
          'std::ffi::OsString::as_os_str', 'core::str::<impl str>::to_owned', 'std::str::<impl str>::into_string',
          'std::iter::Iterator::fuse', 'std::iter::Iterator::into_iter', 'std::cell::Ref::clone',
          'std::string::String::into_string', 'std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut',
          'std::cell::RefCell::get_mut', 'std::iter::Iterator::by_ref_']:
    M[n] = ident


def copy_value(eng, st, args, c, rty, site):
    """clone / to_owned / copied: same value, own storage"""
    v = args[0]
    x = eng.deref1(st, v)
    # clone of a reference to a reference keeps the inner reference
    return [(st, x)]


for n in ['std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned']:
    M[n] = copy_value


@model('std::slice::<impl [T]>::to_vec', 'core::slice::<impl [T]>::to_vec', 'std::path::Path::to_path_buf',
       'std::slice::<impl [T]>::into_vec', 'core::str::<impl str>::to_owned')
def to_vec(eng, st, args, c, rty, site):
    return [(st, eng.deref(st, args[0]))]


@model('std::convert::From::from', 'std::convert::Into::into')
def conv(eng, st, args, c, rty, site):
    a = ty_of(eng, c, 0)
    b = ty_of(eng, c, 1)
    if c['name'] == 'from':
        dst, src = a, b
    else:
        dst, src = b, a
    v = args[0]
    if dst is None or src is None:
        return None
    if dst['name'] == src['name']:
        return [(st, v)]
    dk = absint.kind_of(dst)
    sk = absint.kind_of(src)
    d = eng.deref(st, v)
    if dk in ('str', 'path') or dst.get('path') in ('std::ffi::OsString', 'std::boxed::Box'):
        if src['k'] == 'char':
            return [(st, char_str(d))]
        if sk in ('str', 'path', 'adt', 'box', 'cow'):
            return [(st, as_str(d) if dk == 'str' and d.t != 'top' else d)]
    if dk == 'vec' and sk == 'vec':
        return [(st, as_list(d))]
    if dk in ('map', 'set') and sk == 'vec':
        s = st.fork()
        return collect_into(eng, s, mk('it', as_list(d).a), dk, site)
    if dst['k'] == 'int' or dst['k'] == 'char':
        return [(st, d)]
    if dk == 'option':
        return [(st, Some(v))]
    if dk in ('rc', 'box'):
        return [(st, v)]
    if c.get('inst', -1) >= 0:
        return None
    return [(st, mk('conv', dst.get('path', dst['name']), eng.deep(st, v)))]


def char_str(v):
    if v.t == 'chr':
        return Str(chr(v.a[0]))
    return Str(mk('ch', v))


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def deref(eng, st, args, c, rty, site):
    v = eng.deref1(st, args[0])
    if v.t in ('ref', 'vref'):
        return [(st, v)]
    return [(st, args[0])]


@model('std::boxed::Box::new_uninit')
def box_uninit(eng, st, args, c, rty, site):
    st = st.fork()
    cell = eng.cell()
    st.mem[cell] = UNDEF
    return [(st, mk('boxu', mk('ref', cell, ())))]


@model('std::boxed::box_assume_init_into_vec_unsafe', 'std::boxed::Box::assume_init')
def box_into_vec(eng, st, args, c, rty, site):
    v = args[0]
    if v.t == 'boxu':
        v = eng.deref(st, v.a[0])
    while v.t == 'tup' and v.a:
        v = v.a[-1] if v.a[-1].t != 'undef' else v.a[0]
    return [(st, v)]


@model('std::boxed::Box::write')
def box_write(eng, st, args, c, rty, site):
    return [(st, args[1])]


@model('std::default::Default::default')
def default(eng, st, args, c, rty, site):
    t = ty_of(eng, c, 0)
    if t is None:
        return None
    k = absint.kind_of(t)
    if k == 'str' or t.get('path', t.get('name', '')).split('::')[-1] in ('OsStr', 'OsString', 'str'):
        return [(st, Str())]
    if k == 'vec':
        return [(st, List())]
    if k in ('map', 'set'):
        return [(st, mk('map', ()))]
    if k == 'option':
        return [(st, NONE)]
    if t['k'] == 'int':
        return [(st, Int(0))]
    if t['k'] == 'bool':
        return [(st, FALSE)]
    if k == 'path':
        return [(st, Str())]
    return None


# ---------------------------------------------------------------- not determined by the input

def source(name):
    def f(eng, st, args, c, rty, site):
        vals = tuple(eng.deep(st, a) for a in args)
        if any(contains_top(v) for v in vals) or rty is None:
            return [(st, top(name))]
        return [(st, absint.nondet(eng, name, vals, rty))]
    return f


for n in ['chrono::offset::utc::Utc::now', 'chrono::offset::local::Local::now', 'chrono::Utc::now', 'chrono::Local::now', 'std::time::SystemTime::now',
          'std::time::Instant::now', 'std::process::id', 'std::env::vars', 'std::env::args', 'std::env::current_dir', 'std::env::var',
          'std::env::var_os', 'std::env::vars_os', 'std::env::args_os', 'std::env::current_exe', 'std::env::temp_dir', 'std::env::home_dir',
          'std::thread::current', 'std::hash::RandomState::new', 'std::collections::hash_map::RandomState::new', 'std::hash::random::RandomState::new',
          'std::thread::available_parallelism', 'std::time::Instant::elapsed', 'std::time::SystemTime::elapsed']:
    M[n] = source(n)


for n in ['std::time::SystemTime::duration_since', 'std::time::Instant::duration_since']:
    # whatever the other time is
    M[n] = lambda eng, st, args, c, rty, site, n=n: source(n)(eng, st, args[:1], c, rty, site)


for n in ['std::rc::Rc::as_ptr', 'std::sync::Arc::as_ptr']:
    M[n] = lambda eng, st, args, c, rty, site, n=n: [(st, mk('ndi', n, (eng.deep(st, args[0]),), rty))]


def cellref(eng, st, a):
    """reference to the content of a cell"""
    while True:
        if a.t != 'ref':
            return a
        v = eng.load(st, a.a[0], a.a[1])
        if v.t in ('ref', 'vref'):
            a = v
        else:
            return a


def cell_op(what):
    def f(eng, st, args, c, rty, site):
        r = cellref(eng, st, args[0])
        old = eng.deref(st, r)
        if what == 'get':
            return [(st, old)]
        st = st.fork()
        if r.t != 'ref':
            return [(eng.tainted(st, 'cell'), top('cell'))]
        new = None
        if what in ('set', 'swap'):
            new = eng.deref(st, args[1])
        elif what == 'add':
            new = lin(0, ((old, 1), (eng.deref(st, args[1]), 1)))
        elif what == 'sub':
            new = lin(0, ((old, 1), (eng.deref(st, args[1]), -1)))
        elif what == 'take':
            new = default_of(eng, c['args'][0]) if c['args'] else None
        if new is None:
            new = top('cell')
        if old.t == 'top' or contains_top(new):
            new = top('cell')
        eng.store(st, r.a[0], r.a[1], new)
        return [(st, UNIT if what == 'set' else old)]
    return f


def default_of(eng, ty):
    t = eng.p.types[ty]
    k = absint.kind_of(t)
    if t['k'] == 'int':
        return Int(0)
    if t['k'] == 'bool':
        return Bool(False)
    if k == 'str':
        return Str()
    if k == 'vec':
        return List()
    if k == 'option':
        return NONE
    return None


M['std::cell::Cell::get'] = cell_op('get')
M['std::cell::Cell::set'] = cell_op('set')
M['std::cell::Cell::replace'] = M['std::cell::RefCell::replace'] = cell_op('swap')
M['std::cell::Cell::take'] = M['std::cell::RefCell::take'] = cell_op('take')
for n, k in [('load', 'get'), ('store', 'set'), ('swap', 'swap'), ('fetch_add', 'add'), ('fetch_sub', 'sub')] + [
        (x, 'other') for x in ('fetch_or', 'fetch_and', 'fetch_xor', 'fetch_nand', 'fetch_max', 'fetch_min')]:
    for t in ['Atomic', 'AtomicBool', 'AtomicUsize', 'AtomicU8', 'AtomicU16', 'AtomicU32', 'AtomicU64', 'AtomicIsize', 'AtomicI32', 'AtomicI64', 'AtomicI8', 'AtomicI16']:
        M['std::sync::atomic::%s::%s' % (t, n)] = cell_op(k)


def locked(eng, st, args, c, rty, site):
    r = cellref(eng, st, args[0])
    return [(st, Ok(r))] if r.t == 'ref' else [(eng.tainted(st, 'lock'), top('lock'))]


for n in ['Mutex::lock', 'Mutex::try_lock', 'RwLock::read', 'RwLock::write', 'RwLock::try_read', 'RwLock::try_write']:
    M['std::sync::' + n] = M['std::sync::poison::%s::%s' % (n.split('::')[0].lower(), n)] = locked


def local_cell(eng, st, args, c):
    """thread local: its content outlives the call"""
    k = eng.deep(st, args[0])
    t = eng.p.types[c['args'][0]]
    return mk('ref', ('static', 'thread local %s' % (t['name'],), c['args'][0]), ())


def local_key(what):
    def f(eng, st, args, c, rty, site):
        r = local_cell(eng, st, args, c)
        if what == 'with':
            return eng.call_value(args[1], [r], st, rty, site)
        return cell_op(what)(eng, st, [r] + list(args[1:]), c, rty, site)
    return f


for n, k in [('with', 'with'), ('with_borrow', 'with'), ('with_borrow_mut', 'with'), ('get', 'get'), ('set', 'set'), ('replace', 'swap'), ('take', 'take')]:
    M['std::thread::LocalKey::' + n] = M['std::thread::local::LocalKey::' + n] = local_key(k)


def once(eng, st, args, c, rty, site):
    """initialised by the first call that gets here: what it is then stays for the later ones"""
    r = args[0]
    while r.t == 'ref' and r.a[0][0] != 'static':
        v = eng.load(st, r.a[0], r.a[1])
        if v.t != 'ref':
            break
        r = v
    f = eng.deref(st, args[1])
    plain = f.t == 'fn' or f.t == 'clo' and not f.a[1]
    if r.t == 'ref' and r.a[0][0] == 'static' and not plain:
        eng.static_writes.add('static ' + r.a[0][1])
        return [(st, Vref(absint.nondet(eng, 'static ' + r.a[0][1], (), rty)))]
    if plain:
        return [(s, Vref(v) if v.t not in ('ref', 'vref') else v) for s, v in eng.call_value(args[1], [], st, None, site)]
    return [(eng.tainted(st, 'once'), top('once'))]


for n in ['std::sync::OnceLock::get_or_init', 'std::sync::once_lock::OnceLock::get_or_init', 'std::cell::OnceCell::get_or_init',
          'std::cell::once::OnceCell::get_or_init']:
    M[n] = once

# ---------------------------------------------------------------- panics


def diverges(what):
    def f(eng, st, args, c, rty, site):
        msg = None
        for a in args:
            v = eng.deref(st, a)
            if v.t == 'str':
                msg = v
        if not eng.quiet:
            eng.panics.append({'fn': site[0], 'crate': None, 'span': site[1], 'what': what, 'cond': msg, 'st': st,
                               'stack': tuple(eng.stack)})
        return []
    return f


for n in ['std::rt::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic', 'core::panicking::panic_fmt',
          'core::panicking::panic_display', 'core::panicking::panic_str_2015', 'core::panicking::unreachable_display',
          'core::panicking::panic_explicit', 'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt',
          'core::panicking::assert_failed', 'core::panicking::panic_bounds_check', 'std::option::unwrap_failed',
          'std::option::expect_failed', 'std::result::unwrap_failed', 'std::result::unwrap_failed::unwrap_failed_inner',
          'core::str::slice_error_fail', 'core::slice::index::slice_index_fail', 'std::process::abort',
          'std::intrinsics::abort', 'core::option::unwrap_failed', 'core::option::expect_failed',
          'core::result::unwrap_failed', 'core::panicking::panic_const::panic_const_add_overflow']:
    M[n] = diverges(n)


@model('std::process::exit')
def p_exit(eng, st, args, c, rty, site):
    if not eng.quiet:
        eng.exits.append((st, args[0], site))
    return []


# ---------------------------------------------------------------- formatting

def decode_template(bs):
    """rt format template -> list of literal str | dict placeholder"""
    i = 0
    out = []
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b & 0xC0 == 0xC0:
            ph = {'flags': None, 'width': None, 'prec': None}
            if b & 1:
                ph['flags'] = int.from_bytes(bytes(bs[i:i + 4]), 'little')
                i += 4
            if b & 2:
                ph['width'] = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
            if b & 4:
                ph['prec'] = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
            if b & 8:
                nxt = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
            ph['windirect'] = bool(b & 16)
            ph['pindirect'] = bool(b & 32)
            ph['arg'] = nxt
            nxt += 1
            out.append(ph)
        else:
            if b == 0x80:
                n = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
            else:
                n = b
            out.append(bytes(bs[i:i + n]).decode())
            i += n
    return out


@model('std::fmt::Arguments::new')
def fmt_new(eng, st, args, c, rty, site):
    tpl = eng.deref(st, args[0])
    av = eng.deref(st, args[1])
    try:
        bs = [const_int(s.a[0]) for s in tpl.a]
        pieces = decode_template(bs)
        fargs = [s.a[0] for s in av.a]
        parts = []
        for p in pieces:
            if isinstance(p, str):
                parts.append(p)
                continue
            a = fargs[p['arg']]
            if a.t != 'fmtarg':
                return [(st, top('format argument'))]
            kind, v = a.a
            if p['flags'] is not None or p['width'] is not None or p['prec'] is not None:
                spec = (p['flags'], p['width'], p['prec'], p['windirect'], p['pindirect'])
                # indirect width/precision refer to other arguments
                w, pr = p['width'], p['prec']
                wv = fargs[w].a[1] if p['windirect'] and w is not None else (Int(w) if w is not None else mk('none'))
                pv = fargs[pr].a[1] if p['pindirect'] and pr is not None else (Int(pr) if pr is not None else mk('none'))
                parts.append(mk('pad', v, p['flags'] if p['flags'] is not None else -1, wv, pv))
            else:
                parts.append(v)
        return [(st, Str(*parts))]
    except Exception as e:
        return [(st, top('format %s' % e))]


@model('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def fmt_from_str(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'list':
        return [(st, Str(*[eng.deref(st, s.a[0]) for s in v.a]))]
    return [(st, as_str(v))]


def display(eng, st, v, t, c, site):
    """[(state, string value)] of `{}`"""
    v = eng.deref(st, v)
    if v.t == 'top':
        return [(st, Str(v))]
    if v.t == 'str':
        return [(st, v)]
    k = absint.kind_of(t) if t else None
    if c is not None and c.get('disp', -1) >= 0:
        st = st.fork()
        cell = eng.cell()
        st.mem[cell] = Str()
        out = []
        for s, r in eng.call_own(c['disp'], [Vref(v), mk('ref', cell, ())], st, None, site):
            sv = s.mem.get(cell)
            s = s.fork()
            s.mem.pop(cell, None)
            out.append((s, sv))
        return out
    if is_intlike(v) or (t and t['k'] == 'int'):
        n = const_int(v)
        return [(st, Str(str(n)) if n is not None else Str(mk('dec', v)))]
    if v.t == 'chr':
        return [(st, Str(chr(v.a[0])))]
    if v.t == 'bool':
        return [(st, Str('true' if v.a[0] else 'false'))]
    if t and t['k'] == 'char':
        return [(st, Str(mk('ch', v)))]
    if k in ('str', 'cow'):
        return [(st, as_str(v))]
    return [(st, Str(mk('display', v)))]


@model('core::fmt::rt::Argument::new_display')
def new_display(eng, st, args, c, rty, site):
    return [(s, mk('fmtarg', 'display', v)) for s, v in display(eng, st, args[0], ty_of(eng, c, 0), c, site)]


def new_other(kind):
    def f(eng, st, args, c, rty, site):
        v = eng.deep(st, args[0])
        if kind == 'count':
            return [(st, mk('fmtarg', kind, v))]
        return [(st, mk('fmtarg', kind, Str(mk('fmt', kind, v))))]
    return f


for k in ['debug', 'lower_hex', 'upper_hex', 'binary', 'octal', 'lower_exp', 'upper_exp', 'pointer', 'debug_noop']:
    M['core::fmt::rt::Argument::new_' + k] = new_other(k)
M['core::fmt::rt::Argument::from_usize'] = new_other('count')


@simple('std::fmt::format')
def fmt_format(eng, st, a):
    return a


@model('std::string::ToString::to_string')
def to_string(eng, st, args, c, rty, site):
    t = ty_of(eng, c, 0)
    return display(eng, st, args[0], t, c, site)


def append_to(eng, st, ref, s):
    """append to the string behind a &mut reference"""
    st = st.fork()
    r = ref
    while r.t == 'ref' and eng.load(st, r.a[0], r.a[1]).t == 'ref':
        r = eng.load(st, r.a[0], r.a[1])
    if r.t != 'ref':
        st.taint = st.taint | {'append to unknown string'}
        return st
    old = eng.load(st, r.a[0], r.a[1])
    if s.t == 'top' or old.t == 'top':
        new = Str(old, s) if old.t == 'str' else old
    else:
        new = Str(as_str(old), s)
    eng.store(st, r.a[0], r.a[1], new)
    return st


@model('std::fmt::Write::write_fmt', 'std::fmt::Write::write_str', 'std::fmt::Formatter::write_str',
       'std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::pad')
def write_fmt(eng, st, args, c, rty, site):
    s = eng.deref(st, args[1])
    return [(append_to(eng, st, args[0], s), Ok(UNIT))]


@model('std::fmt::Write::write_char', 'std::fmt::Formatter::write_char')
def write_char(eng, st, args, c, rty, site):
    return [(append_to(eng, st, args[0], char_str(eng.deref(st, args[1]))), Ok(UNIT))]


@model('std::fmt::Display::fmt')
def display_fmt(eng, st, args, c, rty, site):
    t = ty_of(eng, c, 0)
    out = []
    for s, v in display(eng, st, args[0], t, None, site):
        out.append((append_to(eng, s, args[1], v), Ok(UNIT)))
    return out


@model('std::io::_print', 'std::io::_eprint')
def io_print(eng, st, args, c, rty, site):
    st = st.fork()
    eng.event(st, mk('ev', 'print', (eng.deref(st, args[0]),), UNIT), site)
    return [(st, UNIT)]


# ---------------------------------------------------------------- strings

@model('std::string::String::new', 'std::string::String::with_capacity', 'std::path::PathBuf::new', 'std::ffi::OsString::new')
def string_new(eng, st, args, c, rty, site):
    return [(st, Str())]


@model('std::string::String::push_str', 'std::ops::AddAssign::add_assign', 'std::ffi::OsString::push')
def push_str(eng, st, args, c, rty, site):
    if c.get('trait'):
        t = ty_of(eng, c, 0)
        if not t or absint.kind_of(t) != 'str':
            if t and t['k'] == 'int' and args[0].t == 'ref':
                st = st.fork()
                r = args[0]
                eng.store(st, r.a[0], r.a[1], add(eng.load(st, r.a[0], r.a[1]), eng.deref(st, args[1])))
                return [(st, UNIT)]
            return None
    return [(append_to(eng, st, args[0], eng.deref(st, args[1])), UNIT)]


@model('std::string::String::push')
def push_char(eng, st, args, c, rty, site):
    return [(append_to(eng, st, args[0], char_str(eng.deref(st, args[1]))), UNIT)]


@model('std::ops::Add::add')
def str_add(eng, st, args, c, rty, site):
    t = ty_of(eng, c, 0)
    if t and absint.kind_of(t) == 'str':
        a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
        return [(st, Str(as_str(a), as_str(b)))]
    if t and t['k'] == 'int':
        return [(st, add(eng.deref(st, args[0]), eng.deref(st, args[1])))]
    return None


@model('std::string::String::insert_str')
def insert_str(eng, st, args, c, rty, site):
    st = st.fork()
    i = eng.deref(st, args[1])
    r = args[0]
    old = eng.deref(st, r)
    if const_int(i) == 0 and r.t == 'ref' and old.t == 'str':
        eng.store(st, r.a[0], r.a[1], Str(eng.deref(st, args[2]), old))
    elif r.t == 'ref':
        eng.store(st, r.a[0], r.a[1], top('insert_str'))
    return [(st, UNIT)]


@model('std::string::String::len', 'core::str::<impl str>::len', 'std::str::<impl str>::len')
def str_len(eng, st, args, c, rty, site):
    return [(st, slen(as_str(eng.deref(st, args[0]))))]


@model('std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def str_is_empty(eng, st, args, c, rty, site):
    return [(st, mk_not(pos(slen(as_str(eng.deref(st, args[0]))))))]


@model('std::string::String::clear')
def str_clear(eng, st, args, c, rty, site):
    st = st.fork()
    r = args[0]
    if r.t == 'ref':
        eng.store(st, r.a[0], r.a[1], Str())
    return [(st, UNIT)]


@model('std::string::String::truncate')
def str_truncate(eng, st, args, c, rty, site):
    st = st.fork()
    r = args[0]
    n = eng.deref(st, args[1])
    v = eng.deref(st, r)
    if r.t != 'ref':
        st.taint = st.taint | {'truncate'}
        return [(st, UNIT)]
    eng.store(st, r.a[0], r.a[1], str_prefix(v, n))
    return [(st, UNIT)]


def str_prefix(v, n):
    """the first n bytes of a string, if that is at a known boundary"""
    if v.t == 'top' or n.t == 'top':
        return top('truncate')
    v = as_str(v)
    acc = Int(0)
    parts = []
    if n is acc:
        return Str()
    for p in v.a[0]:
        if isinstance(p, str):
            b = p.encode()
            d = const_int(sub(n, acc))
            if d is not None and 0 <= d <= len(b):
                return Str(*(parts + [b[:d].decode()]))
            acc = add(acc, Int(len(b)))
        else:
            acc = add(acc, slen(p))
        parts.append(p)
        if acc is n:
            return Str(*parts)
    return mk('str', (mk('trunc', v, n),))


@model('std::string::String::pop')
def str_pop(eng, st, args, c, rty, site):
    st = st.fork()
    r = args[0]
    v = eng.deref(st, r)
    if r.t == 'ref' and v.t == 'str' and v.a[0] and isinstance(v.a[0][-1], str):
        eng.store(st, r.a[0], r.a[1], Str(*(v.a[0][:-1] + (v.a[0][-1][:-1],))))
        return [(st, Some(Char(ord(v.a[0][-1][-1]))))]
    if r.t == 'ref':
        eng.store(st, r.a[0], r.a[1], top('pop'))
    return [(st, top('pop'))]


@model('std::str::<impl str>::repeat', 'core::str::<impl str>::repeat')
def str_repeat(eng, st, args, c, rty, site):
    v, n = eng.deref(st, args[0]), eng.deref(st, args[1])
    k = const_int(n)
    s = str_const(as_str(v))
    if k is not None and s is not None and k < 200:
        return [(st, Str(s * k))]
    return [(st, Str(mk('repeat', as_str(v), n)))]


def join_terms(lst, sep):
    lst = as_list(lst)
    parts = []
    for i, s in enumerate(lst.a):
        if s.t != 'one':
            return Str(mk('join', lst, sep))
        if i:
            parts.append(sep)
        parts.append(s.a[0])
    return Str(*parts)


REBUILD['join'] = lambda l, s: join_terms(l, s)


@model('std::slice::<impl [T]>::join', 'core::slice::<impl [T]>::join', 'std::slice::Join::join')
def m_join(eng, st, args, c, rty, site):
    v = eng.deep(st, args[0])
    sep = eng.deref(st, args[1])
    if v.t == 'top':
        return [(st, v)]
    return [(st, join_terms(v, as_str(sep)))]


@model('std::slice::<impl [T]>::concat', 'core::slice::<impl [T]>::concat')
def m_concat(eng, st, args, c, rty, site):
    v = eng.deep(st, args[0])
    t = eng.p.types[rty] if rty is not None else None
    if t and absint.kind_of(t) == 'str':
        return [(st, join_terms(v, Str()))]
    return None


def app(name):
    def f(eng, st, args, c, rty, site):
        vals = tuple(eng.deep(st, a) for a in args)
        if any(contains_top(v) for v in vals):
            return [(st, top(name))]
        return [(st, mk('app', name, vals))]
    return f


def app_list(name):
    """pure function returning a sequence/iterator over a symbolic list"""
    def f(eng, st, args, c, rty, site):
        vals = tuple(eng.deep(st, a) for a in args)
        if any(contains_top(v) for v in vals):
            return [(st, top(name))]
        return [(st, mk('it', as_list(mk('app', name, vals)).a))]
    return f


for n in ['chars', 'char_indices', 'bytes', 'split', 'lines', 'split_whitespace', 'rsplit', 'split_terminator',
          'split_inclusive', 'splitn', 'split_ascii_whitespace', 'matches', 'rmatches']:
    M['core::str::<impl str>::' + n] = app_list(n)
    M['std::str::<impl str>::' + n] = app_list(n)
M['std::path::Path::components'] = app_list('components')
M['std::path::Path::ancestors'] = app_list('ancestors')
M['std::path::Path::iter'] = app_list('path_iter')

for n in ['trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase',
          'starts_with', 'ends_with', 'contains', 'find', 'rfind', 'strip_prefix', 'strip_suffix', 'split_once',
          'rsplit_once', 'replace', 'replacen', 'is_char_boundary', 'trim_matches', 'trim_end_matches', 'trim_start_matches',
          'eq_ignore_ascii_case', 'is_ascii']:
    M['core::str::<impl str>::' + n] = app('str_' + n)
    M['std::str::<impl str>::' + n] = app('str_' + n)


@model('core::str::<impl str>::get', 'std::str::<impl str>::get')
def str_get(eng, st, args, c, rty, site):
    i = eng.deref(st, args[1])
    s = as_str(eng.deref(st, args[0]))
    lo, hi = range_of(i) if i.t == 'adt' else (None, None)
    if lo is None or contains_top(s):
        return [(st, top('str_get'))]
    cond = mk('app', 'slice_ok', (s, lo, hi if hi is not None else mk('end')))
    out = []
    for b, s2 in eng.branch(st, cond, site):
        out.append((s2, Some(Vref(Str(mk('slice', s, lo, hi if hi is not None else mk('end'))))) if b else NONE))
    return out


@model('core::str::<impl str>::split_at', 'std::str::<impl str>::split_at')
def str_split_at(eng, st, args, c, rty, site):
    s, i = as_str(eng.deref(st, args[0])), eng.deref(st, args[1])
    if contains_top(s) or i.t == 'top':
        return [(st, top('split_at'))]
    out = []
    for b, s2 in eng.branch(st, mk('app', 'slice_ok', (s, Int(0), i)), site):
        if b:
            out.append((s2, Tup(Vref(Str(mk('slice', s, Int(0), i))), Vref(Str(mk('slice', s, i, mk('end')))))))
        else:
            diverges('split_at out of bounds')(eng, s2, [], c, rty, site)
    return out


@model('core::str::<impl str>::parse', 'std::str::<impl str>::parse')
def str_parse(eng, st, args, c, rty, site):
    t = ty_of(eng, c, 0)
    if t and t['k'] == 'int' and rty is not None:
        v = eng.deep(st, args[0])
        if not contains_top(v):
            return [(st, mk('app', 'str_parse', (v, absint.Int(t['bits']), absint.Int(1 if t.get('signed') else 0))))]
    return app('str_parse')(eng, st, args, c, rty, site)


@model('core::str::traits::<impl std::ops::Index<I> for str>::index')
def str_index(eng, st, args, c, rty, site):
    return None


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def index(eng, st, args, c, rty, site):
    t = ty_of(eng, c, 0)
    it = ty_of(eng, c, 1)
    k = absint.kind_of(t) if t else None
    i = eng.deref(st, args[1])
    if k in ('map',):
        m = as_map(eng.deref(st, args[0]))
        key = eng.deep(st, args[1])
        out = []
        for b, s in eng.branch(st, in_pred(eng, st, m, key), site):
            if b:
                out.append((s, Vref(lookup(eng, s, m, key))))
            else:
                diverges('index of a missing key')(eng, s, [], c, rty, site)
        return out
    if k == 'str' and i.t == 'adt':
        s = as_str(eng.deref(st, args[0]))
        lo, hi = range_of(i)
        if lo is None:
            return [(st, top('string slice'))]
        cond = mk('app', 'slice_ok', (s, lo, hi if hi is not None else mk('end')))
        out = []
        for b, s2 in eng.branch(st, cond, site):
            if b:
                out.append((s2, Vref(Str(mk('slice', s, lo, hi if hi is not None else mk('end'))))))
            else:
                diverges('string slice')(eng, s2, [], c, rty, site)
        return out
    if k == 'vec':
        if it and it['k'] == 'int':
            v = eng.deref(st, args[0])
            n = llen(as_list(v)) if v.t != 'top' else v
            ok = pos(sub(n, i)) if v.t != 'top' else v
            out = []
            for b, s2 in eng.branch(st, ok, site):
                if b:
                    r = args[0]
                    while r.t == 'ref' and eng.load(s2, r.a[0], r.a[1]).t in ('ref',):
                        r = eng.load(s2, r.a[0], r.a[1])
                    if r.t == 'ref' and c['name'] == 'index_mut':
                        out.append((s2, mk('ref', r.a[0], r.a[1] + (('i', i),))))
                    else:
                        out.append((s2, Vref(eng.index(s2, v, i))))
                else:
                    diverges('index out of bounds')(eng, s2, [], c, rty, site)
            return out
        if i.t == 'adt':
            v = eng.deref(st, args[0])
            lo, hi = range_of(i)
            if lo is not None and v.t != 'top':
                return [(st, Vref(as_list(mk('sub', v, lo, hi if hi is not None else mk('end')))))]
        return [(st, top('slice'))]
    return None


def range_of(r):
    n = r.a[0].split('::')[-1]
    f = r.a[2]
    if n == 'RangeFrom':
        return f[0], None
    if n == 'Range':
        return f[0], f[1]
    if n == 'RangeTo':
        return Int(0), f[0]
    if n == 'RangeFull':
        return Int(0), None
    return None, None


# ---------------------------------------------------------------- comparison

@model('std::cmp::PartialEq::eq')
def m_eq(eng, st, args, c, rty, site):
    return [(st, mk_eq(eng.deep(st, args[0]), eng.deep(st, args[1])))]


@model('std::cmp::PartialEq::ne')
def m_ne(eng, st, args, c, rty, site):
    return [(st, mk_not(mk_eq(eng.deep(st, args[0]), eng.deep(st, args[1]))))]


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def m_cmp(eng, st, args, c, rty, site):
    r = mk('cmp', eng.deep(st, args[0]), eng.deep(st, args[1]))
    return [(st, r if c['name'] == 'cmp' else Some(r))]


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def m_lt(eng, st, args, c, rty, site):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    t = ty_of(eng, c, 0)
    if t and t['k'] == 'int':
        return [(st, eng.binop(st, c['name'].capitalize(), a, b))]
    return [(st, mk('app', c['name'], (a, b)))]


@model('std::cmp::min', 'std::cmp::Ord::min')
def m_min(eng, st, args, c, rty, site):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    out = []
    if a.t == 'top' or b.t == 'top':
        return [(st, top('min'))]
    for t, s in eng.branch(st, pos(add(sub(b, a), Int(1))), site):
        out.append((s, a if t else b))
    return out


@model('std::cmp::max', 'std::cmp::Ord::max')
def m_max(eng, st, args, c, rty, site):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    out = []
    if a.t == 'top' or b.t == 'top':
        return [(st, top('max'))]
    for t, s in eng.branch(st, pos(add(sub(b, a), Int(1))), site):
        out.append((s, b if t else a))
    return out


def int_method(f):
    def g(eng, st, args, c, rty, site):
        return f(eng, st, [eng.deref(st, a) for a in args], site)
    return g


def sat_sub(eng, st, a, site):
    out = []
    if a[0].t == 'top' or a[1].t == 'top':
        return [(st, top('sub'))]
    for t, s in eng.branch(st, pos(sub(a[1], a[0])), site):
        out.append((s, Int(0) if t else sub(a[0], a[1])))
    return out


def chk_sub(eng, st, a, site):
    out = []
    if a[0].t == 'top' or a[1].t == 'top':
        return [(st, top('sub'))]
    for t, s in eng.branch(st, pos(sub(a[1], a[0])), site):
        out.append((s, NONE if t else Some(sub(a[0], a[1]))))
    return out


for ity in ['usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize']:
    for pre_ in ('core::num::<impl %s>::' % ity, 'std::num::<impl %s>::' % ity):
        M[pre_ + 'saturating_sub'] = int_method(sat_sub)
        M[pre_ + 'checked_sub'] = int_method(chk_sub)
        M[pre_ + 'wrapping_add'] = int_method(lambda e, st, a, site: [(st, add(a[0], a[1]))])
        M[pre_ + 'saturating_add'] = M[pre_ + 'wrapping_add']
        M[pre_ + 'checked_add'] = int_method(lambda e, st, a, site: [(st, Some(add(a[0], a[1])))])
        if ity in ('u8', 'u16'):
            # filled by what a schema can count: evaluated with their range
            for f in ('wrapping_add', 'saturating_add', 'checked_add'):
                del M[pre_ + f]
        M[pre_ + 'pow'] = int_method(lambda e, st, a, site: [(st, mk('arith', 'pow', a[0], a[1]) if const_int(a[0]) is None or const_int(a[1]) is None else Int(const_int(a[0]) ** const_int(a[1])))])


@model('std::mem::swap')
def m_swap(eng, st, args, c, rty, site):
    a, b = args
    st = st.fork()
    if a.t == 'ref' and b.t == 'ref':
        x, y = eng.load(st, a.a[0], a.a[1]), eng.load(st, b.a[0], b.a[1])
        eng.store(st, a.a[0], a.a[1], y)
        eng.store(st, b.a[0], b.a[1], x)
    else:
        st.taint = st.taint | {'swap'}
    return [(st, UNIT)]


@model('std::mem::replace')
def m_replace(eng, st, args, c, rty, site):
    a, b = args
    st = st.fork()
    if a.t != 'ref':
        st.taint = st.taint | {'replace'}
        return [(st, top('replace'))]
    x = eng.load(st, a.a[0], a.a[1])
    eng.store(st, a.a[0], a.a[1], b)
    return [(st, x)]


@model('std::mem::take')
def m_take(eng, st, args, c, rty, site):
    a = args[0]
    st = st.fork()
    t = ty_of(eng, c, 0)
    k = absint.kind_of(t) if t else None
    dv = {'str': Str(), 'vec': List(), 'map': mk('map', ()), 'set': mk('map', ()), 'option': NONE, 'int': Int(0),
          'bool': FALSE, 'path': Str()}.get(k)
    if a.t != 'ref' or dv is None:
        return None
    x = eng.load(st, a.a[0], a.a[1])
    eng.store(st, a.a[0], a.a[1], dv)
    return [(st, x)]


@model('std::option::Option::take')
def opt_take(eng, st, args, c, rty, site):
    a = args[0]
    st = st.fork()
    if a.t != 'ref':
        return [(eng.tainted(st, 'take'), top('take'))]
    x = eng.load(st, a.a[0], a.a[1])
    eng.store(st, a.a[0], a.a[1], NONE)
    return [(st, x)]


@model('std::option::Option::replace', 'std::option::Option::insert')
def opt_replace(eng, st, args, c, rty, site):
    a = args[0]
    st = st.fork()
    if a.t != 'ref':
        return [(eng.tainted(st, 'replace'), top('replace'))]
    x = eng.load(st, a.a[0], a.a[1])
    eng.store(st, a.a[0], a.a[1], Some(args[1]))
    return [(st, x)]


# ---------------------------------------------------------------- vectors

@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new',
       'std::collections::VecDeque::with_capacity')
def vec_new(eng, st, args, c, rty, site):
    return [(st, List())]


def ref_target(eng, st, r):
    """the innermost &mut to a non-reference value"""
    while r.t == 'ref' and eng.load(st, r.a[0], r.a[1]).t == 'ref':
        r = eng.load(st, r.a[0], r.a[1])
    return r


def upd_list(eng, st, ref, f):
    """apply f to the list behind a reference"""
    st = st.fork()
    r = ref_target(eng, st, ref)
    if r.t != 'ref':
        st.taint = st.taint | {'list update through unknown reference'}
        return st, None
    v = eng.load(st, r.a[0], r.a[1])
    if v.t == 'top':
        return st, None
    old = as_list(v)
    new, ret = f(old)
    eng.store(st, r.a[0], r.a[1], new)
    return st, ret


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def vec_push(eng, st, args, c, rty, site):
    st, _ = upd_list(eng, st, args[0], lambda l: (List(*(l.a + (one(args[1]),))), None))
    return [(st, UNIT)]


@model('std::vec::Vec::insert', 'std::collections::VecDeque::push_front')
def vec_insert(eng, st, args, c, rty, site):
    i = eng.deref(st, args[1]) if c['name'] == 'insert' else Int(0)
    x = args[-1]
    n = const_int(i)

    def f(l):
        if n == 0:
            return List(*((one(x),) + l.a)), None
        if n is not None and len(l.a) >= n and all(s.t == 'one' for s in l.a[:n]):
            return List(*(l.a[:n] + (one(x),) + l.a[n:])), None
        if llen(l) is i:
            return List(*(l.a + (one(x),))), None
        return top('insert'), None
    st, _ = upd_list(eng, st, args[0], f)
    return [(st, UNIT)]


@model('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def vec_pop(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, top('pop'))]
    l = as_list(v)
    if not l.a:
        return [(st, NONE)]
    if l.a[-1].t == 'one':
        x = l.a[-1].a[0]
        st, _ = upd_list(eng, st, args[0], lambda l: (List(*l.a[:-1]), None))
        return [(st, Some(x))]
    out = []
    for b, s in eng.branch(st, pos(llen(l)), site):
        if b:
            s, _ = upd_list(eng, s, args[0], lambda l: (as_list(mk('init', l)), None))
            out.append((s, Some(mk('last', l))))
        else:
            out.append((s, NONE))
    return out


@model('std::vec::Vec::clear', 'std::collections::HashMap::clear', 'std::collections::HashSet::clear')
def vec_clear(eng, st, args, c, rty, site):
    st = st.fork()
    r = ref_target(eng, st, args[0])
    if r.t == 'ref':
        eng.store(st, r.a[0], r.a[1], List() if 'Vec' in c['path'] else mk('map', ()))
    return [(st, UNIT)]


@model('std::vec::Vec::truncate')
def vec_truncate(eng, st, args, c, rty, site):
    n = eng.deref(st, args[1])

    def f(l):
        acc = Int(0)
        segs = []
        if n is acc:
            return List(), None
        for s in l.a:
            acc = add(acc, llen(List(s)))
            segs.append(s)
            if acc is n:
                return List(*segs), None
        return as_list(mk('sub', l, Int(0), n)), None
    st, _ = upd_list(eng, st, args[0], f)
    return [(st, UNIT)]


@model('std::vec::Vec::append')
def vec_append(eng, st, args, c, rty, site):
    b = eng.deref(st, args[1])
    if b.t == 'top':
        st, _ = upd_list(eng, st, args[0], lambda l: (b, None))
        return [(st, UNIT)]
    st, _ = upd_list(eng, st, args[0], lambda l: (List(*(l.a + as_list(b).a)), None))
    st, _ = upd_list(eng, st, args[1], lambda l: (List(), None))
    return [(st, UNIT)]


@model('std::vec::Vec::extend_from_slice')
def vec_extend_slice(eng, st, args, c, rty, site):
    b = eng.deref(st, args[1])
    if b.t == 'top':
        st, _ = upd_list(eng, st, args[0], lambda l: (b, None))
    else:
        st, _ = upd_list(eng, st, args[0], lambda l: (List(*(l.a + as_list(b).a)), None))
    return [(st, UNIT)]


@model('std::vec::Vec::reserve', 'std::string::String::reserve', 'std::vec::Vec::shrink_to_fit',
       'std::collections::HashMap::reserve', 'std::string::String::shrink_to_fit')
def noop(eng, st, args, c, rty, site):
    return [(st, UNIT)]


@model('std::vec::Vec::len', 'core::slice::<impl [T]>::len', 'std::slice::<impl [T]>::len', 'std::collections::VecDeque::len')
def vec_len(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    return [(st, llen(as_list(v)) if v.t != 'top' else v)]


@model('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::collections::VecDeque::is_empty')
def vec_is_empty(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    return [(st, mk_not(pos(llen(as_list(v)))) if v.t != 'top' else v)]


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::get',
       'std::vec::Vec::first', 'std::vec::Vec::last')
def vec_get(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, v)]
    l = as_list(v)
    n = llen(l)
    if c['name'] == 'get':
        t = ty_of(eng, c, 1)
        if t and t['k'] != 'int':
            return None
        i = eng.deref(st, args[1])
    elif c['name'] == 'first':
        i = Int(0)
    else:
        i = sub(n, Int(1))
    if i.t == 'top':
        return [(st, i)]
    out = []
    for b, s in eng.branch(st, pos(sub(n, i)) if c['name'] == 'get' else pos(n), site):
        if b:
            if c['name'] == 'last' and l.a[-1].t == 'one':
                x = l.a[-1].a[0]
            else:
                x = eng.index(s, v, i)
            out.append((s, Some(Vref(x))))
        else:
            out.append((s, NONE))
    return out


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def split_first(eng, st, args, c, rty, site):
    return app(c['name'])(eng, st, args, c, rty, site)


@model('core::slice::<impl [T]>::split_at')
def slice_split_at(eng, st, args, c, rty, site):
    v, i = eng.deref(st, args[0]), eng.deref(st, args[1])
    if v.t == 'top' or i.t == 'top':
        return [(st, top('split_at'))]
    out = []
    for b, s in eng.branch(st, pos(sub(i, llen(as_list(v)))), site):
        if b:
            diverges('split_at out of bounds')(eng, s, [], c, rty, site)
        else:
            out.append((s, Tup(Vref(as_list(mk('sub', v, Int(0), i))), Vref(as_list(mk('sub', v, i, mk('end')))))))
    return out


@model('core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::chunks')
def slice_windows(eng, st, args, c, rty, site):
    v, n = eng.deep(st, args[0]), eng.deref(st, args[1])
    if v.t == 'top' or contains_top(v) or (const_int(n) or 0) < 1:
        return [(eng.tainted(st, c['name']), top(c['name']))]
    return [(st, mk('it', as_list(mk(c['name'], as_list(v), n)).a))]


@model('core::slice::<impl [T]>::contains')
def vec_contains(eng, st, args, c, rty, site):
    v = eng.deep(st, args[0])
    if v.t == 'top':
        return [(st, v)]
    k = eng.deep(st, args[1])
    m = mk('map', tuple(ins_ops(as_list(v).a)))
    return [(st, in_pred(eng, st, m, k))]


def ins_ops(segs):
    """view a list as the set of its elements"""
    out = []
    for s in segs:
        if s.t == 'one':
            out.append(mk('ins', s.a[0], UNIT))
        elif s.t == 'for':
            out.append(mkfor2(s.a[0], s.a[1], tuple(ins_ops(s.a[2])), 'for'))
        elif s.t == 'if':
            out.append(mk('if', s.a[0], tuple(ins_ops(s.a[1]))))
        else:
            out.append(mk('unk', s))
    return out


@model('core::slice::<impl [T]>::reverse', 'std::vec::Vec::reverse')
def vec_reverse(eng, st, args, c, rty, site):
    st, _ = upd_list(eng, st, args[0], lambda l: (List(*rev_segs(l.a)), None))
    return [(st, UNIT)]


def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if s.t == 'for':
            L = s.a[0]
            out.append(mkfor2(L.a[0] if L.t == 'rev' else mk('rev', L), s.a[1], tuple(rev_segs(s.a[2])), 'for'))
        elif s.t == 'if':
            out.append(mk('if', s.a[0], tuple(rev_segs(s.a[1]))))
        else:
            out.append(s)
    return tuple(out)


def sort_segs(eng, st, l, keyf, site, other=None):
    """sorted version of a list; keyf(state, element) -> (state, key)"""
    segs = l.a
    if len(segs) == 1 and segs[0].t == 'for' and len(segs[0].a[2]) == 1:
        L, b, body = segs[0].a
        x = body[0]
        if x.t == 'one' or x.t == 'if' and len(x.a[1]) == 1 and x.a[1][0].t == 'one':
            val = x.a[0] if x.t == 'one' else x.a[1][0].a[0]
            key = keyf(st, val)
            if key is not None:
                # key expressed over the generic element
                key = subst(key, {b: mk('sym', '#')})
                return List(mkfor2(mk('sorted', L, key), b, body, 'for')), key
    if all(s.t == 'one' for s in segs):
        ks = []
        for s in segs:
            k = keyf(st, s.a[0])
            kc = str_const(as_str(k)) if k is not None else None
            if kc is None:
                break
            ks.append((kc, s))
        else:
            return List(*[s for _, s in sorted(ks, key=lambda x: x[0])]), None
    e = mk('sym', '##')
    key = keyf(st, e)
    if key is None and other is not None:
        return as_list(mk('sortf', l, other[0], other[1])), None
    return as_list(mk('sorted', l, key if key is not None else mk('sym', '?'))), key


def m_sort_by_key(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, UNIT)]

    def keyf(s, x):
        eng.quiet += 1
        try:
            r = eng.call_value(args[1], [Vref(x)], s, None, site)
        finally:
            eng.quiet -= 1
        if len(r) != 1:
            return None
        return eng.deep(r[0][0], r[0][1])
    new, _ = sort_segs(eng, st, as_list(v), keyf, site, ('key', eng.deep(st, args[1])))
    st, _ = upd_list(eng, st, args[0], lambda l: (new, None))
    return [(st, UNIT)]


def m_sort(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, UNIT)]
    new, _ = sort_segs(eng, st, as_list(v), lambda s, x: eng.deep(s, x), site)
    st, _ = upd_list(eng, st, args[0], lambda l: (new, None))
    return [(st, UNIT)]


def m_sort_by(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, UNIT)]

    def keyf(s, x):
        y = mk('sym', '#other')
        xs = {t for t in subterms(x) if t.t == 'e'}
        if x.t == 'sym':
            xs = {x}
        other = subst(x, {e: y for e in xs}) if xs else y
        eng.quiet += 1
        try:
            r = eng.call_value(args[1], [Vref(x), Vref(other)], s, None, site)
        finally:
            eng.quiet -= 1
        if len(r) != 1:
            return None
        q = eng.deref(r[0][0], r[0][1])
        if q.t == 'cmp':
            a, b = q.a
            if subst(a, {e: y for e in xs}) is b:
                return a
            if subst(b, {e: y for e in xs}) is a:
                return mk('desc', b)
        return None
    new, _ = sort_segs(eng, st, as_list(v), keyf, site, ('by', eng.deep(st, args[1])))
    st, _ = upd_list(eng, st, args[0], lambda l: (new, None))
    return [(st, UNIT)]


@model('std::cmp::Ordering::then', 'std::cmp::Ordering::then_with', 'std::cmp::Ordering::reverse')
def ordering(eng, st, args, c, rty, site):
    a = eng.deref(st, args[0])
    if c['name'] == 'reverse':
        return [(st, mk('ordrev', a) if a.t != 'top' else a)]
    if c['name'] == 'then':
        rs = [(st, args[1])]
    else:
        rs = eng.call_value(args[1], [], st, None, site)
    return [(s, mk('ordthen', a, eng.deref(s, b)) if a.t != 'top' and eng.deref(s, b).t != 'top' else top('ordering')) for s, b in rs]


for pre_ in ('core::slice::<impl [T]>::', 'std::slice::<impl [T]>::'):
    M[pre_ + 'sort_by_key'] = m_sort_by_key
    M[pre_ + 'sort_unstable_by_key'] = m_sort_by_key
    M[pre_ + 'sort_by_cached_key'] = m_sort_by_key
    M[pre_ + 'sort'] = m_sort
    M[pre_ + 'sort_unstable'] = m_sort
    M[pre_ + 'sort_by'] = m_sort_by
    M[pre_ + 'sort_unstable_by'] = m_sort_by


@model('std::vec::Vec::dedup')
def vec_dedup(eng, st, args, c, rty, site):
    st, _ = upd_list(eng, st, args[0], lambda l: (as_list(mk('dedup', l)), None))
    return [(st, UNIT)]


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def vec_remove(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    i = eng.deref(st, args[1])
    if v.t == 'top' or i.t == 'top':
        return [(st, top('remove'))]
    n = const_int(i)
    l = as_list(v)
    if n is not None and len(l.a) > n and all(s.t == 'one' for s in l.a[:n + 1]):
        x = l.a[n].a[0]
        st, _ = upd_list(eng, st, args[0], lambda l: (List(*(l.a[:n] + l.a[n + 1:])), None))
        return [(st, x)]
    out = []
    for b, s in eng.branch(st, pos(sub(llen(l), i)), site):
        if b:
            s, _ = upd_list(eng, s, args[0], lambda l: (as_list(mk('removed', l, i)), None))
            out.append((s, eng.index(s, v, i)))
        else:
            diverges('remove out of bounds')(eng, s, [], c, rty, site)
    return out


@model('std::vec::Vec::drain')
def vec_drain(eng, st, args, c, rty, site):
    r = eng.deref(st, args[1])
    v = eng.deref(st, args[0])
    if v.t == 'top' or r.t != 'adt':
        return [(st, top('drain'))]
    if r.a[0].endswith('RangeFull'):
        st, _ = upd_list(eng, st, args[0], lambda l: (List(), None))
        return [(st, mk('it', as_list(v).a))]
    st, _ = upd_list(eng, st, args[0], lambda l: (top('drain'), None))
    return [(st, top('drain'))]


@model('std::vec::Vec::retain')
def vec_retain(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, UNIT)]
    st = st.fork()
    out = []
    for s, l in collect_list(eng, st, mk('ifilter', mk('it', as_list(v).a), args[1]), site):
        s, _ = upd_list(eng, s, args[0], lambda _: (l, None))
        out.append((s, UNIT))
    return out


# ---------------------------------------------------------------- maps and sets

@model('std::collections::HashMap::new', 'std::collections::HashMap::with_capacity', 'std::collections::BTreeMap::new',
       'std::collections::HashSet::new', 'std::collections::HashSet::with_capacity', 'std::collections::BTreeSet::new')
def map_new(eng, st, args, c, rty, site):
    return [(st, mk('map', ()))]


def in_pred(eng, st, m, k):
    r = eng.in_map(st, map_ops(m), k)
    if r is not None:
        return Bool(r)
    return mk('in', as_map(m), k)


def lookup(eng, st, m, k):
    ops = map_ops(m)
    while ops:
        o = ops[-1]
        if o.t == 'ins':
            e = eng.decide(st, mk_eq(o.a[0], k))
            if e is True:
                return o.a[1]
            if e is False:
                ops = ops[:-1]
                continue
        break
    return mk('lookup', mk('map', ops), k)


absint.Engine.map_value = staticmethod(lambda eng, st, v, k: v if v.t == 'top' else lookup(eng, st, as_map(v), k))


def upd_map(eng, st, ref, f):
    st = st.fork()
    r = ref_target(eng, st, ref)
    if r.t != 'ref':
        st.taint = st.taint | {'map update through unknown reference'}
        return st
    v = eng.load(st, r.a[0], r.a[1])
    if v.t == 'top':
        return st
    eng.store(st, r.a[0], r.a[1], f(as_map(v)))
    return st


COLL = ['std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet']


def coll(names, cs=COLL):
    return ['%s::%s' % (a, n) for a in cs for n in names]


@model(*coll(['contains_key', 'contains']))
def m_contains(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, v)]
    return [(st, in_pred(eng, st, as_map(v), eng.deep(st, args[1])))]


@model(*coll(['get', 'get_key_value']))
def m_get(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, v)]
    k = eng.deep(st, args[1])
    isset = 'Set' in c['path'].split('::')[2]
    out = []
    for b, s in eng.branch(st, in_pred(eng, st, as_map(v), k), site):
        if b:
            x = k if isset else lookup(eng, s, as_map(v), k)
            if c['name'] == 'get_key_value':
                x = Tup(k, x)
            out.append((s, Some(Vref(x))))
        else:
            out.append((s, NONE))
    return out


@model(*coll(['insert', 'replace']))
def m_insert(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, top('insert'))]
    k = eng.deep(st, args[1])
    isset = 'Set' in c['path'].split('::')[2]
    val = UNIT if isset else args[2]
    if val.t == 'ref':
        val = Vref(eng.deep(st, val))
    op = mk('ins', k, eng.deep(st, val))
    p = in_pred(eng, st, as_map(v), k)
    if isset:
        # returns whether it was new; only split if the result can matter
        s = upd_map(eng, st, args[0], lambda m: mk('map', map_ops(m) + (op,)))
        return [(s, mk_not(p))]
    s = upd_map(eng, st, args[0], lambda m: mk('map', map_ops(m) + (op,)))
    if p is FALSE:
        return [(s, NONE)]
    if p is TRUE:
        return [(s, Some(lookup(eng, st, as_map(v), k)))]
    return [(s, mk('optif', p, lookup(eng, st, as_map(v), k)))]


@model(*coll(['remove', 'take', 'remove_entry']))
def m_remove(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, top('remove'))]
    k = eng.deep(st, args[1])
    isset = 'Set' in c['path'].split('::')[2]
    op = mk('rem', k)
    p = in_pred(eng, st, as_map(v), k)
    if isset and c['name'] == 'remove':
        s = upd_map(eng, st, args[0], lambda m: mk('map', map_ops(m) + (op,)))
        return [(s, p)]
    x = k if isset else lookup(eng, st, as_map(v), k)
    if c['name'] == 'remove_entry':
        x = Tup(k, x)
    s = upd_map(eng, st, args[0], lambda m: mk('map', map_ops(m) + (op,)))
    if p is FALSE:
        return [(st, NONE)]
    if p is TRUE:
        return [(s, Some(x))]
    # not split here: the caller's match on the result does
    return [(s, mk('optif', p, x))]


def mapdom(v, c_or_kind):
    kind = 'btree' if 'BTree' in c_or_kind else 'hash'
    return mk('entries', as_map(v), kind)


def map_iter(which):
    def f(eng, st, args, c, rty, site):
        v = eng.deref(st, args[0])
        if v.t == 'top':
            return [(st, top('iterator'))]
        isset = 'Set' in c['path'].split('::')[2]
        return [(st, entries_it(v, 'BTree' if 'BTree' in c['path'] else 'Hash', isset, which))]
    return f


def entries_it(v, kind, isset, which):
    D = mapdom(v, kind)
    E = elem(D)
    if isset or which == 'keys':
        x = fld(E, 0, 0)
    elif which == 'values':
        x = fld(E, 0, 1)
    else:
        x = E
    return mk('it', (mkfor2(D, E, (one(x),), 'for'),))


for n, w in [('iter', 'all'), ('keys', 'keys'), ('values', 'values'), ('into_keys', 'keys'), ('into_values', 'values')]:
    for q in COLL:
        M['%s::%s' % (q, n)] = map_iter(w)


@model(*coll(['drain']))
def map_drain(eng, st, args, c, rty, site):
    r = map_iter('all')(eng, st, args, c, rty, site)
    st = upd_map(eng, st, args[0], lambda m: mk('map', ()))
    return [(st, r[0][1])]


@model(*coll(['len']))
def map_len(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, v)]
    return [(st, mk('len', as_map(v)))]


@model(*coll(['is_empty']))
def map_is_empty(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, v)]
    if not map_ops(v):
        return [(st, TRUE)]
    return [(st, mk_not(pos(mk('len', as_map(v)))))]


@model(*coll(['retain']))
def map_retain(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, UNIT)]
    isset = 'Set' in c['path'].split('::')[2]
    E = elem(mapdom(v, c['path']))
    alts = []
    a = [fld(E, 0, 0)] if isset else [fld(E, 0, 0), fld(E, 0, 1)]
    st = st.fork()
    for s, r in eng.call_value(args[1], a, st, None, site):
        for b, s2 in eng.branch(s, r, site):
            if b:
                alts.append(frozenset((p, w) for p, w in s2.facts.items() if st.facts.get(p) != w))
        if s.taint:
            st.taint = st.taint | s.taint
        if s.mem.get(EV) is not st.mem.get(EV):
            st.taint = st.taint | {'effects in retain'}
    op = mk('retain', E, frozenset(alts))
    st = upd_map(eng, st, args[0], lambda m: mk('map', map_ops(m) + (op,)))
    return [(st, UNIT)]


@model('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def map_entry(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, top('entry'))]
    k = eng.deep(st, args[1])
    r = ref_target(eng, st, args[0])
    out = []
    # the order of the variants differs
    hashed = 'HashMap' in c['path']
    for b, s in eng.branch(st, in_pred(eng, st, as_map(v), k), site):
        out.append((s, Adt('std::collections::%s::Entry' % ('hash_map' if hashed else 'btree_map'), int(b != hashed), mk('entry', r, k, b))))
    return out


def the_entry(eng, st, v):
    v = eng.deref(st, v)
    if v.t == 'adt' and v.a[0].endswith('::Entry') and v.a[2] and v.a[2][0].t == 'entry':
        return v.a[2][0]
    return v


def entry_method(f):
    def g(eng, st, args, c, rty, site):
        en = the_entry(eng, st, args[0])
        if en.t != 'entry':
            return [(eng.tainted(st, 'entry'), top('entry'))]
        return f(eng, st, en, args)
    return g


def occ_insert(eng, st, en, args):
    r, k, occ = en.a
    old = lookup(eng, st, as_map(eng.deref(st, r)), k)
    st = upd_map(eng, st, r, lambda m: mk('map', map_ops(m) + (mk('ins', k, eng.deep(st, args[1])),)))
    return [(st, old)]


for m_ in ('hash_map', 'btree_map'):
    P_ = 'std::collections::%s::' % m_
    M[P_ + 'VacantEntry::insert'] = entry_method(lambda eng, st, en, args: [entry_insert(eng, st, en, args[1])])
    M[P_ + 'OccupiedEntry::insert'] = entry_method(occ_insert)
    for n_ in ('get', 'get_mut', 'into_mut'):
        M[P_ + 'OccupiedEntry::' + n_] = entry_method(lambda eng, st, en, args: [(st, value_ref(eng, st, en.a[0], en.a[1]))])
    for n_ in ('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key'):
        M[P_ + n_] = entry_method(lambda eng, st, en, args: [(st, Vref(en.a[1]))])


def entry_insert(eng, st, en, val):
    r, k, occ = en.a
    if not occ:
        st = upd_map(eng, st, r, lambda m: mk('map', map_ops(m) + (mk('ins', k, eng.deep(st, val)),)))
    return st, value_ref(eng, st, r, k)


def value_ref(eng, st, r, k):
    """reference to the value of a key"""
    if r.t == 'ref':
        return mk('ref', r.a[0], r.a[1] + (('m', k),))
    return Vref(lookup(eng, st, as_map(eng.deref(st, r)), k))


@model('std::collections::hash_map::Entry::or_insert', 'std::collections::btree_map::Entry::or_insert')
def entry_or_insert(eng, st, args, c, rty, site):
    args = [the_entry(eng, st, args[0])] + list(args[1:])
    if args[0].t != 'entry':
        return [(st, top('entry'))]
    return [entry_insert(eng, st, args[0], args[1])]


@model('std::collections::hash_map::Entry::or_insert_with', 'std::collections::btree_map::Entry::or_insert_with')
def entry_or_insert_with(eng, st, args, c, rty, site):
    args = [the_entry(eng, st, args[0])] + list(args[1:])
    if args[0].t != 'entry':
        return [(st, top('entry'))]
    if args[0].a[2]:
        return [entry_insert(eng, st, args[0], UNIT)]
    return [entry_insert(eng, s, args[0], v) for s, v in eng.call_value(args[1], [], st, None, site)]


@model('std::collections::hash_map::Entry::or_default', 'std::collections::btree_map::Entry::or_default')
def entry_or_default(eng, st, args, c, rty, site):
    args = [the_entry(eng, st, args[0])] + list(args[1:])
    t = eng.p.types[rty]
    d = default_of(eng, t['t']) if t['k'] == 'ref' else None
    if args[0].t != 'entry' or d is None and not args[0].a[2]:
        return [(st, top('entry'))]
    return [entry_insert(eng, st, args[0], d)]


@model('std::collections::hash_map::Entry::and_modify', 'std::collections::btree_map::Entry::and_modify')
def entry_and_modify(eng, st, args, c, rty, site):
    whole = args[0]
    args = [the_entry(eng, st, args[0])] + list(args[1:])
    if args[0].t != 'entry':
        return [(st, top('entry'))]
    if not args[0].a[2]:
        return [(st, whole)]
    r, k, _ = args[0].a
    return [(s, whole) for s, _ in eng.call_value(args[1], [value_ref(eng, st, r, k)], st, None, site)]


@model('std::collections::HashMap::get_mut', 'std::collections::BTreeMap::get_mut')
def map_get_mut(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, top('get_mut'))]
    k = eng.deep(st, args[1])
    r = ref_target(eng, st, args[0])
    return [(s, Some(value_ref(eng, s, r, k)) if b else NONE) for b, s in eng.branch(st, in_pred(eng, st, as_map(v), k), site)]


# ---------------------------------------------------------------- options that carry their own condition

def _optif(p, x):
    if p is TRUE:
        return Some(x)
    if p is FALSE:
        return NONE
    return mk('optif', p, x)


REBUILD['optif'] = _optif


# ---------------------------------------------------------------- iterators

def to_iter(eng, st, v, t, c):
    """iterator value over a value of type entry t"""
    raw = v
    d = eng.deref(st, v)
    if d.t == 'top':
        return d
    if d.t in ('it', 'itg', 'itn', 'imap', 'ifilter', 'ifmap', 'ienum', 'izipn', 'ichain'):
        if raw.t == 'ref':
            r = ref_target(eng, st, raw)
            return mk('iwrap', r)
        return d
    if d.t == 'iwrap':
        return d
    k = absint.kind_of(t) if t else None
    if d.t == 'list':
        return mk('it', d.a)
    if d.t == 'map' or k in ('map', 'set'):
        return entries_it(d, 'BTree' if t and 'BTree' in t.get('path', '') else 'Hash', k == 'set', 'all')
    if d.t == 'adt' and d.a[0] == OPT:
        return mk('it', (one(d.a[2][0]),) if d.a[1] == 1 else ())
    if d.t == 'adt' and d.a[0].split('::')[-1] == 'Range':
        return range_it(d.a[2][0], d.a[2][1])
    if d.t == 'adt' and d.a[0].split('::')[-1] == 'RangeFrom':
        return mk('ifrom', d.a[2][0])
    if k in ('vec',):
        return mk('it', as_list(d).a)
    if k == 'readdir':
        return mk('it', as_list(mk('listing', d)).a)
    if k == 'option':
        return top('option iterator')
    if k in ('adt',) and d.t in ('sym', 'fld', 'app', 'e', 'at'):
        return mk('it', as_list(d).a)
    return mk('it', as_list(d).a)


def range_it(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None and cb - ca <= 64:
        return mk('it', tuple(one(Int(i)) for i in range(ca, max(ca, cb))))
    if ca == 0:
        if b.t == 'len':
            L = b.a[0]
        else:
            L = mk('range', b)
        E = elem(L)
        return mk('it', (mkfor2(L, E, (one(idx(E)),), 'for'),))
    if b.t == 'top' or a.t == 'top':
        return top('range')
    L = mk('range', sub(b, a))
    E = elem(L)
    return mk('it', (mkfor2(L, E, (one(add(idx(E), a)),), 'for'),))


@model('std::iter::IntoIterator::into_iter')
def into_iter(eng, st, args, c, rty, site):
    t0 = eng.p.types[c['args'][0]]
    t = ty_of(eng, c, 0)
    v = args[0]
    if c.get('rcrate') in OWN:
        return None
    d = eng.deref(st, v)
    if t0['k'] == 'ref' and t0['mut'] and d.t not in ('it', 'itg', 'itn', 'imap', 'ifilter', 'ifmap', 'ienum', 'izipn', 'ichain'):
        return iter_mut(eng, st, args, c, rty, site)
    if t and absint.kind_of(t) == 'option' and d.t not in ('top', 'adt'):
        return [(s, to_iter(eng, s, x, t, c)) for s, x in opt_cases(eng, st, d, site)]
    return [(st, to_iter(eng, st, v, t, c))]


def opt_cases(eng, st, v, site):
    """[(state, Some(x) or None)]"""
    if v.t == 'optif':
        return [(s, Some(v.a[1]) if b else NONE) for b, s in eng.branch(st, v.a[0], site)]
    return [(s, Some(fld(v, 1, 0)) if b else NONE) for b, s in eng.branch(st, mk('isvar', v, 1), site)]


@model('core::slice::<impl [T]>::iter', 'std::vec::Vec::iter', 'std::collections::VecDeque::iter')
def vec_iter(eng, st, args, c, rty, site):
    v = eng.deref(st, args[0])
    if v.t == 'top':
        return [(st, v)]
    segs = tuple(wrap_ref(s) for s in as_list(v).a)
    return [(st, mk('it', segs))]


def wrap_ref(s):
    if s.t == 'one':
        return one(Vref(s.a[0]))
    return s


@model('core::slice::<impl [T]>::iter_mut', 'std::collections::HashMap::iter_mut', 'std::collections::HashMap::values_mut')
def iter_mut(eng, st, args, c, rty, site):
    return [(eng.tainted(st, 'mutable iteration'), top('mutable iteration'))]


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def it_next(eng, st, args, c, rty, site):
    if c['name'] == 'next_back':
        return [(eng.tainted(st, 'next_back'), top('next_back'))]
    if c.get('rcrate') in OWN and c.get('inst', -1) >= 0:
        return None
    r = ref_target(eng, st, args[0])
    if r.t != 'ref':
        return [(eng.tainted(st, 'next'), top('next'))]
    v = eng.load(st, r.a[0], r.a[1])
    if v.t == 'adt' and v.a[0].split('::')[-1] == 'Range':
        v = range_it(v.a[2][0], v.a[2][1])
        st = st.fork()
        eng.store(st, r.a[0], r.a[1], v)
    if v.t == 'top':
        return [(eng.tainted(st, 'next on unknown'), v)]
    where = eng.next_at
    if where == 'none' and is_it(v) and v.t != 'iwrap' and not absint.has_gen(v):
        if not (v.t == 'it' and (not v.a[0] or v.a[0][0].t == 'one')):
            l = forced(eng, st, v, site)
            if len(l) == 1 and l[0][1].t == 'list' and not contains_top(l[0][1]):
                s, l = l[0]
                out = []
                for b, s2 in eng.branch(s, pos(llen(l)), site):
                    s2 = s2.fork()
                    eng.store(s2, r.a[0], r.a[1], mk('it', as_list(mk('sub', l, Int(1), mk('end'))).a if b else ()))
                    out.append((s2, Some(eng.index(s2, l, Int(0))) if b else NONE))
                return out
    outs = eng.iter_next(st, r.a[0], site, r.a[1])
    if where != 'head':
        # the rest of the round is not left out when an element is
        outs = [(s, x) if x not in (absint.SKIP, absint.REENTER) else (eng.tainted(s, 'next'), top('next')) for s, x in outs]
    return outs


def itval(eng, st, v):
    """iterator passed by value or by &mut"""
    d = eng.deref(st, v)
    if v.t == 'ref' and d.t in ('it', 'itg', 'itn', 'imap', 'ifilter', 'ifmap', 'ienum', 'izipn', 'ichain'):
        return mk('iwrap', ref_target(eng, st, v))
    if d.t == 'adt' and d.a[0].split('::')[-1] == 'Range':
        return range_it(d.a[2][0], d.a[2][1])
    if any(x.t == 'res' and x.a[0] == 'read_dir' for x in d.a[:1] if isinstance(x, T)):
        return mk('it', as_list(mk('listing', d)).a)
    return d


def is_it(v):
    return v.t in ('it', 'itg', 'itn', 'imap', 'ifilter', 'ifmap', 'ienum', 'izipn', 'ichain', 'iwrap')


def adapter(f):
    def g(eng, st, args, c, rty, site):
        if c.get('rcrate') in OWN and c.get('inst', -1) >= 0:
            return None
        v = itval(eng, st, args[0])
        if v.t == 'top' or not is_it(v):
            return [(st, top('iterator'))]
        return [(st, f(eng, st, v, args[1:], c))]
    return g


I = 'std::iter::Iterator::'
M[I + 'map'] = adapter(lambda e, st, v, a, c: mk('imap', v, a[0]))
M[I + 'filter'] = adapter(lambda e, st, v, a, c: mk('ifilter', v, a[0]))
M[I + 'filter_map'] = adapter(lambda e, st, v, a, c: mk('ifmap', v, a[0]))
M[I + 'enumerate'] = adapter(lambda e, st, v, a, c: mk('ienum', v, Int(0)))
M[I + 'copied'] = adapter(lambda e, st, v, a, c: mk('imap', v, mk('fn', json.dumps(
    {'path': 'std::clone::Clone::clone', 'trait': 'std::clone::Clone', 'name': 'clone', 'args': [], 'inst': -1, 'rcrate': 'core'}))))
M[I + 'cloned'] = M[I + 'copied']
M[I + 'by_ref'] = lambda eng, st, args, c, rty, site: [(st, args[0])]
M[I + 'inspect'] = lambda eng, st, args, c, rty, site: [(eng.tainted(st, 'inspect'), top('inspect'))]
M[I + 'peekable'] = lambda eng, st, args, c, rty, site: [(st, top('peekable'))]


def m_chain(eng, st, args, c, rty, site):
    a = itval(eng, st, args[0])
    b = to_iter(eng, st, args[1], ty_of(eng, c, 1), c)
    if a.t == 'top' or b.t == 'top':
        return [(st, top('chain'))]
    if a.t == 'it' and b.t == 'it':
        return [(st, mk('it', a.a[0] + b.a[0]))]
    return [(st, mk('ichain', a, b))]


M[I + 'chain'] = m_chain


def m_rev(eng, st, args, c, rty, site):
    a = itval(eng, st, args[0])

    def rv(v):
        if v.t == 'it':
            return mk('it', rev_segs(v.a[0]))
        if v.t in ('imap', 'ifilter', 'ifmap'):
            x = rv(v.a[0])
            return mk(v.t, x, v.a[1]) if x.t != 'top' else x
        return top('rev')
    return [(st, rv(a))]


M[I + 'rev'] = m_rev


def times(x, n):
    """iterator that gives a value a number of times"""
    r = range_it(Int(0), n)
    if r.t != 'it':
        return top('repeat')
    return mk('it', tuple(mkfor2(s.a[0], s.a[1], (one(x),), 'for') if s.t == 'for' else one(x) for s in r.a[0]))


@model('std::iter::repeat', 'std::iter::repeat_n')
def m_repeat(eng, st, args, c, rty, site):
    x = eng.deep(st, args[0])
    if c['name'] == 'repeat':
        return [(st, mk('irep', x))]
    n = eng.deref(st, args[1])
    return [(st, times(x, n) if n.t != 'top' else top('repeat'))]


def domain_op(tag):
    def f(eng, st, args, c, rty, site):
        a = itval(eng, st, args[0])
        n = eng.deep(st, args[1])
        if a.t == 'irep' and tag == 'take' and n.t != 'top':
            return [(st, times(a.a[0], n))]

        def go(v):
            if v.t == 'it':
                segs = v.a[0]
                k = const_int(n)
                if k == 0:
                    return v if tag == 'skip' else mk('it', ())
                if k is not None and all(s.t == 'one' for s in segs):
                    return mk('it', segs[k:] if tag == 'skip' else segs[:k])
                if k is not None and tag == 'skip' and segs[:k] and len(segs) >= k and all(s.t == 'one' for s in segs[:k]):
                    return mk('it', segs[k:])
                if len(segs) == 1 and segs[0].t == 'for' and len(segs[0].a[2]) == 1 and segs[0].a[2][0].t == 'one':
                    L, b, body = segs[0].a
                    return mk('it', (mkfor2(mk(tag, L, n), b, body, 'for'),))
                return mk('it', as_list(mk(tag, List(*segs), n)).a)
            if v.t in ('imap',):
                x = go(v.a[0])
                return mk(v.t, x, v.a[1]) if x.t != 'top' else x
            return top(tag)
        if a.t == 'top' or n.t == 'top':
            return [(st, top(tag))]
        r = go(a)
        if r.t == 'top':
            return [(s, mk('it', as_list(mk(tag, l, n)).a) if l.t == 'list' else top(tag)) for s, l in forced(eng, st, a, site)]
        return [(st, r)]
    return f


def forced(eng, st, it, site):
    """[(state, list of all the items)] of a lazy iterator whose closures only compute"""
    if not is_it(it) or it.t == 'iwrap':
        return [(st, top('iterator'))]
    out = collect_list(eng, st, it, site)
    for s, l in out:
        if any(s.mem.get(c) is not v for c, v in st.mem.items()):
            return [(s, top('iterator with effects')) for s, l in out]
    return out


M[I + 'skip'] = domain_op('skip')
M[I + 'take'] = domain_op('take')
M[I + 'step_by'] = domain_op('stepby')


def while_op(tag):
    def f(eng, st, args, c, rty, site):
        a = itval(eng, st, args[0])
        if a.t == 'it' and len(a.a[0]) == 1 and a.a[0][0].t == 'for':
            L, b, body = a.a[0][0].a
            if len(body) == 1 and body[0].t == 'one' and body[0].a[0] is b:
                return [(st, mk('it', (mkfor2(mk(tag, L, eng.deep(st, args[1])), b, body, 'for'),)))]
        f_ = eng.deep(st, args[1])
        return [(s, mk('it', as_list(mk(tag, l, f_)).a) if l.t == 'list' else top(tag)) for s, l in forced(eng, st, a, site)]
    return f


M[I + 'take_while'] = while_op('takewhile')
M[I + 'skip_while'] = while_op('skipwhile')


def m_zip(eng, st, args, c, rty, site):
    a = itval(eng, st, args[0])
    b = to_iter(eng, st, args[1], ty_of(eng, c, 1), c)
    if b.t == 'ifrom' and is_it(a):
        # (x, n): enumerate with the components swapped
        return [(st, mk('izipn', a, b.a[0]))]
    if a.t == 'ifrom' and is_it(b):
        return [(st, mk('ienum', b, a.a[0]))]
    if a.t == 'it' and b.t == 'it' and all(s.t == 'one' for s in a.a[0]) and all(s.t == 'one' for s in b.a[0]):
        return [(st, mk('it', tuple(one(Tup(x.a[0], y.a[0])) for x, y in zip(a.a[0], b.a[0]))))]
    if a.t == 'it' and b.t == 'it' and len(a.a[0]) == 1 and len(b.a[0]) == 1 and a.a[0][0].t == 'for' and b.a[0][0].t == 'for':
        s1, s2 = a.a[0][0], b.a[0][0]
        if s1.a[0] is s2.a[0] and len(s1.a[2]) == 1 and len(s2.a[2]) == 1 and s1.a[2][0].t == 'one' and s2.a[2][0].t == 'one':
            y = subst(s2.a[2][0].a[0], {s2.a[1]: s1.a[1]})
            return [(st, mk('it', (mkfor2(s1.a[0], s1.a[1], (one(Tup(s1.a[2][0].a[0], y)),), 'for'),)))]
    out = []
    for s, l in forced(eng, st, a, site):
        for s2, l2 in forced(eng, s, b, site):
            ok = l.t == 'list' and l2.t == 'list' and not contains_top(l) and not contains_top(l2)
            out.append((s2, mk('it', as_list(mk('zipped', l, l2)).a) if ok else top('zip')))
    return out


M[I + 'zip'] = m_zip


# ---- consumers

def consume(eng, st, it, body, site):
    """run body(state, x) -> [(kind, payload, state)] over an iterator; returns loop results"""
    st = st.fork()
    cell = eng.cell()
    st.mem[cell] = it

    def step(s):
        out = []
        for s2, x in eng.iter_next(s, cell, site):
            if x is SKIP:
                out.append(('back', None, s2))
            elif x is REENTER:
                out.append(('reenter', None, s2))
            elif x is NONE:
                out.append(('exit', None, s2))
            else:
                out += body(s2, fld(x, 1, 0))
        return out
    res = eng.summarize(st, step, site)
    for k, p, s in res:
        s.mem.pop(cell, None)
    return res


def collect_list(eng, st, it, site):
    if it.t == 'it':
        return [(st, List(*it.a[0]))]
    st = st.fork()
    acc = eng.cell()
    st.mem[acc] = List()

    def body(s, x):
        s = s.fork()
        l = s.mem[acc]
        s.mem[acc] = List(*(l.a + (one(x),))) if l.t == 'list' else l
        return [('back', None, s)]
    out = []
    for k, p, s in consume(eng, st, it, body, site):
        v = s.mem.pop(acc)
        out.append((s, v))
    return out


def collect_into(eng, st, it, kind, site, start=None):
    """collect into 'vec' | 'map' | 'set' | 'str' | 'path'"""
    if kind == 'vec':
        r = collect_list(eng, st, it, site)
        if start is not None:
            r = [(s, List(*(as_list(start).a + l.a)) if l.t == 'list' else l) for s, l in r]
        return r
    st = st.fork()
    acc = eng.cell()
    st.mem[acc] = start if start is not None else {'map': mk('map', ()), 'set': mk('map', ()), 'str': Str(), 'path': List()}[kind]

    def body(s, x):
        s = s.fork()
        v = s.mem[acc]
        if v.t == 'top':
            return [('back', None, s)]
        if kind == 'map':
            x = eng.deref(s, x)
            s.mem[acc] = map_add(v, mk('ins', eng.deep(s, fld(x, 0, 0)), eng.deep(s, fld(x, 0, 1))))
        elif kind == 'set':
            s.mem[acc] = map_add(v, mk('ins', eng.deep(s, x), UNIT))
        elif kind == 'str':
            d = eng.deref(s, x)
            # characters or strings
            if d.t == 'chr':
                d = Str(chr(d.a[0]))
            s.mem[acc] = Str(v, d)
        else:
            s.mem[acc] = List(*(v.a + (one(x),)))
        return [('back', None, s)]
    out = []
    for k, p, s in consume(eng, st, it, body, site):
        v = s.mem.pop(acc)
        if kind in ('map', 'set') and v.t == 'map':
            v = absint._remap(map_ops(v))
        if kind == 'path' and v.t == 'list':
            v = mk('pathof', v)
        out.append((s, v))
    return out


def m_collect(eng, st, args, c, rty, site):
    it = itval(eng, st, args[0])
    t = eng.p.types[rty] if rty is not None else None
    if c['name'] == 'from_iter':
        it = to_iter(eng, st, args[0], ty_of(eng, c, 1), c)
    if it.t == 'top' or t is None or not is_it(it):
        return [(st, top('collect'))]
    k = absint.kind_of(t)
    if k in ('result', 'option'):
        inner = absint.kind_of(eng.p.types[t['args'][0]])
        okv = 0 if k == 'result' else 1
        if inner not in ('vec', 'map', 'set', 'str'):
            return [(st, top('collect'))]
        st = st.fork()
        acc = eng.cell()
        st.mem[acc] = List() if inner == 'vec' else Str() if inner == 'str' else mk('map', ())

        def body(s, x):
            out = []
            x = eng.deref(s, x)
            sp = eng.res_split(s, x) if k == 'result' else eng.opt_split(s, x, site)
            for ok, s2 in sp:
                s2 = s2.fork()
                if ok:
                    y = fld(x, okv, 0)
                    v = s2.mem[acc]
                    if v.t != 'top':
                        if inner == 'vec':
                            s2.mem[acc] = List(*(v.a + (one(y),)))
                        elif inner == 'str':
                            s2.mem[acc] = Str(v, eng.deref(s2, y))
                        elif inner == 'map':
                            s2.mem[acc] = map_add(v, mk('ins', eng.deep(s2, fld(y, 0, 0)), eng.deep(s2, fld(y, 0, 1))))
                        else:
                            s2.mem[acc] = map_add(v, mk('ins', eng.deep(s2, y), UNIT))
                    out.append(('back', None, s2))
                else:
                    out.append(('exit', Err(fld(x, 1, 0)) if k == 'result' else NONE, s2))
            return out
        out = []
        for kk, p, s in consume(eng, st, it, body, site):
            v = s.mem.pop(acc)
            out.append((s, p if p is not None else (Ok(v) if k == 'result' else Some(v))))
        return out
    if k in ('vec', 'map', 'set', 'str', 'path'):
        return collect_into(eng, st, it, k, site)
    if k in ('box', 'rc'):
        return collect_into(eng, st, it, 'vec', site)
    return [(st, top('collect'))]


M[I + 'collect'] = m_collect
M['std::iter::FromIterator::from_iter'] = m_collect


def m_extend(eng, st, args, c, rty, site):
    t = ty_of(eng, c, 0)
    k = absint.kind_of(t)
    ti = ty_of(eng, c, 2) or ty_of(eng, c, 1)
    if ti and absint.kind_of(ti) == 'option' and eng.deref(st, args[1]).t not in ('top', 'adt'):
        return [o for s, x in opt_cases(eng, st, eng.deref(st, args[1]), site) for o in m_extend(eng, s, [args[0], x], c, rty, site)]
    it = to_iter(eng, st, args[1], ti, c)
    r = ref_target(eng, st, args[0])
    if it.t == 'top' or r.t != 'ref' or k not in ('vec', 'map', 'set', 'str'):
        st = st.fork()
        if r.t == 'ref':
            eng.store(st, r.a[0], r.a[1], top('extend'))
        return [(st, UNIT)]
    old = eng.load(st, r.a[0], r.a[1])
    if old.t == 'top':
        return [(st, UNIT)]
    start = {'vec': as_list, 'map': as_map, 'set': as_map, 'str': as_str}[k](old)
    out = []
    for s, v in collect_into(eng, st, it, k, site, start):
        s = s.fork()
        eng.store(s, r.a[0], r.a[1], v)
        out.append((s, UNIT))
    return out


M['std::iter::Extend::extend'] = m_extend
M['std::vec::Vec::extend'] = m_extend


def loop_consumer(f):
    def g(eng, st, args, c, rty, site):
        if c.get('rcrate') in OWN and c.get('inst', -1) >= 0:
            return None
        it = itval(eng, st, args[0])
        if it.t == 'top' or not is_it(it):
            st = eng.tainted(st, 'iteration over unknown')
            return [(st, top(c['name']))]
        out = f(eng, st, it, args, c, rty, site)
        # an iterator passed by reference has been used up
        return out
    return g


def c_for_each(eng, st, it, args, c, rty, site):
    def body(s, x):
        return [('back', None, s2) for s2, _ in eng.call_value(args[1], [x], s, None, site)]
    return [(s, UNIT) for k, p, s in consume(eng, st, it, body, site)]


def c_any(eng, st, it, args, c, rty, site):
    neg = c['name'] == 'all'

    def body(s, x):
        out = []
        for s2, r in eng.call_value(args[1], [x], s, None, site):
            for b, s3 in eng.branch(s2, r, site):
                if b != neg:
                    out.append(('exit', Bool(not neg), s3))
                else:
                    out.append(('back', None, s3))
        return out
    return [(s, p if p is not None else Bool(neg)) for k, p, s in consume(eng, st, it, body, site)]


def find_closed(eng, st, it, args, nm, site):
    """the first (last) of the items that satisfy a predicate without effects, as a term"""
    wrap = None
    if it.t == 'iwrap':
        wrap = it.a[0]
        if wrap.t != 'ref':
            return None
        it = eng.load(st, wrap.a[0], wrap.a[1])
    if not is_it(it) or it.t in ('iwrap', 'itg', 'itn'):
        return None
    items = forced(eng, st, it, site)
    if len(items) != 1 or items[0][1].t != 'list' or contains_top(items[0][1]):
        return None
    s0, l0 = items[0]
    vals, cnt, at = eng.cell(), eng.cell(), eng.cell()
    s0 = s0.fork()
    s0.mem[vals], s0.mem[at], s0.mem[cnt] = List(), List(), Int(0)

    def push(s, c, v):
        l = s.mem[c]
        s.mem[c] = List(*(l.a + (one(v),))) if l.t == 'list' and v.t != 'top' else top(nm)

    def body(s, x):
        res = []
        for s2, r in eng.call_value(args[1], [Vref(x) if nm in ('find', 'rfind') else x], s, None, site):
            for b, s3 in (eng.opt_split if nm == 'find_map' else eng.branch)(s2, r, site):
                s3 = s3.fork()
                i = s3.mem[cnt]
                if b:
                    push(s3, at, i)
                    push(s3, vals, fld(eng.deref(s3, r), 1, 0) if nm == 'find_map' else x)
                s3.mem[cnt] = add(i, Int(1)) if i.t != 'top' else i
                res.append(('back', None, s3))
        return res
    out = consume(eng, s0, mk('it', l0.a), body, site)
    if len(out) != 1:
        return None
    s = out[0][2]
    vals, at = s.mem.pop(vals), s.mem.pop(at)
    s.mem.pop(cnt)
    if vals.t != 'list' or at.t != 'list' or contains_top(vals) or contains_top(at) or s.taint - st.taint:
        return None
    if any(s.mem.get(c) is not v for c, v in st.mem.items()):
        return None
    l = at if nm in ('position', 'rposition') else vals
    res = []
    for b, s2 in eng.branch(s, pos(llen(l)), site):
        if wrap is not None:
            s2 = s2.fork()
            i = eng.index(s2, at, Int(0))
            eng.store(s2, wrap.a[0], wrap.a[1], mk('it', ()) if not b else top('rest') if nm[0] == 'r' else
                      mk('it', as_list(mk('sub', l0, add(i, Int(1)), mk('end'))).a))
        res.append((s2, Some(mk('last', l) if nm[0] == 'r' else eng.index(s2, l, Int(0))) if b else NONE))
    return res


def c_find(eng, st, it, args, c, rty, site):
    nm = c['name']
    r = find_closed(eng, st, it, args, nm, site)
    if r is not None:
        return r
    if nm[0] == 'r':
        return [(eng.tainted(st, nm), top(nm))]
    st = st.fork()
    cnt = eng.cell()
    st.mem[cnt] = Int(0)

    def body(s, x):
        out = []
        arg = Vref(x) if nm == 'find' else x
        for s2, r in eng.call_value(args[1], [arg], s, None, site):
            if nm == 'find_map':
                for b, s3 in eng.opt_split(s2, r, site):
                    out.append(('exit', eng.deref(s3, r), s3) if b else ('back', None, s3))
            else:
                for b, s3 in eng.branch(s2, r, site):
                    if b:
                        out.append(('exit', Some(x if nm == 'find' else s3.mem[cnt]), s3))
                    else:
                        s3 = s3.fork()
                        s3.mem[cnt] = add(s3.mem[cnt], Int(1)) if s3.mem[cnt].t != 'top' else s3.mem[cnt]
                        out.append(('back', None, s3))
        return out
    res = []
    for k, p, s in consume(eng, st, it, body, site):
        s.mem.pop(cnt, None)
        res.append((s, p if p is not None else NONE))
    return res


def c_count(eng, st, it, args, c, rty, site):
    return [(s, llen(l) if l.t == 'list' else l) for s, l in collect_list(eng, st, it, site)]


def c_last(eng, st, it, args, c, rty, site):
    st = st.fork()
    acc = eng.cell()
    st.mem[acc] = NONE

    def body(s, x):
        s = s.fork()
        s.mem[acc] = Some(x)
        return [('back', None, s)]
    return [(s, s.mem.pop(acc)) for k, p, s in consume(eng, st, it, body, site)]


def c_fold(eng, st, it, args, c, rty, site):
    tr = c['name'] in ('try_fold',)
    st = st.fork()
    acc = eng.cell()
    st.mem[acc] = args[1]

    def body(s, x):
        out = []
        a = s.mem[acc]
        for s2, r in eng.call_value(args[2], [a, x], s, None, site):
            if tr:
                for ok, s3 in eng.res_split(s2, r):
                    if ok:
                        s3 = s3.fork()
                        s3.mem[acc] = fld(eng.deref(s3, r), 0, 0)
                        out.append(('back', None, s3))
                    else:
                        out.append(('exit', Err(fld(eng.deref(s3, r), 1, 0)), s3))
            else:
                s2 = s2.fork()
                s2.mem[acc] = r
                out.append(('back', None, s2))
        return out
    res = []
    for k, p, s in consume(eng, st, it, body, site):
        v = s.mem.pop(acc)
        res.append((s, p if p is not None else (Ok(v) if tr else v)))
    return res


def c_try_for_each(eng, st, it, args, c, rty, site):
    t = eng.p.types[rty] if rty is not None else None
    if t is None or absint.kind_of(t) != 'result':
        return [(eng.tainted(st, 'try_for_each'), top('try_for_each'))]

    def body(s, x):
        out = []
        for s2, r in eng.call_value(args[1], [x], s, None, site):
            for ok, s3 in eng.res_split(s2, r):
                if ok:
                    out.append(('back', None, s3))
                else:
                    out.append(('exit', Err(fld(eng.deref(s3, r), 1, 0)), s3))
        return out
    return [(s, p if p is not None else Ok(UNIT)) for k, p, s in consume(eng, st, it, body, site)]


for n, f in [('for_each', c_for_each), ('any', c_any), ('all', c_any), ('find', c_find), ('find_map', c_find),
             ('position', c_find), ('rposition', c_find), ('count', c_count), ('last', c_last), ('fold', c_fold), ('try_fold', c_fold),
             ('try_for_each', c_try_for_each)]:
    M[I + n] = loop_consumer(f)


@model(I + 'nth')
def it_nth(eng, st, args, c, rty, site):
    it = itval(eng, st, args[0])
    n = eng.deref(st, args[1])
    src = it
    if it.t == 'iwrap':
        src = eng.deref(st, it.a[0])
    if src.t == 'it' and n.t != 'top':
        l = List(*src.a[0])
        r = ref_target(eng, st, args[0])
        out = []
        for b, s in eng.branch(st, pos(sub(llen(l), n)), site):
            s = s.fork()
            if r.t == 'ref':
                eng.store(s, r.a[0], r.a[1], top('used iterator'))
            out.append((s, Some(eng.index(s, l, n)) if b else NONE))
        return out
    if is_it(src) and n.t != 'top' and src.t != 'iwrap':
        out = []
        r = ref_target(eng, st, args[0])
        for s, l in forced(eng, st, src, site):
            if l.t != 'list':
                out.append((s, top('nth')))
                continue
            for b, s2 in eng.branch(s, pos(sub(llen(l), n)), site):
                s2 = s2.fork()
                if r.t == 'ref':
                    eng.store(s2, r.a[0], r.a[1], top('used iterator'))
                out.append((s2, Some(eng.index(s2, l, n)) if b else NONE))
        return out
    return [(st, top('nth'))]


@model(I + 'max_by_key', I + 'min_by_key')
def it_by_key(eng, st, args, c, rty, site):
    it = itval(eng, st, args[0])
    out = []
    f = eng.deep(st, args[1])
    for s, l in forced(eng, st, it, site):
        if l.t != 'list':
            out.append((s, top(c['name'])))
            continue
        for b, s2 in eng.branch(s, pos(llen(l)), site):
            out.append((s2, Some(mk('aggkey', c['name'], l, f)) if b else NONE))
    return out


@model( I + 'max', I + 'min', I + 'sum', I + 'product', I + 'partition', I + 'unzip',
       I + 'flat_map', I + 'flatten', I + 'scan', I + 'windows', I + 'map_while', I + 'min_by', I + 'max_by')
def it_other(eng, st, args, c, rty, site):
    it = itval(eng, st, args[0])
    if c['name'] in ('sum', 'product') and is_it(it) and eng.p.types[rty]['k'] == 'int':
        return [(s, mk('agg', c['name'], l) if l.t == 'list' else top(c['name'])) for s, l in forced(eng, st, it, site)]
    if c['name'] in ('max', 'min') and is_it(it):
        out = []
        for s, l in forced(eng, st, it, site):
            if l.t != 'list':
                out.append((s, top(c['name'])))
                continue
            for b, s2 in eng.branch(s, pos(llen(l)), site):
                out.append((s2, Some(mk('aggx', c['name'], l)) if b else NONE))
        return out
    if c['name'] == 'flatten' and is_it(it):
        # Option/Result elements: keep the present ones
        k = item_kind(eng, c, it)
        if k:
            return [(st, mk('ifmap', it, mk('fn', json.dumps({'path': '#present_' + k, 'name': 'present', 'args': [], 'inst': -1, 'rcrate': 'core'}))))]
    if c['name'] == 'partition' and is_it(it):
        t = eng.p.types[rty]
        if t['k'] == 'tuple' and all(absint.kind_of(eng.p.types[x]) == 'vec' for x in t['ts']):
            f = eng.deep(st, args[1])
            return [(s, Tup(as_list(mk('keepif', l, f)), as_list(mk('dropif', l, f))) if l.t == 'list' else top('partition'))
                    for s, l in forced(eng, st, it, site)]
    return [(eng.tainted(st, c['name']), top(c['name']))]


def item_kind(eng, c, it):
    t = eng.p.types[c['args'][0]]
    if 'ReadDir' in t['name']:
        return 'result'
    m = re.search(r'Iter(?:Mut)?<(?:\'[^,]*, )?&?(?:mut )?(std::option::Option|std::result::Result|Option|Result)<', t['name'])
    return m.group(1).split('::')[-1].lower() if m else None


@model('#present_option', 'std::convert::identity', 'thiserror::display::DisplayAsDisplay::as_display')
def present_option(eng, st, args, c, rty, site):
    return [(st, args[0])]


@model('#present_result')
def present_result(eng, st, args, c, rty, site):
    x = eng.deref(st, args[0])
    return [(s, Some(fld(x, 0, 0)) if ok else NONE) for ok, s in eng.res_split(st, x)]


# ---------------------------------------------------------------- file system and paths

def effect(name):
    def f(eng, st, args, c, rty, site):
        st = st.fork()
        vals = tuple(eng.deep(st, a) for a in args)
        res = mk('res', name, vals)
        eng.event(st, mk('ev', name, vals, res, site), site)
        return [(st, res)]
    return f


for n in ['metadata', 'symlink_metadata', 'read_dir', 'read_to_string', 'read', 'write', 'create_dir', 'create_dir_all', 'remove_file',
          'remove_dir', 'remove_dir_all', 'rename', 'copy', 'canonicalize', 'hard_link', 'exists', 'read_link',
          'set_permissions']:
    M['std::fs::' + n] = effect(n)
M['std::fs::File::create'] = effect('file_create')
M['std::fs::File::open'] = effect('file_open')
M['std::fs::File::create_new'] = effect('file_create')
M['std::fs::OpenOptions::open'] = effect('file_options_open')
M['std::fs::OpenOptions::new'] = M['std::fs::File::options'] = lambda eng, st, args, c, rty, site: [(st, mk('oopts', ()))]
M['std::io::BufWriter::new'] = M['std::io::LineWriter::new'] = ident


@model(*['std::fs::OpenOptions::' + n for n in ('read', 'write', 'append', 'truncate', 'create', 'create_new')])
def open_option(eng, st, args, c, rty, site):
    r = ref_target(eng, st, args[0])
    v = eng.deref(st, r)
    b = eng.deref(st, args[1])
    if r.t != 'ref' or v.t != 'oopts':
        return [(st, top('open options'))]
    st = st.fork()
    eng.store(st, r.a[0], r.a[1], mk('oopts', tuple(x for x in v.a[0] if x[0] != c['name']) + ((c['name'], b),)))
    return [(st, args[0])]


@model('std::io::Write::write_fmt')
def io_write_fmt(eng, st, args, c, rty, site):
    return effect('write_all')(eng, st, args, c, rty, site)


@model('anyhow::error::<impl anyhow::Error>::downcast_ref', 'anyhow::error::<impl anyhow::Error>::is', 'anyhow::error::<impl anyhow::Error>::downcast')
def downcast(eng, st, args, c, rty, site):
    e = eng.deep(st, args[0])
    t = eng.p.types[c['args'][-1]]
    if contains_top(e):
        return [(st, top('downcast'))]
    return [(st, mk('app', 'error_' + c['name'], (e, Str(t.get('path', t['name'])))))]


M['std::io::Error::kind'] = app('error_kind')
M['std::path::Component::as_os_str'] = app('comp_as_os_str')
M['std::io::Write::write_all'] = effect('write_all')
M['std::io::Write::write'] = effect('write_some')
M['std::io::Write::flush'] = effect('flush')
M['std::fs::DirBuilder::create'] = effect('create_dir_all')
M['std::path::Path::canonicalize'] = effect('canonicalize')
M['std::path::Path::metadata'] = effect('metadata')
M['std::path::Path::read_dir'] = effect('read_dir')
M['std::fs::DirEntry::metadata'] = effect('entry_metadata')
M['std::fs::DirEntry::file_type'] = effect('entry_file_type')


@model('std::io::Read::read_to_string')
def io_read(eng, st, args, c, rty, site):
    st = st.fork()
    f = eng.deep(st, args[0])
    res = mk('res', 'read_to_string', (f,))
    eng.event(st, mk('ev', 'read_to_string', (f,), res, site), site)
    return [(append_to(eng, st, args[1], Str(fld(res, 0, 0))), res)]


for n in ['is_dir', 'is_file', 'exists', 'extension', 'file_name', 'file_stem', 'parent', 'to_str', 'strip_prefix',
          'with_extension', 'with_file_name', 'join', 'display', 'to_string_lossy', 'is_absolute', 'is_relative',
          'starts_with', 'ends_with', 'has_root', 'is_symlink', 'try_exists']:
    M['std::path::Path::' + n] = app('path_' + n)
for n in ['is_dir', 'is_file', 'len', 'is_symlink', 'file_type']:
    M['std::fs::Metadata::' + n] = app('meta_' + n)
    M['std::fs::FileType::' + n] = app('ftype_' + n)
M['std::fs::DirEntry::path'] = app('entry_path')
M['std::fs::DirEntry::file_name'] = app('entry_file_name')
M['std::ffi::OsStr::to_str'] = app('path_to_str')
for n in ['to_ascii_lowercase', 'to_ascii_uppercase', 'eq_ignore_ascii_case', 'is_ascii', 'len', 'is_empty']:
    M['std::ffi::OsStr::' + n] = app('str_' + n)
M['std::ffi::OsStr::to_string_lossy'] = app('path_to_string_lossy')
M['std::ffi::OsString::into_string'] = app('os_into_string')


@model('std::path::PathBuf::push')
def path_push(eng, st, args, c, rty, site):
    st = st.fork()
    r = ref_target(eng, st, args[0])
    if r.t == 'ref':
        v = eng.load(st, r.a[0], r.a[1])
        if v.t != 'top':
            eng.store(st, r.a[0], r.a[1], mk('app', 'path_join', (v, eng.deep(st, args[1]))))
    return [(st, UNIT)]


@model('std::path::PathBuf::set_extension')
def path_set_ext(eng, st, args, c, rty, site):
    st = st.fork()
    r = ref_target(eng, st, args[0])
    if r.t == 'ref':
        v = eng.load(st, r.a[0], r.a[1])
        if v.t != 'top':
            eng.store(st, r.a[0], r.a[1], mk('app', 'path_with_extension', (v, eng.deep(st, args[1]))))
    return [(st, mk('app', 'set_extension_ok', ()))]


@model('std::path::PathBuf::set_file_name')
def path_set_name(eng, st, args, c, rty, site):
    st = st.fork()
    r = ref_target(eng, st, args[0])
    if r.t == 'ref':
        v = eng.load(st, r.a[0], r.a[1])
        if v.t != 'top':
            eng.store(st, r.a[0], r.a[1], mk('app', 'path_with_file_name', (v, eng.deep(st, args[1]))))
    return [(st, UNIT)]


@model('std::path::PathBuf::pop')
def path_pop(eng, st, args, c, rty, site):
    st = st.fork()
    r = ref_target(eng, st, args[0])
    if r.t == 'ref':
        eng.store(st, r.a[0], r.a[1], top('path pop'))
    return [(st, top('path pop'))]


@model('anyhow::private::new_adhoc', 'anyhow::Error::msg', 'anyhow::private::format_err', 'anyhow::Error::new',
       'anyhow::private::msg')
def anyhow_new(eng, st, args, c, rty, site):
    return [(st, mk('anyhow', eng.deep(st, args[0])))]


@model('anyhow::Context::context', 'anyhow::Context::with_context')
def anyhow_context(eng, st, args, c, rty, site):
    r = eng.deref(st, args[0])
    if r.t == 'adt' and r.a[0] == RES:
        if r.a[1] == 0:
            return [(st, r)]
        return [(st, Err(mk('anyhow', eng.deep(st, r.a[2][0]))))]
    t = ty_of(eng, c, 0)
    out = []
    if r.t == 'top':
        return [(st, r)]
    if t and absint.kind_of(t) == 'option':
        for ok, s in eng.opt_split(st, r, site):
            out.append((s, Ok(eng.payload(s, r)) if ok else Err(mk('anyhow', Str('context')))))
        return out
    for ok, s in eng.res_split(st, r):
        out.append((s, Ok(fld(r, 0, 0)) if ok else Err(mk('anyhow', eng.deep(s, fld(r, 1, 0))))))
    return out


@model('clap::Clap::parse')
def clap_parse(eng, st, args, c, rty, site):
    return [(st, mk('sym', 'opts'))]
