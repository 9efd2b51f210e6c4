"""Models of external functions for the abstract interpreter.

A model is `f(eng, st, callee, vals, d, target, unw)`; it returns the call's
value, or None after scheduling the continuation states itself.
"""
import re
from node import *

INF = float('inf')


# -- helpers

def value(eng, st, v):
    """Follows references to the value."""
    for _ in range(8):
        if v.k == 'ref':
            w = eng.load(st, v.a[0], v.a[1])
            if w is v:
                return v
            v = w
        elif v.k == 'boxed':
            v = v.a[0]
        elif v.k == 'op' and v.a[0] in ('cstring',) and False:
            v = v.a[1][0]
        elif ('D', v) in st.cells:
            w = st.cells[('D', v)]
            if w is v:
                return v
            v = w
        else:
            return v
    return v


def refv(v):
    if v.k == 'str':
        return v
    return mk('ref', ('V', v), ())


def fork(eng, st, d, target, alts):
    """alts: (prepare(st) -> bool or None, value)."""
    n = len(alts)
    for i, (prep, v) in enumerate(alts):
        s = st if i == n - 1 else st.copy()
        if prep is not None and prep(s) is False:
            continue
        eng.result(s, d, target, v)


def opt(eng, st, d, target, term, payload, note=None):
    """An Option decided by the term `term`."""
    k = eng.variant(st, term)
    if k == 0:
        eng.result(st, d, target, NONE)
        return
    if k == 1:
        eng.result(st, d, target, some(payload))
        return

    def p(i):
        def f(s):
            s.facts[term] = ('v', i)
            s.note('%s is %s' % (show(term, 3), ('None', 'Some')[i]))
            return eng.assume_fork(s, term, i)
        return f
    fork(eng, st, d, target, [(p(0), NONE), (p(1), some(payload))])


def arg_mut(eng, i):
    """Whether the current call's argument i is a mutable reference."""
    t = eng.curcall
    if t is None or i >= len(t[2]):
        return False
    o = t[2][i]
    p = o.get('copy') or o.get('move')
    tid = p[2] if p else (o['const'].get('ty') if 'const' in o else None)
    if tid is None:
        return False
    ty = eng.T[tid]
    return ty['k'] in ('ref', 'ptr') and bool(ty.get('mut'))


def havoc_args(eng, st, vals, path='call'):
    for i, v in enumerate(vals):
        if v.k == 'ref' and arg_mut(eng, i) and v.a[0][0] != 'V':
            x = eng.fresh(st, 'out:' + path, eng.site(st) + (i,))
            eng.store(st, v.a[0], v.a[1], x)


# -- collections

def segs(eng, v):
    if v.k == 'seq':
        return v.a[0]
    if v.k == 'agg' and v.a[0] == 'array':
        return tuple(('one', ('a', i), x) for i, x in enumerate(v.a[2]))
    if v.k == 'bytes':
        return tuple(('one', ('a', i), I(x)) for i, x in enumerate(v.a[0])) if isinstance(v.a[0], tuple) and len(v.a[0]) < 40 else (('base', v),)
    return (('base', v),)


def mkseq(s):
    if len(s) == 1 and s[0][0] == 'base':
        return s[0][1]
    return mk('seq', tuple(s))


EMPTYSEQ = mk('seq', ())


def freeze(eng, st, v, d=6):
    """A self-contained copy of a value: owned heap cells become contents."""
    if d == 0:
        return v
    if v.k == 'ref' and v.a[0][0] == 'H' and not v.a[1]:
        return mk('boxed', freeze(eng, st, eng.load(st, v.a[0]), d - 1))
    if v.k == 'agg':
        return mk('agg', v.a[0], v.a[1], tuple(freeze(eng, st, x, d) for x in v.a[2]))
    return v


def relfacts(st, v):
    if not v.leaves:
        return EMPTY
    return frozenset((t, f) for t, f in st.facts.items() if t.leaves and t.leaves <= v.leaves and not all(x.k == 'sym' for x in t.leaves))


def iswit(v):
    return any(x.k == 'sym' and str(x.a[0]).startswith('W:') for x in v.leaves)


def seq_push(eng, st, sv, val, site):
    r = seq_push1(eng, st, sv, val, site)
    if r.k == 'seq' and any(x[0] == 'star' for x in r.a[0]) and not any(x[0] in ('one', 'base') for x in r.a[0]):
        # What was just added is there.
        n = mk('op', 'len', (r,))
        forget_len(st, r)
        eng.refine(st, n, 1, INF, EMPTY)
    return r


def seq_push1(eng, st, sv, val, site):
    val = freeze(eng, st, val)
    s = list(segs(eng, sv))
    if iswit(val):
        if not any(x[0] == 'one' and x[2] is val for x in s):
            s.append(('one', site, val))
        return mkseq(s)
    if len(s) < eng.precise and all(x[0] == 'one' for x in s):
        n = sum(1 for x in s if isinstance(x[1], tuple) and x[1][:1] == (site,))
        s.append(('one', (site, n), val))
        return mkseq(s)
    for i, x in enumerate(s):
        if x[0] == 'star' and x[1] == site:
            star_add(eng, site, val, relfacts(st, val))
            if i < len(s) - 1 and any(y[0] == 'one' and iswit(y[2]) for y in s[i + 1:]) and not any(
                    y[0] == 'star' and y[1] == site for y in s[i + 1:]):
                s.append(('star', site))
            return mkseq(s)
        if x[0] == 'one' and x[1] == site and not iswit(x[2]):
            old = x[2]
            star_add(eng, site, old, x[3] if len(x) > 3 else EMPTY)
            star_add(eng, site, val, relfacts(st, val))
            s[i] = ('star', site)
            return mkseq(s)
    s.append(('one', site, val))
    return mkseq(s)


def star_add(eng, site, val, facts):
    key = (val, facts)
    es = eng.site_elems.setdefault(site, {})
    if key in es:
        return
    es[key] = True
    for rd in eng.readers.get(site, [])[:]:
        rd(key)


def star_read(eng, st, site, val, facts):
    """Renames apart the leaves of a star element, and restores its facts."""
    for l in sorted((x for x in val.leaves if x.k != 'sym' and x.k != 'old'), key=lambda x: x.id):
        # Only terms made in a loop with the push.
        if l.k in ('res', 'elem'):
            if any(l in c.leaves for c in st.cells.values()) or any(l in t.leaves for t in st.facts):
                eng.displace(st, l)
    for t, f in facts:
        st.facts[t] = f
    return val


def new_it(eng, st, sv, mode):
    return mk('it', sv, 0, mode, eng.site(st))


def elem_out(v, mode):
    """Presents a collection's element to an iterator's consumer."""
    if mode == 'own':
        return v
    if mode == 'ref':
        return refv(v)
    a = fldof(v, 0)
    b = fldof(v, 1)
    if mode == 'map':
        return tup(a, b)
    if mode == 'mapref':
        return tup(refv(a), refv(b))
    if mode == 'keys':
        return a
    if mode == 'keysref':
        return refv(a)
    if mode == 'vals':
        return b
    if mode == 'valsref':
        return refv(b)
    raise KeyError(mode)


def fldof(v, i):
    if v.k == 'agg':
        return v.a[2][i]
    return mk('fld', v, 0, i)


def it_next(eng, st, cell, path, it, d, target):
    """Option<Item>; the iterator is stored back."""
    sv, pos, mode, site = it.a
    sg = segs(eng, sv)

    def fin(s, p, v):
        eng.store(s, cell, path, mk('it', sv, p, mode, site))
        eng.result(s, d, target, v)
    some_ = pos == 0 and all(g[0] == 'star' for g in sg) and nonempty_fact(eng, st, sv)
    while pos < len(sg):
        g = sg[int(pos)]
        if g[0] == 'del':
            pos += 1
            continue
        if g[0] == 'one':
            s = st
            v = g[2]
            fin(s, pos + 1, some(elem_out(v, mode)))
            return
        if g[0] == 'base':
            s = st.copy()
            e = mk('elem', g[1], site)
            eng.displace(s, e)
            s.note('another element of %s' % show(g[1], 3))
            ok_ = True
            for m in eng.monitors:
                f = getattr(m, 'on_elem', None)
                if f and f(s, g[1], e) is False:
                    ok_ = False
            if ok_:
                fin(s, pos, some(elem_out(e, mode)))
            pos += 1
            continue
        if g[0] == 'star':
            psite = g[1]
            p0 = int(pos) + 0.5 if some_ or pos != int(pos) else pos
            base = st.copy()

            def rd(key, base=base, p0=p0):
                s = base.copy()
                # The iterator itself may mention displaced terms: store first.
                v = star_read(eng, s, psite, key[0], key[1])
                s.note('an element made at %s' % (psite[0].a[1] if isinstance(psite[0], N) else psite[0],))
                fin(s, p0, some(elem_out(v, mode)))
            eng.readers.setdefault(psite, []).append(rd)
            for key in list(eng.site_elems.get(psite, {})):
                rd(key)
            pos = int(pos) + 1
            continue
        raise KeyError(g[0])
    if not some_:
        fin(st, pos, NONE)


def forget_len(st, v):
    n = mk('op', 'len', (v,))
    st.facts.pop(n, None)
    st.facts.pop(op('Eq', n, I(0)), None)


def nonempty_fact(eng, st, sv):
    """Whether something was added to a collection of an unknown number of elements, and nothing taken since."""
    return sv.k == 'seq' and sv.a[0] and eng.rng(st, mk('op', 'len', (sv,)))[0] >= 1


def min_len(v):
    if v.k == 'seq':
        return sum(1 for s in v.a[0] if s[0] == 'one')
    return 0


def seqlen(eng, st, v):
    v = value(eng, st, v)
    if v.k == 'seq':
        if all(s[0] == 'one' for s in v.a[0]):
            return I(len(v.a[0]))
        if v.a[0] and False:
            return None
    if v.k == 'agg' and v.a[0] == 'array':
        return I(len(v.a[2]))
    if v.k == 'str':
        return I(len(v.a[0].encode()))
    if v.k == 'bytes' and isinstance(v.a[0], tuple):
        return I(len(v.a[0]))
    return mk('op', 'len', (v,))


def length(eng, st, v):
    return seqlen(eng, st, v)


def index_value(eng, st, v, e):
    if v.k == 'boxed':
        v = v.a[0]
    i = None
    if e[0] == 'ci':
        i = e[1] if not e[2] else None
        iv = I(e[1]) if not e[2] else mk('op', 'fromend', (I(e[1]),))
    else:
        iv = e[1]
        if isinstance(iv, N) and iv.k == 'int':
            i = iv.a[0]
    if v.k == 'agg' and i is not None:
        return v.a[2][i] if i < len(v.a[2]) else mk('bot')
    if v.k == 'seq' and i is not None and all(s[0] == 'one' for s in v.a[0][:i + 1]) and i < len(v.a[0]):
        return v.a[0][i][2]
    if v.k == 'upd':
        for l, x in v.a[1]:
            if l == (0, ('i', iv)):
                return x
        return index_value(eng, st, v.a[0], e)
    if v.k == 'undef':
        return v
    return mk('op', 'index', (v, iv))


def store_index(eng, st, v, e, val):
    i = e[1] if e[0] == 'ci' and not e[2] else (e[1].a[0] if isinstance(e[1], N) and e[1].k == 'int' else None)
    if v.k == 'agg' and i is not None and i < len(v.a[2]):
        f = list(v.a[2])
        f[i] = val
        return mk('agg', v.a[0], v.a[1], tuple(f))
    if v.k == 'seq' and i is not None and i < len(v.a[0]) and all(s[0] == 'one' for s in v.a[0][:i + 1]):
        f = list(v.a[0])
        f[i] = (f[i][0], f[i][1], val)
        return mk('seq', tuple(f))
    return mk('op', 'setindex', (v, e[1] if isinstance(e[1], N) else I(e[1]), val))


# -- synthetic operations

def s_newseq(eng, st, c, vals, d, target, unw):
    eng.result(st, d, target, EMPTYSEQ)


def s_push(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = eng.load(st, cell, path)
    # The site is that of the collecting call.
    site = (st.fr.ctx, 'push')
    eng.store(st, cell, path, seq_push(eng, st, sv, vals[1], site))
    eng.result(st, d, target, UNIT)


def s_mkout(eng, st, c, vals, d, target, unw):
    eng.result(st, d, target, agg(c['out'][0], c['out'][1], vals[0]))


def s_opaque(eng, st, c, vals, d, target, unw):
    eng.result(st, d, target, eng.fresh(st, 'opaque', eng.site(st)))


def s_next(eng, st, c, vals, d, target, unw):
    do_next(eng, st, vals[0], d, target, unw)


def do_next(eng, st, r, d, target, unw):
    """Iterator::next on a reference to an iterator value."""
    cell, path = eng.deref(st, r)
    v = eng.load(st, cell, path)
    n = 0
    while v.k in ('ref',) and n < 8:
        cell, path = eng.deref(st, v)
        v = eng.load(st, cell, path)
        n += 1
    if v.k == 'it':
        it_next(eng, st, cell, path, v, d, target)
        return
    if v.k == 'agg' and isinstance(v.a[0], str):
        t = eng.P.bykey.get(v.a[0])
        if t and t.get('next') and t['next'] in eng.F:
            eng.push(st, t['next'], [mk('ref', cell, path)], d, target, unw)
            return
        if v.a[0] == 'Range':
            pass
    if v.k == 'op' and v.a[0] == 'rangeiter':
        pass
    # Opaque iterator.
    s = st.copy()
    e = mk('elem', v, eng.site(st))
    eng.displace(s, e)
    eng.result(s, d, target, some(e))
    eng.result(st, d, target, NONE)


def s_callf(eng, st, c, vals, d, target, unw):
    args = vals[1]
    args = list(args.a[2]) if args.k == 'agg' else [args]
    eng.callf(st, vals[0], args, d, target, unw)


def s_poll(eng, st, c, vals, d, target, unw):
    do_poll(eng, st, vals[0], d, target, unw)


def do_poll(eng, st, r, d, target, unw, name=None):
    cell, path = eng.deref(st, r)
    v = eng.load(st, cell, path)
    n = 0
    while v.k in ('ref',) and n < 8:
        cell, path = eng.deref(st, v)
        v = eng.load(st, cell, path)
        n += 1
    if v.k == 'boxed':
        # Owned future kept in a collection.
        v = v.a[0]
    if v.k == 'cor':
        body = v.a[0]
        if body in eng.F:
            eng.push(st, body, [mk('ref', cell, path), mk('sym', 'context')], d, target, unw)
            return
    if v.k == 'agg' and isinstance(v.a[0], str):
        if v.a[0] == 'Timeout':
            from absint import SYN
            eng.push(st, '$timeout', [mk('ref', cell, path)], d, target, unw)
            return
        if v.a[0] == 'Task':
            eng.push(st, '$task', [mk('ref', cell, path)], d, target, unw)
            return
        t = eng.P.bykey.get(v.a[0])
        if t and t.get('poll') and t['poll'] in eng.F:
            eng.push(st, t['poll'], [mk('ref', cell, path), mk('sym', 'context')], d, target, unw)
            return
    # An external future.
    for m in eng.monitors:
        f = getattr(m, 'on_poll', None)
        if f:
            f(st, v)
    s = st.copy()
    x = eng.fresh(s, 'await', eng.site(st), v)
    for m in eng.monitors:
        f = getattr(m, 'on_ready', None)
        if f:
            f(s, v, x)
    s.note('ready: %s' % show(v, 3))
    eng.result(s, d, target, ready(x))
    eng.result(st, d, target, PENDING)


def s_suspend(eng, st, c, vals, d, target, unw):
    suspend(eng, st)
    eng.result(st, d, target, UNIT)


def suspend(eng, st):
    for m in eng.monitors:
        f = getattr(m, 'on_suspend', None)
        if f:
            f(st)
    # Other tasks may have changed shared cells.
    for c in [c for c in st.cells if c[0] in ('D', 'W')]:
        del st.cells[c]
    leaves = set()
    for v in st.cells.values():
        leaves |= v.leaves
    for t in st.facts:
        leaves |= t.leaves
    leaves |= eng.monleaves(st.mon)
    for l in sorted((x for x in leaves if x.k == 'cont'), key=lambda x: x.id):
        eng.displace(st, l)


def s_timeout_pending(eng, st, c, vals, d, target, unw):
    s = st.copy()
    dur = value(eng, st, vals[0])
    x = eng.fresh(s, 'elapsed', eng.site(st), dur)
    s.note('timeout after %s' % show(dur, 3))
    for m in eng.monitors:
        f = getattr(m, 'on_timeout', None)
        if f:
            f(s, dur)
    eng.result(s, d, target, ready(err(x)))
    eng.result(st, d, target, PENDING)


def s_ready_ok(eng, st, c, vals, d, target, unw):
    eng.result(st, d, target, ready(ok(vals[0])))


# -- models by path

MODELS = {}
REGEX = []


def model(*paths):
    def deco(f):
        for p in paths:
            if any(ch in p for ch in '^$*+?[\\') and p.startswith('^'):
                REGEX.append((re.compile(p), f))
            else:
                MODELS[p] = f
        return f
    return deco


_cache = {}


def norm(p):
    """Drops generic arguments' names that vary: keeps the path as is."""
    return p


def lookup(path, decl, c):
    k = (path, decl, c.get('kind'))
    if k in _cache:
        return _cache[k]
    m = MODELS.get(path)
    if m is None:
        for rx, f in REGEX:
            if rx.match(path):
                m = f
                break
    if m is None:
        m = MODELS.get('decl ' + decl)
        if m is not None and c.get('body') and decl not in FORCE_DECL:
            m = None
    _cache[k] = m
    return m


FORCE_DECL = set()


def ident(eng, st, c, vals, d, target, unw):
    return value(eng, st, vals[0])


def through(eng, st, c, vals, d, target, unw):
    return vals[0]


def deref1(eng, st, c, vals, d, target, unw):
    v = vals[0]
    cell, path = eng.deref(st, v)
    w = eng.load(st, cell, path)
    return w


for p in ('<alloc::string::String as core::ops::deref::Deref>::deref', '<alloc::ffi::c_str::CString as core::ops::deref::Deref>::deref',
          '<std::path::PathBuf as core::ops::deref::Deref>::deref', '<bytes::bytes::Bytes as core::ops::deref::Deref>::deref',
          '<bytes::bytes_mut::BytesMut as core::ops::deref::Deref>::deref', 'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes',
          'alloc::string::String::as_str', 'core::ffi::c_str::CStr::as_ptr', 'core::slice::<impl [T]>::as_ptr', 'alloc::vec::Vec::<T, A>::as_ptr',
          'std::path::Path::as_os_str', '<std::ffi::os_str::OsStr as std::os::unix::ffi::os_str::OsStrExt>::as_bytes',
          '<T as alloc::borrow::ToOwned>::to_owned', '<T as alloc::string::ToString>::to_string',
          'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', 'alloc::slice::<impl [T]>::to_vec',
          'core::ffi::c_str::CStr::from_ptr', 'alloc::ffi::c_str::CString::into_raw', 'alloc::ffi::c_str::CString::from_raw',
          'alloc::ffi::c_str::CString::as_ptr', 'alloc::string::String::into_bytes', 'alloc::vec::Vec::<T, A>::as_slice',
          '<std::path::PathBuf as core::convert::From<&T>>::from', '<std::path::PathBuf as core::convert::From<alloc::string::String>>::from',
          '<http_body_util::full::Full<D> as core::convert::From<alloc::string::String>>::from',
          '<http_body_util::full::Full<D> as core::convert::From<alloc::vec::Vec<u8>>>::from',
          '<alloc::string::String as core::convert::From<&str>>::from', '<bytes::bytes::Bytes as core::convert::From<alloc::vec::Vec<u8>>>::from',
          'alloc::string::<impl core::convert::From<&str> for alloc::string::String>::from', 'alloc::string::String::into_boxed_str',
          'core::str::<impl str>::to_string', 'core::str::<impl str>::as_ptr', 'core::convert::AsRef::as_ref',
          '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<std::path::PathBuf as core::convert::AsRef<std::path::Path>>::as_ref',
          '<str as core::convert::AsRef<std::path::Path>>::as_ref', '<alloc::string::String as core::borrow::Borrow<str>>::borrow',
          'core::borrow::Borrow::borrow', 'std::path::PathBuf::as_path', 'std::path::Path::new', 'std::path::Path::to_path_buf',
          '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref', 'core::iter::traits::iterator::Iterator::by_ref'):
    MODELS[p] = ident

for p in ('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
          '<&T as core::ops::deref::Deref>::deref_x', '<T as core::convert::From<T>>::from', '<T as core::convert::Into<U>>::into_x',
          '<F as core::future::into_future::IntoFuture>::into_future', '<I as core::iter::traits::collect::IntoIterator>::into_iter',
          'core::hint::must_use', 'alloc::vec::Vec::<T, A>::as_mut_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'core::array::<impl [T; N]>::as_mut_slice', 'core::iter::traits::iterator::Iterator::fuse_x',
          'alloc::vec::Vec::<T, A>::as_mut_slice', 'core::convert::identity', 'std::panic::AssertUnwindSafe',
          'core::hint::black_box', 'alloc::boxed::Box::<T>::pin_x', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref_x',
          'core::num::<impl i32>::from', 'core::pin::Pin::<Ptr>::new'):
    MODELS[p] = through

for p in ('<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref', '<alloc::sync::Arc<T, A> as core::ops::deref::Deref>::deref',
          '<core::cell::Ref<\'_, T> as core::ops::deref::Deref>::deref',
          '<core::cell::RefMut<\'_, T> as core::ops::deref::Deref>::deref', '<core::cell::RefMut<\'_, T> as core::ops::deref::DerefMut>::deref_mut',
          '<std::sync::poison::rwlock::RwLockReadGuard<\'_, T> as core::ops::deref::Deref>::deref',
          '<std::sync::poison::rwlock::RwLockWriteGuard<\'_, T> as core::ops::deref::Deref>::deref',
          '<std::sync::poison::rwlock::RwLockWriteGuard<\'_, T> as core::ops::deref::DerefMut>::deref_mut',
          '<tokio::sync::watch::Ref<\'_, T> as core::ops::deref::Deref>::deref',
          '<&T as core::ops::deref::Deref>::deref', '<&mut T as core::ops::deref::Deref>::deref', '<&mut T as core::ops::deref::DerefMut>::deref_mut',
          '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref', '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut',
          '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::rcs::rc::Rc<T, A> as core::convert::AsRef<T>>::as_ref'):
    MODELS[p] = deref1


@model('alloc::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::pin', 'alloc::rcs::rc::Rc::<T>::new', 'alloc::sync::Arc::<T>::new',
       'alloc::rcs::rc::Rc::<T>::pin')
def m_box(eng, st, c, vals, d, target, unw):
    cell = ('H', st.fr.ctx, st.blk)
    if cell in st.cells:
        rename_cell(eng, st, cell)
    st.cells[cell] = vals[0]
    return mk('ref', cell, ())


def rename_cell(eng, st, cell):
    """The heap cell of a previous loop iteration becomes an older one."""
    new = cell[:3] + ('old',)
    if not any(cell in _cellrefs(v) for c, v in st.cells.items()):
        return
    st.cells[new] = st.cells.pop(cell)
    for c, v in list(st.cells.items()):
        if cell in _cellrefs(v):
            st.cells[c] = subst_cell(v, cell, new)
    if st.mon:
        st.mon = _submon(st.mon, cell, new)


def _submon(x, cell, new):
    if isinstance(x, N):
        return subst_cell(x, cell, new)
    if isinstance(x, tuple):
        return tuple(_submon(y, cell, new) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_submon(y, cell, new) for y in x)
    return x


def _cellrefs(v):
    from absint import cellrefs
    return cellrefs(v)


def subst_cell(n, cell, new):
    if isinstance(n, N):
        if cell not in _cellrefs(n):
            return n
        if n.k == 'ref' and n.a[0] == cell:
            return mk('ref', new, n.a[1])
        return mk(n.k, *[subst_cell(x, cell, new) for x in n.a])
    if isinstance(n, tuple):
        return tuple(subst_cell(x, cell, new) for x in n)
    return n


@model('<alloc::rcs::rc::Rc<T, A> as core::clone::Clone>::clone', '<alloc::sync::Arc<T, A> as core::clone::Clone>::clone',
       'decl core::clone::Clone::clone', '<tokio::sync::watch::Receiver<T> as core::clone::Clone>::clone',
       '^<.* as core::clone::Clone>::clone$', '^core::clone::impls::<impl core::clone::Clone for .*>::clone$',
       '<T as alloc::borrow::ToOwned>::to_owned')
def m_clone(eng, st, c, vals, d, target, unw):
    if c.get('body') and not (c.get('path') or '').startswith('<procstar::spec'):
        # Option::clone and derived clones copy the value.
        pass
    cell, path = eng.deref(st, vals[0])
    v = eng.load(st, cell, path)
    return v


MODELS['decl core::clone::Clone::clone'] = m_clone
FORCE_DECL.add('core::clone::Clone::clone')


@model('core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied')
def m_cloned(eng, st, c, vals, d, target, unw):
    v = vals[0]
    if v.k == 'agg':
        if v.a[1] == 0:
            return NONE
        x = v.a[2][0]
        cell, path = eng.deref(st, x)
        return some(eng.load(st, cell, path))
    return v


# Cells, locks

@model('core::cell::RefCell::<T>::borrow', 'core::cell::RefCell::<T>::borrow_mut')
def m_borrow(eng, st, c, vals, d, target, unw):
    p = vals[0]
    cell, path = eng.deref(st, p)
    if cell[0] == 'D' and not path and cell not in st.cells:
        st.cells[cell] = mk('cont', cell[1])
        return mk('ref', cell, path)
    return mk('ref', cell, path)


for p in ('core::cell::RefCell::<T>::new', 'core::cell::RefCell::<T>::into_inner', 'std::sync::poison::rwlock::RwLock::<T>::new',
          'core::cell::Cell::<T>::new', 'core::mem::manually_drop::ManuallyDrop::<T>::new', 'core::mem::manually_drop::ManuallyDrop::<T>::into_inner'):
    MODELS[p] = through


@model('std::sync::poison::rwlock::RwLock::<T>::read', 'std::sync::poison::rwlock::RwLock::<T>::write', 'std::sync::poison::mutex::Mutex::<T>::lock')
def m_lock(eng, st, c, vals, d, target, unw):
    return ok(vals[0])


@model('<std::sync::poison::rwlock::RwLock<T> as core::convert::From<T>>::from')
def m_lockfrom(eng, st, c, vals, d, target, unw):
    return vals[0]


@model('alloc::rcs::rc::Rc::<T, A>::into_inner', 'alloc::sync::Arc::<T, A>::into_inner')
def m_into_inner(eng, st, c, vals, d, target, unw):
    v = vals[0]
    cell, path = eng.deref(st, v)
    return some(eng.load(st, cell, path))


@model('alloc::rcs::rc::Rc::<T, A>::try_unwrap')
def m_try_unwrap(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    return ok(eng.load(st, cell, path))


@model('core::mem::swap', 'core::intrinsics::typed_swap_nonoverlapping')
def m_swap(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    b = eng.deref(st, vals[1])
    x, y = eng.load(st, *a), eng.load(st, *b)
    for m in eng.monitors:
        f = getattr(m, 'on_write', None)
        if f:
            f(st, b, x)
            f(st, a, y)
    eng.store(st, a[0], a[1], y)
    eng.store(st, b[0], b[1], x)
    return UNIT


@model('core::ptr::read', 'core::ptr::const_ptr::<impl *const T>::read', 'core::ptr::mut_ptr::<impl *mut T>::read')
def m_ptr_read(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    return eng.load(st, *a)


@model('core::ptr::write', 'core::ptr::mut_ptr::<impl *mut T>::write')
def m_ptr_write(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    eng.store(st, a[0], a[1], vals[1])
    return UNIT


@model('core::mem::replace')
def m_replace(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    x = eng.load(st, *a)
    eng.store(st, a[0], a[1], vals[1])
    return x


@model('core::mem::take')
def m_take(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    x = eng.load(st, *a)
    eng.store(st, a[0], a[1], EMPTYSEQ if x.k == 'seq' else mk('op', 'default', ()))
    return x


@model('core::mem::drop', 'core::mem::forget')
def m_drop(eng, st, c, vals, d, target, unw):
    key = c.get('key')
    if 'drop' in (c.get('path') or '') and key in eng.F:
        eng.push(st, key, vals, d, target, unw)
        return None
    return UNIT


# Comparison

@model('decl core::cmp::PartialEq::eq', 'decl core::cmp::PartialEq::ne', '<alloc::string::String as core::cmp::PartialEq<str>>::eq',
       'core::str::traits::<impl core::cmp::PartialEq for str>::eq', '^.*core::cmp::PartialEq<&B> for &A>::eq$', '^.*core::cmp::PartialEq<&B> for &A>::ne$',
       '<core::option::Option<T> as core::cmp::PartialEq>::eq')
def m_eq(eng, st, c, vals, d, target, unw):
    neg = c['decl'].endswith('::ne')
    a, b = value(eng, st, vals[0]), value(eng, st, vals[1])
    r = eq_term(eng, st, a, b)
    if neg:
        r = eng.M.negate(r)
    t = eng.truth(st, r)
    return I(t) if t is not None else r


def negate(r):
    if r.k == 'int':
        return I(1 - r.a[0])
    if r.k == 'op' and r.a[0] == 'Eq':
        return mk('op', 'Ne', r.a[1])
    if r.k == 'op' and r.a[0] == 'Ne':
        return mk('op', 'Eq', r.a[1])
    if r.k == 'op' and r.a[0] == 'Not':
        return r.a[1][0]
    return op('Not', r)


def eq_term(eng, st, a, b):
    if a is b:
        return TRUE
    if a.k in ('str', 'int', 'bytes') and b.k in ('str', 'int', 'bytes'):
        return FALSE if a.k == b.k else op('Eq', a, b)
    if b.k == 'agg' and not (a.k == 'agg'):
        a, b = b, a
    if a.k == 'agg' and (not isinstance(a.a[0], str) or a.a[0] == 'tuple') and a.a[1] and not a.a[2] and b.k != 'agg':
        # A variant of an enum whose type is private elsewhere.
        return op('isv', b, I(a.a[1]))
    if a.k == 'agg' and isinstance(a.a[0], str):
        t = eng.P.bykey.get(a.a[0]) or eng.P.tdef.get(a.a[0])
        if b.k == 'agg' and b.a[0] == a.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            rs = [eq_term(eng, st, value(eng, st, x), value(eng, st, y)) for x, y in zip(a.a[2], b.a[2])]
            rs = [r for r in rs if r is not TRUE]
            if not rs:
                return TRUE
            if any(r is FALSE for r in rs):
                return FALSE
            if len(rs) == 1:
                return rs[0]
            return op('and', *rs)
        if t and t['k'] == 'enum' and not a.a[2]:
            return op('isv', b, I(a.a[1]))
        if t and t['k'] == 'struct' and len(a.a[2]) == 1 and b.k in ('fld', 'res', 'op', 'sym', 'cont'):
            # Of a newtype, the inside.
            return eq_term(eng, st, value(eng, st, a.a[2][0]), mk('fld', b, 0, 0))
    if (a.k == 'int', a.id) > (b.k == 'int', b.id):
        a, b = b, a
    return op('Eq', a, b)


@model('core::slice::<impl [T]>::contains', 'std::collections::hash::set::HashSet::<T, S, A>::contains', 'std::collections::hash::set::HashSet::<T, S>::contains',
       'alloc::collections::btree::set::BTreeSet::<T, A>::contains')
def m_contains(eng, st, c, vals, d, target, unw):
    sv = value(eng, st, vals[0])
    k = value(eng, st, vals[1])
    return contains_term(eng, st, sv, k, False)


@model('std::collections::hash::set::HashSet::<T, S, A>::take', 'std::collections::hash::set::HashSet::<T, S>::take', 'alloc::collections::btree::set::BTreeSet::<T, A>::take')
def m_set_take(eng, st, c, vals, d, target, unw):
    k = value(eng, st, vals[1])
    was = m_set_remove(eng, st, c, vals, d, target, unw)
    tr = eng.truth(st, was)
    if tr is not None:
        return some(k) if tr else NONE

    def p(i):
        return lambda s: eng.assume(s, was, i) and eng.assume_fork(s, was, i)
    fork(eng, st, d, target, [(p(0), NONE), (p(1), some(k))])


@model('alloc::collections::btree::map::BTreeMap::<K, V, A>::contains_key', 'std::collections::hash::map::HashMap::<K, V, S, A>::contains_key',
       'std::collections::hash::map::HashMap::<K, V, S>::contains_key')
def m_contains_key(eng, st, c, vals, d, target, unw):
    sv = value(eng, st, vals[0])
    k = value(eng, st, vals[1])
    return contains_term(eng, st, sv, k, True)


def contains_term(eng, st, sv, k, ismap):
    for s in segs(eng, sv):
        if s[0] == 'one' and (fldof(s[2], 0) if ismap else s[2]) is k:
            return TRUE
    if sv.k == 'seq' and all(s[0] == 'one' for s in sv.a[0]):
        rs = [eq_term(eng, st, value(eng, st, fldof(s[2], 0) if ismap else s[2]), k) for s in sv.a[0]]
        if any(r is TRUE for r in rs):
            return TRUE
        if all(r is FALSE for r in rs):
            return FALSE
    return op('contains', sv, k)


# Maps, sets, vectors

def key_model(ismap):
    def m(eng, st, c, vals, d, target, unw):
        pass
    return m


GET = ['alloc::collections::btree::map::BTreeMap::<K, V, A>::get', 'std::collections::hash::map::HashMap::<K, V, S, A>::get',
       'alloc::collections::btree::map::BTreeMap::<K, V, A>::get_mut', 'std::collections::hash::map::HashMap::<K, V, S, A>::get_mut']


@model(*GET)
def m_get(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = value(eng, st, vals[0])
    k = value(eng, st, vals[1])
    for i, s in enumerate(segs(eng, sv)):
        if s[0] == 'one' and fldof(s[2], 0) is k:
            if 'get_mut' in (c.get('path') or '') and sv.k == 'seq' and s[2].k == 'agg' and cell[0] != 'V' and all(x[0] == 'one' for x in sv.a[0][:i]):
                # Writable.
                return some(ref(cell, path + (('i', I(i)), (0, 1))))
            return some(refv(fldof(s[2], 1)))
    if sv.k == 'seq' and not sv.a[0]:
        return NONE
    t = op('map_get', sv, k)
    mut = 'get_mut' in (c.get('path') or '')
    # Symbolic: the element with the key.
    sg = segs(eng, sv)
    if all(s[0] in ('base', 'del') for s in sg):
        b = [s[1] for s in sg if s[0] == 'base'][0]
        if any(s[0] == 'del' and s[1] is k for s in sg):
            return NONE
        opt(eng, st, d, target, t, refv(op('map_val', b, k)))
        return None
    # A local collection.
    local_find(eng, st, sv, k, d, target, lambda s, v: some(mk('ref', ('V', fldof(v, 1)), ())), NONE)
    return None


def local_find(eng, st, sv, k, d, target, found, missing, upd=None):
    """Forks over the elements of a local map that may have key k; keys are unique."""
    rest = st.copy()
    for s in segs(eng, sv):
        if s[0] != 'one':
            continue
        r = eq_term(eng, rest, fldof(s[2], 0), k)
        if r is FALSE:
            continue
        s2 = rest.copy()
        if eng.assume(s2, r, 1):
            if upd:
                upd(s2, s)
            eng.result(s2, d, target, found(s2, s[2]))
        if r is TRUE or not eng.assume(rest, r, 0):
            return
    st = rest
    for s in segs(eng, sv):
        if s[0] == 'star':
            def rd(key, psite=s[1], base=st.copy()):
                s2 = base.copy()
                # The element found may be the newest of its site.
                v = key[0]
                for t, f in key[1]:
                    if t not in s2.facts:
                        s2.facts[t] = f
                r = eq_term(eng, s2, fldof(v, 0), k)
                if r is FALSE or not eng.assume(s2, r, 1):
                    return
                if upd:
                    upd(s2, None)
                eng.result(s2, d, target, found(s2, v))
            eng.readers.setdefault(s[1], []).append(rd)
            for key in list(eng.site_elems.get(s[1], {})):
                rd(key)
    bs = []
    for s in segs(eng, sv):
        if s[0] == 'base' and s[1] not in bs:
            bs.append(s[1])
            # What an earlier search found in this part holds.
            t = op('map_get', mkseq([s]), k)
            kk = eng.variant(st, t)
            if kk == 0 or any(x[0] == 'del' and x[1] is k for x in segs(eng, sv)):
                continue
            s2 = st.copy()
            s2.facts[t] = ('v', 1)
            if upd:
                upd(s2, s)
            eng.result(s2, d, target, found(s2, op('map_ent', s[1], k)))
            if kk == 1:
                return
            st.facts[t] = ('v', 0)
    eng.result(st.copy(), d, target, missing)


@model('alloc::collections::btree::map::BTreeMap::<K, V, A>::insert', 'std::collections::hash::map::HashMap::<K, V, S, A>::insert')
def m_insert(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = eng.load(st, cell, path)
    if sv.k == 'boxed':
        sv = sv.a[0]
    k = value(eng, st, vals[1])
    sg = segs(eng, sv)
    old = None
    rest = []
    for s in sg:
        if s[0] == 'one' and fldof(s[2], 0) is k:
            old = fldof(s[2], 1)
            continue
        if s[0] == 'del' and s[1] is k:
            continue
        rest.append(s)
    site = eng.site(st)
    nv = seq_push(eng, st, mkseq(rest), tup(k, vals[2]), site)
    eng.store(st, cell, path, nv)
    if old is not None:
        return some(old)
    if all(s[0] == 'one' for s in rest):
        return NONE
    return eng.fresh(st, 'map_insert', site, sv, k)


@model('alloc::collections::btree::map::BTreeMap::<K, V, A>::remove', 'std::collections::hash::map::HashMap::<K, V, S, A>::remove',
       'std::collections::hash::map::HashMap::<K, V, S>::remove')
def m_remove(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = eng.load(st, cell, path)
    if sv.k == 'boxed':
        sv = sv.a[0]
    k = value(eng, st, vals[1])
    sg = segs(eng, sv)
    for s in sg:
        if s[0] == 'one' and fldof(s[2], 0) is k:
            eng.store(st, cell, path, mkseq([x for x in sg if x is not s]))
            return some(fldof(s[2], 1))
        if s[0] == 'del' and s[1] is k:
            return NONE
    if not sg:
        return NONE
    if all(s[0] in ('base', 'del') for s in sg):
        b = [s[1] for s in sg if s[0] == 'base'][0]
        t = op('map_get', sv, k)
        kk = eng.variant(st, t)
        if kk == 0:
            return NONE
        s2 = st.copy()
        if kk is None:
            s2.facts[t] = ('v', 1)
            st.facts[t] = ('v', 0)
            eng.result(st, d, target, NONE)
        eng.store(s2, cell, path, mkseq(list(sg) + [('del', k)]) if len(sg) < 6 else sv)
        eng.result(s2, d, target, some(op('map_val', b, k)))
        return None

    def upd(s, seg):
        if seg is not None and seg[0] == 'one':
            eng.store(s, cell, path, mkseq([x for x in sg if x is not seg]))
        elif seg is not None and seg[0] == 'base' and len(sg) < 8:
            eng.store(s, cell, path, mkseq(list(sg) + [('del', k)]))
        else:
            forget_len(s, sv)
    local_find(eng, st, sv, k, d, target, lambda s, v: some(fldof(v, 1)), NONE, upd)
    return None


@model('std::collections::hash::set::HashSet::<T, S>::insert', 'alloc::collections::btree::set::BTreeSet::<T, A>::insert',
       'std::collections::hash::set::HashSet::<T, S, A>::insert')
def m_set_insert(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = eng.load(st, cell, path)
    k = value(eng, st, vals[1])
    r = contains_term(eng, st, sv, k, False)
    if r is TRUE:
        return FALSE
    eng.store(st, cell, path, seq_push(eng, st, sv, k, eng.site(st)))
    return negate(r)


@model('std::collections::hash::set::HashSet::<T, S, A>::remove', 'std::collections::hash::set::HashSet::<T, S>::remove',
       'alloc::collections::btree::set::BTreeSet::<T, A>::remove')
def m_set_remove(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = eng.load(st, cell, path)
    k = value(eng, st, vals[1])
    sg = segs(eng, sv)
    for s in sg:
        if s[0] == 'one' and s[2] is k:
            eng.store(st, cell, path, mkseq([x for x in sg if x is not s]))
            return TRUE
    return contains_term(eng, st, sv, k, False)


for p in ('alloc::collections::btree::map::BTreeMap::<K, V>::new', 'alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity',
          'std::collections::hash::set::HashSet::<T>::new', 'std::collections::hash::map::HashMap::<K, V>::new',
          'alloc::collections::btree::set::BTreeSet::<T>::new', '<alloc::vec::Vec<T> as core::default::Default>::default',
          '<alloc::collections::btree::map::BTreeMap<K, V> as core::default::Default>::default',
          '<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default',
          'std::collections::hash::set::HashSet::<T>::with_capacity', 'std::collections::hash::map::HashMap::<K, V>::with_capacity'):
    MODELS[p] = lambda eng, st, c, vals, d, target, unw: EMPTYSEQ


@model('alloc::vec::Vec::<T, A>::push')
def m_push(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = eng.load(st, cell, path)
    if sv.k == 'boxed':
        sv = sv.a[0]
    eng.store(st, cell, path, seq_push(eng, st, sv, vals[1], eng.site(st)))
    return UNIT


@model('alloc::vec::Vec::<T, A>::append')
def m_append(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    b = eng.deref(st, vals[1])
    va, vb = eng.load(st, *a), eng.load(st, *b)
    eng.store(st, a[0], a[1], concat(eng, va, vb))
    eng.store(st, b[0], b[1], EMPTYSEQ)
    return UNIT


def concat(eng, va, vb):
    if vb.k == 'seq' and not vb.a[0]:
        return va
    sa, sb = list(segs(eng, va)), segs(eng, vb)
    if va.k == 'seq' and not va.a[0]:
        return vb
    for s in sb:
        if s not in sa:
            sa.append(s)
    if len(sa) > 12:
        return op('concat', va, vb)
    return mkseq(sa)


@model('alloc::vec::Vec::<T, A>::extend_from_slice')
def m_extend_slice(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    va, vb = eng.load(st, *a), value(eng, st, vals[1])
    eng.store(st, a[0], a[1], concat(eng, va, vb))
    return UNIT


@model('alloc::vec::Vec::<T, A>::clear', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::clear', 'std::collections::hash::map::HashMap::<K, V, S, A>::clear')
def m_clear(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    eng.store(st, a[0], a[1], EMPTYSEQ)
    return UNIT


@model('alloc::vec::Vec::<T, A>::truncate', 'alloc::vec::Vec::<T, A>::resize')
def m_resize(eng, st, c, vals, d, target, unw):
    a = eng.deref(st, vals[0])
    v = eng.load(st, *a)
    nm = (c.get('path') or '').split('::')[-1]
    eng.store(st, a[0], a[1], op(nm, v, *vals[1:]))
    return UNIT


@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len',
       'bytes::bytes::Bytes::len', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::len', 'std::collections::hash::map::HashMap::<K, V, S, A>::len',
       'std::collections::hash::set::HashSet::<T, S, A>::len', 'std::collections::hash::map::HashMap::<K, V, S>::len')
def m_len(eng, st, c, vals, d, target, unw):
    return seqlen(eng, st, vals[0])


@model('alloc::collections::btree::map::BTreeMap::<K, V, A>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty',
       'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'std::collections::hash::map::HashMap::<K, V, S, A>::is_empty',
       'std::collections::hash::set::HashSet::<T, S, A>::is_empty')
def m_is_empty(eng, st, c, vals, d, target, unw):
    n = seqlen(eng, st, vals[0])
    if n.k == 'int':
        return I(n.a[0] == 0)
    if nonempty(value(eng, st, vals[0])):
        return FALSE
    r = op('Eq', n, I(0))
    t = eng.truth(st, r)
    return I(t) if t is not None else r


def nonempty(v):
    """Whether a collection has a known element."""
    return v.k == 'seq' and any(s[0] == 'one' for s in v.a[0]) and not any(s[0] == 'del' for s in v.a[0])


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_first(eng, st, c, vals, d, target, unw):
    v = value(eng, st, vals[0])
    sg = segs(eng, v)
    if not sg:
        return NONE
    w = (c.get('path') or '').split('::')[-1]
    x = sg[0] if w == 'first' else sg[-1]
    if x[0] == 'one':
        return some(refv(x[2]))
    opt(eng, st, d, target, op(w, v), refv(op('item_' + w, v)))


@model('core::slice::<impl [T]>::get')
def m_slice_get(eng, st, c, vals, d, target, unw):
    v = value(eng, st, vals[0])
    t = op('get', v, *[value(eng, st, x) for x in vals[1:]])
    opt(eng, st, d, target, t, refv(op('item', v, *[value(eng, st, x) for x in vals[1:]])))


@model('alloc::collections::btree::map::BTreeMap::<K, V, A>::first_key_value')
def m_first_kv(eng, st, c, vals, d, target, unw):
    v = value(eng, st, vals[0])
    if v.k == 'seq' and not v.a[0]:
        return NONE
    e = eng.fresh(st, 'first', eng.site(st), v)
    if nonempty(v):
        return some(tup(refv(fldof(e, 0)), refv(fldof(e, 1))))
    fork(eng, st, d, target, [(None, NONE), (None, some(tup(refv(fldof(e, 0)), refv(fldof(e, 1)))))])


@model('alloc::collections::btree::map::BTreeMap::<K, V, A>::pop_first')
def m_pop_first(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    v = eng.load(st, cell, path)
    if v.k == 'seq' and not v.a[0]:
        return NONE
    s = st.copy()
    e = eng.fresh(s, 'popped', eng.site(st), v)
    eng.store(s, cell, path, eng.fresh(s, 'rest', eng.site(st), v))
    eng.result(s, d, target, some(e))
    if not nonempty(v):
        eng.result(st, d, target, NONE)


@model('alloc::vec::Vec::<T, A>::pop')
def m_pop(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    v = eng.load(st, cell, path)
    sg = segs(eng, v)
    if not sg:
        return NONE
    if sg[-1][0] == 'one':
        eng.store(st, cell, path, mkseq(sg[:-1]))
        return some(sg[-1][2])
    some_ = nonempty_fact(eng, st, v)
    s = st.copy()
    forget_len(s, v)
    e = eng.fresh(s, 'popped', eng.site(st), v)
    eng.result(s, d, target, some(e))
    if not some_:
        eng.result(st, d, target, NONE)


@model('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
       'core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::array::<impl core::ops::index::Index<I> for [T; N]>::index',
       'core::str::traits::<impl core::ops::index::Index<I> for str>::index', '<alloc::string::String as core::ops::index::Index<I>>::index',
       '<bytes::bytes::Bytes as core::ops::index::Index<I>>::index')
def m_index(eng, st, c, vals, d, target, unw):
    i = value(eng, st, vals[1])
    for m in eng.monitors:
        f = getattr(m, 'on_index', None)
        if f:
            f(st, value(eng, st, vals[0]), i)
    if i.k == 'agg':
        v = value(eng, st, vals[0])
        nm = i.a[0].split('::')[-1].split('#')[0]
        return refv(op('slice:' + nm, v, *i.a[2]))
    cell, path = eng.deref(st, vals[0])
    return mk('ref', cell, path + (('i', i),))


# Iterators

def it_model(mode):
    def f(eng, st, c, vals, d, target, unw):
        v = value(eng, st, vals[0]) if mode.endswith('ref') or mode in ('ref',) else vals[0]
        if v.k == 'ref':
            v = value(eng, st, v)
        if v.k == 'boxed':
            v = v.a[0]
        return new_it(eng, st, v, mode)
    return f


for p, mo in (
        ('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'own'),
        ('core::slice::<impl [T]>::iter', 'ref'), ('core::slice::<impl [T]>::iter_mut', 'ref'),
        ('core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a [T]>::into_iter', 'ref'),
        ('<&\'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'ref'),
        ('<alloc::collections::btree::map::BTreeMap<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'map'),
        ('alloc::collections::btree::map::BTreeMap::<K, V, A>::into_keys', 'keys'),
        ('alloc::collections::btree::map::BTreeMap::<K, V, A>::into_values', 'vals'),
        ('alloc::collections::btree::map::BTreeMap::<K, V, A>::keys', 'keysref'),
        ('alloc::collections::btree::map::BTreeMap::<K, V, A>::values', 'valsref'),
        ('alloc::collections::btree::map::BTreeMap::<K, V, A>::iter', 'mapref'),
        ('<&\'a alloc::collections::btree::map::BTreeMap<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'mapref'),
        ('std::collections::hash::map::HashMap::<K, V, S, A>::iter', 'mapref'),
        ('std::collections::hash::map::HashMap::<K, V, S, A>::keys', 'keysref'),
        ('std::collections::hash::map::HashMap::<K, V, S, A>::values', 'valsref'),
        ('std::collections::hash::map::HashMap::<K, V, S>::iter', 'mapref'),
        ('std::collections::hash::map::HashMap::<K, V, S>::keys', 'keysref'),
        ('std::collections::hash::map::HashMap::<K, V, S>::values', 'valsref'),
        ('<&\'a std::collections::hash::map::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'mapref'),
        ('<std::collections::hash::map::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'map'),
        ('<std::collections::hash::set::HashSet<T, S, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'own'),
        ('<std::collections::hash::set::HashSet<T, S> as core::iter::traits::collect::IntoIterator>::into_iter', 'own'),
        ('std::collections::hash::set::HashSet::<T, S, A>::iter', 'ref'),
        ('std::collections::hash::set::HashSet::<T, S>::iter', 'ref'),
        ('<&\'a std::collections::hash::set::HashSet<T, S, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'ref'),
        ('core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter', 'own'),
        ('core::array::<impl core::iter::traits::collect::IntoIterator for &\'a [T; N]>::into_iter', 'ref'),
):
    MODELS[p] = it_model(mo)


@model('std::env::vars')
def m_vars(eng, st, c, vals, d, target, unw):
    return mk('it', mk('sym', 'env::vars'), 0, 'own', eng.site(st))


@model('decl core::iter::traits::iterator::Iterator::next')
def m_next(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    v = eng.load(st, cell, path)
    if v.k not in ('it', 'ref') and c.get('body'):
        eng.push(st, c['key'], vals, d, target, unw)
        return None
    if v.k == 'agg' and c.get('path', '').startswith('core::str::iter'):
        pass
    do_next(eng, st, vals[0], d, target, unw)
    return None


FORCE_DECL.add('core::iter::traits::iterator::Iterator::next')


@model('decl core::iter::traits::collect::FromIterator::from_iter', 'decl core::iter::traits::iterator::Iterator::collect_x')
def m_from_iter(eng, st, c, vals, d, target, unw):
    if c.get('body') and 'Result' in (c.get('path') or ''):
        eng.push(st, c['key'], vals, d, target, unw)
        return None
    eng.push(st, '$collect', vals, d, target, unw)
    return None


@model('<std::collections::hash::map::HashMap<K, V> as core::convert::From<[(K, V); N]>>::from', '<alloc::collections::btree::map::BTreeMap<K, V> as core::convert::From<[(K, V); N]>>::from')
def m_from_arr(eng, st, c, vals, d, target, unw):
    return mkseq(segs(eng, vals[0])) if vals[0].k == 'agg' else vals[0]


@model('decl core::iter::traits::collect::Extend::extend')
def m_extend(eng, st, c, vals, d, target, unw):
    v = vals[1]
    ts = [eng.T[t]['s'] for t in c.get('targs') or () if isinstance(t, int)]
    if len(ts) > 1 and ts[0].startswith('alloc::vec::Vec<') and ts[0] in ts[1:]:
        # Another vector of the same type, all of it.
        a = eng.deref(st, vals[0])
        eng.store(st, a[0], a[1], concat(eng, eng.load(st, *a), value(eng, st, v)))
        return UNIT
    if v.k in ('seq', 'agg', 'sym', 'fld', 'res', 'op') and not (v.k == 'agg' and v.a[0] != 'array' and (eng.P.bykey.get(v.a[0]) or {}).get('next')):
        v = new_it(eng, st, value(eng, st, v), 'own')
    eng.push(st, '$extend', [vals[0], v], d, target, unw)
    return None


FORCE_DECL.add('core::iter::traits::collect::FromIterator::from_iter')
FORCE_DECL.add('core::iter::traits::collect::Extend::extend')


@model('decl core::iter::traits::iterator::Iterator::for_each')
def m_for_each(eng, st, c, vals, d, target, unw):
    eng.push(st, '$for_each', vals, d, target, unw)
    return None


for _n in ('find_map', 'find', 'any', 'all', 'position', 'fold'):
    def _f(eng, st, c, vals, d, target, unw, _n=_n):
        eng.push(st, '$' + _n, vals, d, target, unw)
        return None
    MODELS['decl core::iter::traits::iterator::Iterator::' + _n] = _f
    FORCE_DECL.add('core::iter::traits::iterator::Iterator::' + _n)


@model('decl core::iter::traits::iterator::Iterator::try_fold')
def m_try_fold(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    v = eng.load(st, cell, path)
    ts = [eng.T[t]['s'] for t in c.get('targs') or () if isinstance(t, int)]
    r = ts[3] if len(ts) > 3 else ''
    n = 'cf' if r.startswith('core::ops::control_flow') else 'res' if r.startswith('core::result') else 'opt' if r.startswith('core::option') else None
    if v.k == 'it' and n:
        eng.push(st, '$try_fold_' + n, vals, d, target, unw)
    elif c.get('body'):
        eng.push(st, c['key'], vals, d, target, unw)
    else:
        eng.M.unknown(eng, st, c, c.get('path') or c['decl'], vals, d, target, unw)
    return None


FORCE_DECL.add('core::iter::traits::iterator::Iterator::try_fold')


@model('alloc::vec::Vec::<T, A>::retain', 'alloc::vec::Vec::<T, A>::retain_mut', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::retain',
       'std::collections::hash::map::HashMap::<K, V, S, A>::retain', 'std::collections::hash::map::HashMap::<K, V, S>::retain',
       'std::collections::hash::set::HashSet::<T, S, A>::retain', 'std::collections::hash::set::HashSet::<T, S>::retain',
       'alloc::collections::btree::set::BTreeSet::<T, A>::retain')
def m_retain(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    sv = eng.load(st, cell, path)
    if sv.k == 'boxed':
        sv = sv.a[0]
    it = new_it(eng, st, value(eng, st, sv), 'own')
    eng.store(st, cell, path, EMPTYSEQ)
    n = '$retain_map' if 'map' in (c.get('path') or c.get('decl') or '') else '$retain'
    eng.push(st, n, [mk('ref', cell, path), it, vals[1]], d, target, unw)
    return None


for _n in ('rev', 'skip', 'take'):
    def _g(eng, st, c, vals, d, target, unw, _n=_n):
        v = value(eng, st, vals[0])
        if v.k != 'it':
            if c.get('body'):
                eng.push(st, c['key'], vals, d, target, unw)
            else:
                eng.M.unknown(eng, st, c, c.get('path') or c['decl'], vals, d, target, unw)
            return None
        sv, pos, mode, site = v.a
        sg = list(segs(eng, sv))[int(pos):]
        n = vals[1].a[0] if len(vals) > 1 and vals[1].k == 'int' else None
        if all(x[0] == 'one' for x in sg) and (_n == 'rev' or n is not None):
            sg = sg[::-1] if _n == 'rev' else sg[n:] if _n == 'skip' else sg[:n]
            return mk('it', mkseq(sg), 0, mode, site)
        if int(pos):
            sv = mkseq(sg)
        return mk('it', op('iter ' + _n, value(eng, st, sv), *vals[1:]), 0, mode, site)
    MODELS['decl core::iter::traits::iterator::Iterator::' + _n] = _g
    FORCE_DECL.add('core::iter::traits::iterator::Iterator::' + _n)


@model('decl core::iter::traits::iterator::Iterator::count', 'decl core::iter::traits::iterator::Iterator::last', 'decl core::iter::traits::iterator::Iterator::sum')
def m_count(eng, st, c, vals, d, target, unw):
    eng.push(st, '$drain', vals[:1], d, target, unw)
    return None


@model('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::slice::<impl [T]>::into_vec')
def m_into_vec(eng, st, c, vals, d, target, unw):
    v = value(eng, st, vals[0])
    return v


@model('alloc::boxed::box_new_uninit', 'alloc::boxed::Box::<T>::new_uninit')
def m_box_uninit(eng, st, c, vals, d, target, unw):
    cell = ('H', st.fr.ctx, st.blk)
    if cell in st.cells:
        rename_cell(eng, st, cell)
    st.cells[cell] = UNDEF
    return mk('ref', cell, ())


@model('alloc::vec::from_elem')
def m_from_elem(eng, st, c, vals, d, target, unw):
    return op('repeat', vals[0], vals[1])


# Futures

@model('decl core::future::future::Future::poll')
def m_poll(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    v = eng.load(st, cell, path)
    if c.get('body') and v.k not in ('ref',) and not (v.k == 'op' and str(v.a[0]).startswith('future ')) and not (v.k == 'agg' and v.a[0] == 'Timeout') and c.get('kind') != 'virtual':
        key = c['key']
        if eng.F[key]['cor'] or True:
            eng.push(st, key, vals, d, target, unw)
            return None
    do_poll(eng, st, vals[0], d, target, unw)
    return None


FORCE_DECL.add('core::future::future::Future::poll')
FORCE_DECL.add('core::iter::traits::iterator::Iterator::for_each')


@model('^.*::\\{closure#0\\}$')
def m_extcor(eng, st, c, vals, d, target, unw):
    """The body of a coroutine or closure: external coroutines are polled as
    external futures."""
    if c.get('body'):
        fn = eng.F[c['key']]
        if fn['cor'] and vals:
            # The body of an async function: opaque if the function was.
            try:
                v = eng.load(st, *eng.deref(st, vals[0]))
                if v.k == 'agg' and len(v.a[2]) == 1 and v.a[2][0].k == 'ref':
                    v = eng.load(st, *eng.deref(st, v.a[2][0]))
            except Exception:
                v = None
            if v is not None and v.k == 'op' and str(v.a[0]).startswith('future '):
                do_poll(eng, st, vals[0], d, target, unw)
                return None
        if c['decl'].startswith('core::ops::function::Fn') and len(vals) == 2 or len(vals) != fn['argc']:
            vals = eng.untuple(st, vals, fn['argc'])
        eng.push(st, c['key'], vals, d, target, unw)
        return None
    do_poll(eng, st, vals[0], d, target, unw)
    return None


@model('tokio::time::timeout::timeout')
def m_timeout(eng, st, c, vals, d, target, unw):
    return mk('agg', 'Timeout', 0, (vals[0], vals[1]))


@model('tokio::runtime::runtime::Runtime::block_on', 'tokio::task::local::LocalSet::block_on')
def m_block_on(eng, st, c, vals, d, target, unw):
    eng.push(st, '$root', [vals[-1]], d, target, unw)
    return None


@model('tokio::task::local::LocalSet::run_until')
def m_run_until(eng, st, c, vals, d, target, unw):
    return vals[-1]


@model('tokio::task::local::spawn_local', 'tokio::task::spawn::spawn', 'tokio::task::local::LocalSet::spawn_local')
def m_spawn(eng, st, c, vals, d, target, unw):
    f = freeze(eng, st, vals[-1])
    for m in eng.monitors:
        g = getattr(m, 'on_spawn', None)
        if g:
            g(st, vals[-1])
    if eng.inline_tasks:
        # What a task does is seen where its end is awaited.
        return mk('agg', 'Task', 0, (vals[-1],))
    return eng.fresh(st, 'task', eng.site(st))


@model('tokio::macros::support::thread_rng_n')
def m_rng(eng, st, c, vals, d, target, unw):
    n = vals[0].a[0] if vals[0].k == 'int' else 1
    return I(0) if n < 1 else m_rng_fork(eng, st, n, d, target)


def m_rng_fork(eng, st, n, d, target):
    fork(eng, st, d, target, [(None, I(i)) for i in range(n)])


@model('tokio::sync::watch::Receiver::<T>::borrow', 'tokio::sync::watch::Sender::<T>::borrow', 'tokio::sync::watch::Receiver::<T>::borrow_and_update')
def m_watch_borrow(eng, st, c, vals, d, target, unw):
    ch = value(eng, st, vals[0])
    return mk('ref', ('W', watch_key(ch)), ())


def watch_key(ch):
    # Both ends of a channel are fields 0 and 1 of its tuple.
    if ch.k == 'fld' and ch.a[1] == 0 and ch.a[2] in (0, 1):
        return ch.a[0]
    return ch


@model('tokio::sync::watch::Sender::<T>::send')
def m_watch_send(eng, st, c, vals, d, target, unw):
    ch = value(eng, st, vals[0])
    st.cells[('W', watch_key(ch))] = vals[1]
    return eng.fresh(st, c['path'], eng.site(st), ch, vals[1])


@model('tokio::sync::watch::Sender::<T>::send_replace')
def m_watch_replace(eng, st, c, vals, d, target, unw):
    w = mk('ref', ('W', watch_key(value(eng, st, vals[0]))), ())
    old = eng.load(st, *eng.deref(st, w))
    st.cells[w.a[0]] = vals[1]
    return old


@model('tokio::sync::watch::Sender::<T>::send_modify', 'tokio::sync::watch::Sender::<T>::send_if_modified')
def m_watch_modify(eng, st, c, vals, d, target, unw):
    eng.callf(st, vals[1], [mk('ref', ('W', watch_key(value(eng, st, vals[0]))), ())], d, target, unw)


# Diverging

@model('std::process::exit', 'core::intrinsics::abort', 'std::process::abort')
def m_exit(eng, st, c, vals, d, target, unw):
    st.note('process exit')
    eng.emit('on_end', st, 'exit', vals[0] if vals else None)
    return None


PANICS = ('core::option::expect_failed', 'core::option::unwrap_failed', 'core::panicking::panic', 'core::panicking::panic_fmt',
          'core::panicking::panic_explicit', 'core::panicking::panic_display', 'core::panicking::unreachable_display',
          'core::panicking::panic_nounwind_fmt', 'core::panicking::unreachable_default_msg', 'core::panicking::panic_default_msg',
          'core::result::unwrap_failed::unwrap_failed_inner', 'core::result::unwrap_failed', 'core::slice::index::slice_index_fail',
          'std::panicking::begin_panic', 'core::panicking::panic_bounds_check', 'alloc::alloc::handle_alloc_error',
          'core::panicking::assert_failed', 'core::panicking::assert_failed_inner', 'core::panicking::unreachable_display',
          'std::panicking::panic_with_hook', 'core::panicking::panic_in_cleanup', 'core::panicking::panic_cannot_unwind')


@model(*PANICS)
def m_panic(eng, st, c, vals, d, target, unw):
    eng.panic(st, unw, c.get('path') or c['decl'])
    return None


# Logging is disabled, unless an analysis asks for it: messages have no bearing on most properties.

@model('log::max_level')
def m_max_level(eng, st, c, vals, d, target, unw):
    return mk('sym', 'log level')


@model('decl core::cmp::PartialOrd::le', 'decl core::cmp::PartialOrd::lt', 'decl core::cmp::PartialOrd::ge', 'decl core::cmp::PartialOrd::gt')
def m_ord(eng, st, c, vals, d, target, unw):
    targs = ' '.join(str(x) for x in c.get('targs') or []) + (c.get('key') or '')
    if 'LevelFilter' in targs:
        return TRUE if getattr(eng, 'logging', False) else FALSE
    if c.get('body') and 'log::' not in targs:
        eng.push(st, c['key'], vals, d, target, unw)
        return None
    a, b = value(eng, st, vals[0]), value(eng, st, vals[1])
    o = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[c['decl'].split('::')[-1]]
    return eng.binop(st, o, a, b)


FORCE_DECL.update('core::cmp::PartialOrd::' + x for x in ('le', 'lt', 'ge', 'gt'))


@model('log::__private_api::log', 'std::io::stdio::_eprint', 'std::io::stdio::_print')
def m_unit(eng, st, c, vals, d, target, unw):
    return UNIT


# lazy statics

@model('lazy_static::lazy::Lazy::<T>::get')
def m_lazy(eng, st, c, vals, d, target, unw):
    v = value(eng, st, vals[0])
    return mk('ref', ('S', 'lazy:' + (c.get('key') or '')), ())


# Strings

INTS = '(?:[iu](?:8|16|32|64|128|size)|f32|f64)'


# Arithmetic on references to numbers.
@model('^<&?%s as core::ops::(?:arith|bit)::\\w+(?:<&?%s>)?>::(?:add|sub|mul|div|rem|bitand|bitor|bitxor|shl|shr)$' % (INTS, INTS))
def m_refarith(eng, st, c, vals, d, target, unw):
    name = {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}
    o = c['path'].rsplit('::', 1)[1]
    return eng.binop(st, name.get(o, o.capitalize()), value(eng, st, vals[0]), value(eng, st, vals[1]))


# Strings built piece by piece: op concat.
def strcat(a, b):
    if a.k == 'str' and not a.a[0]:
        return b
    if b.k == 'str' and not b.a[0]:
        return a
    xs = (list(a.a[1]) if a.k == 'op' and a.a[0] == 'concat' else [a]) + (list(b.a[1]) if b.k == 'op' and b.a[0] == 'concat' else [b])
    return op('concat', *xs[:12])


@model('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def m_stradd(eng, st, c, vals, d, target, unw):
    return strcat(value(eng, st, vals[0]), value(eng, st, vals[1]))


@model('alloc::string::String::push_str', 'alloc::string::String::push', '<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign',
       '<alloc::string::String as core::fmt::Write>::write_str')
def m_push_str(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    x = value(eng, st, vals[1])
    if (c.get('path') or '').endswith('::push') and x.k == 'int':
        x = mk('str', chr(x.a[0]))
    v = eng.load(st, cell, path)
    if v.k == 'boxed':
        v = v.a[0]
    eng.store(st, cell, path, strcat(v, x))
    return ok(UNIT) if 'write_str' in (c.get('path') or '') else UNIT


@model('alloc::ffi::c_str::CString::new')
def m_cstring(eng, st, c, vals, d, target, unw):
    v = value(eng, st, vals[0])
    t = op('CString::new', v)
    k = eng.variant(st, t)
    if v.k == 'str':
        return ok(mk('op', 'cstring', (v,)))
    if k is not None:
        return ok(mk('op', 'cstring', (v,))) if k == 0 else err(mk('op', 'NulError', (v,)))

    def p(i):
        def f(s):
            s.facts[t] = ('v', i)
            return eng.assume_fork(s, t, i)
        return f
    fork(eng, st, d, target, [(p(0), ok(mk('op', 'cstring', (v,)))), (p(1), err(mk('op', 'NulError', (v,))))])


@model('core::str::<impl str>::split')
def m_split(eng, st, c, vals, d, target, unw):
    return mk('it', op('split', value(eng, st, vals[0]), *vals[1:]), 0, 'own', eng.site(st))


@model('core::ptr::null', 'core::ptr::null_mut')
def m_null(eng, st, c, vals, d, target, unw):
    return I(0)


@model('core::ptr::mut_ptr::<impl *mut T>::is_null', 'core::ptr::const_ptr::<impl *const T>::is_null')
def m_is_null(eng, st, c, vals, d, target, unw):
    v = vals[0]
    if v.k == 'int':
        return I(v.a[0] == 0)
    if v.k in ('ref', 'str', 'boxed', 'seq', 'agg'):
        return FALSE
    return op('Eq', v, I(0))


@model('<alloc::string::String as core::default::Default>::default', 'alloc::string::String::new', 'alloc::string::String::with_capacity')
def m_emptystr(eng, st, c, vals, d, target, unw):
    return S('')


@model('libc::unix::linux_like::pipe2', 'libc::unix::pipe')
def m_pipe2(eng, st, c, vals, d, target, unw):
    site = eng.site(st)
    r = eng.fresh(st, c['path'], site)
    cell, path = eng.deref(st, vals[0])
    a = mk('fld', r, 0, 'rd')
    b = mk('fld', r, 0, 'wr')
    eng.store(st, cell, path, mk('agg', 'array', 0, (a, b)))
    eng.refine(st, r, -1, 0, EMPTY)
    return r


@model('^serde_json::map::Map::<.*>::insert$')
def m_json_insert(eng, st, c, vals, d, target, unw):
    cell, path = eng.deref(st, vals[0])
    old = eng.load(st, cell, path)
    eng.store(st, cell, path, op('json', old, freeze(eng, st, value(eng, st, vals[1])), freeze(eng, st, value(eng, st, vals[2]))))
    return NONE


@model('^<alloc::string::String as core::convert::From<&(mut )?str>>::from$', '^<&str as core::convert::Into<alloc::string::String>>::into$',
       '^<&str as alloc::string::SpecToString>::spec_to_string$', '^<alloc::string::String as core::convert::From<.*Cow.*>>::from$')
def m_strfrom(eng, st, c, vals, d, target, unw):
    return value(eng, st, vals[0])


PURE = re.compile(r'^(core::fmt|alloc::fmt|core::str|alloc::string|std::path|core::time|core::num|url::|core::char|base64|core::slice|alloc::slice'
                  r'|<[^>]*as core::convert::(From|Into|AsRef)|<[^>]*as core::fmt|chrono::datetime::DateTime|chrono::offset|<std::time::SystemTime as core::ops'
                  r'|<std::time::Instant as|std::time::Instant::duration_since|core::io::error|alloc::io::error|std::io::error::<impl core::convert'
                  r'|core::convert|libc::unix::linux_like::W|core::intrinsics|core::f64|std::f64|core::panic|core::any|std::ffi|alloc::ffi|core::ffi|core::result|core::option'
                  r'|http::|hyper::|http_body_util|serde_json::|rmp_serde|matchit|core::cmp|core::ops|log::|<.*as core::default::Default>'
                  r'|alloc::alloc|core::alloc|core::hint|core::mem|core::ptr|std::env::args|clap|core::iter|alloc::collections|std::collections|alloc::vec|<alloc::vec|<core::|<std::ffi)')
STATEFUL = re.compile(r'.*(last_os_error|::now$|new_v4)')


def unknown(eng, st, c, path, vals, d, target, unw):
    if eng.havoc is not None:
        pass
    if target is None:
        eng.panic(st, unw, path)
        return
    eng.unmodelled[path] = eng.unmodelled.get(path, 0) + 1
    mut = any(arg_mut(eng, i) for i in range(len(vals)))
    vs = [value(eng, st, v) for v in vals]
    if PURE.match(path) and not mut and not STATEFUL.match(path):
        r = mk('op', path, tuple(vs))
        t = eng.truth(st, r) if False else None
        eng.result(st, d, target, r)
        return
    r = eng.fresh(st, path, eng.site(st), *vs)
    havoc_args(eng, st, vals, path)
    if path.startswith('libc::'):
        if path.split('::')[-1] in ('close', 'dup2', 'execve', 'fcntl', 'fork', 'fstat', 'kill', 'open', 'setsid', 'write', 'wait4', 'mkostemp', 'read',
                                    'waitpid', 'dup', 'dup3'):
            eng.refine(st, r, -1, INF, EMPTY)
    eng.result(st, d, target, r)


@model('^<[ui](8|16|32|64|128|size) as core::iter::range::Step>::(forward|forward_unchecked|backward|backward_unchecked)$')
def m_step(eng, st, c, vals, d, target, unw):
    return eng.binop(st, 'Sub' if 'backward' in c['path'] else 'Add', vals[0], vals[1])


@model('^core::time::Duration::(mul_f64|mul_f32|div_f64|div_f32|checked_\\w+|saturating_\\w+)$', '^<core::time::Duration as core::ops::arith::\\w+(<\\w+>)?>::\\w+$',
       '^<core::time::Duration as core::ops::arith::\\w+Assign(<\\w+>)?>::\\w+$')
def m_duration(eng, st, c, vals, d, target, unw):
    vs = [value(eng, st, v) for v in vals]
    if c['path'].rsplit('::', 1)[-1].endswith('_assign'):
        cell, path = eng.deref(st, vals[0])
        eng.store(st, cell, path, eng.fresh(st, c['path'], eng.site(st), *vs))
        return UNIT
    return eng.fresh(st, c['path'], eng.site(st), *vs)


@model('^<([ui](8|16|32|64|128|size)|bool) as core::default::Default>::default$')
def m_default0(eng, st, c, vals, d, target, unw):
    return I(0)
