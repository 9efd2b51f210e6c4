"""C27: pointers passed to the operating system are valid."""
import re
import absint
import models
from absint import N, I, mk, op, show
from startp import *
from paths import default_args, start_async
from c10 import seq, fmt
from c23 import Values, strip, isapp, args, fname

PAIR = ('pipe', 'pipe2', 'socketpair')
AS_PTR = re.compile(r'::(as_ptr|as_mut_ptr|as_ptr_range|as_mut_ptr_range|as_non_null)$')


def ptr_type(t):
    return t['k'] == 'ptr' or t['s'].startswith('*')


def operand_type(P, o):
    p = o.get('copy') or o.get('move')
    if p:
        return P.types[p[2]]
    return P.types[o['const']['ty']]


def foreign_calls(prog, k):
    P = prog.P
    for b in prog.fns[k]['blocks']:
        t = b['t']
        if t[0] != 'call' or not t[1].get('const'):
            continue
        c = t[1]['const']
        fn = c.get('fn') or (P.types[c['ty']].get('fn') if c.get('ty') is not None else None) or {}
        if fn.get('kind') == 'foreign' and any(ptr_type(operand_type(P, o)) for o in t[2]):
            yield fn


class Mon:
    def __init__(self, rep, prog, what):
        self.rep, self.prog, self.what = rep, prog, what
        self.n = {}
        self.at = {}

    def alarm(self, st, key, msg):
        self.rep.violation('%s: %s' % (key, self.where(st)), '%s (in %s)' % (msg, self.where(st)), st.trace())

    def where(self, st):
        f = st.fr
        while f is not None:
            g = self.prog.fns.get(f.key)
            if g and self.prog.local(f.key):
                return g['path'].split('::{')[0]
            f = f.up
        return self.what

    # -- provenance
    def allocation(self, st, name, v, *how):
        return self.eng.fresh(st, 'C string', self.eng.site(st), v)

    def on_call(self, st, c, path, vals):
        eng = self.eng
        n = path.rsplit('::', 1)[-1]
        if self.prog.local(c.get('key') or '') if c.get('key') in self.prog.fns else False:
            return None
        if c.get('kind') == 'foreign':
            self.foreign(st, c, path, vals)
            return None
        if 'c_str::CString' in path:
            v = models.value(eng, st, vals[0]) if vals else None
            if n in ('new', 'from_vec_with_nul'):
                s2 = st.copy()
                t = self.allocation(st, n, v)
                return [(st, models.ok(t)), (s2, models.err(mk('op', 'NulError', (v,))))]
            if n in ('from_vec_unchecked', 'from_vec_with_nul_unchecked', 'clone'):
                t = self.allocation(st, n, v)
                if n == 'from_vec_with_nul_unchecked':
                    self.terminated(st, v, 'a C string')
                return t
            if n == 'into_raw':
                return op('PTR', I(0), self.owned(st, v))
            if n == 'from_raw':
                if v.k == 'op' and v.a[0] == 'PTR':
                    return v.a[1][1]
                return None
            if n in ('deref', 'as_c_str', 'as_ref', 'borrow'):
                return self.owned(st, v)
            if n in ('as_bytes_with_nul', 'as_bytes', 'to_bytes_with_nul', 'to_bytes'):
                return op('bytes of', v)
        if 'c_str::CStr' in path:
            v = models.value(eng, st, vals[0]) if vals else None
            if n == 'as_ptr':
                self.count('strings')
                return op('PTR', I(0), self.owned(st, v))
            if n in ('to_owned', 'to_bytes_with_nul', 'to_bytes') and vals:
                return self.allocation(st, n, v) if n == 'to_owned' else op('bytes of', v)
            if n == 'from_bytes_with_nul_unchecked':
                self.terminated(st, v, 'a C string')
                return op('CStr', v)
            if n in ('from_bytes_with_nul', 'from_bytes_until_nul'):
                s2 = st.copy()
                return [(st, models.ok(op('CStr', v))), (s2, models.err(op('NulError', v)))]
        if AS_PTR.search(path) and 'MaybeUninit' not in path and 'RefCell' not in path and '::cell::' not in path and vals:
            v = models.value(eng, st, vals[0])
            if 'slice' in path or 'Vec' in path or 'array' in path:
                x = strip(v)
                if x.k == 'op' and x.a[0] in ('bytes of', 'CStr'):
                    return op('PTR', I(0), v)
                if x.k == 'str' or x.k == 'op' and fmt(x) is not None:
                    return op('PTR', I(1), v)
                return op('PTR', vals[0] if vals[0].k == 'ref' else mk('ref', ('V', v), ()), models.freeze(eng, st, v))
            if '::str' in path or 'String' in path:
                return op('PTR', I(1), v)
        if n in ('cast', 'cast_mut', 'cast_const') and '::ptr::' in path:
            return vals[0]
        if n in ('add', 'offset', 'sub', 'wrapping_add', 'byte_add') and '_ptr::' in path:
            return op('PTR+', *vals)
        return None

    def owned(self, st, v):
        return v

    def terms(self, v, seen=None):
        """The C strings that a value owns: not those it points to."""
        out = []

        def f(x):
            if isinstance(x, tuple):
                for y in x:
                    f(y)
            elif isinstance(x, N):
                if x.k == 'res' and x.a[0] == 'C string':
                    out.append(x)
                elif x.k == 'ref' or x.k == 'op' and x.a[0] in ('PTR', 'PTR+', 'bytes of', 'CStr'):
                    return
                elif x.k == 'it' and 'own' not in x.a:
                    return
                elif x.k in ('agg', 'seq', 'boxed', 'upd', 'it'):
                    for y in x.a:
                        f(y)
        f(v)
        return out

    def on_drop(self, st, v, ty, key):
        v = models.freeze(self.eng, st, v)
        for t in self.terms(v):
            st.mon = st.mon | {('freed', t)}

    def on_poll(self, *a):
        return None

    # -- obligations
    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def live_cell(self, st, r):
        cell, path = r.a
        if cell[0] in ('V', 'D', 'H', 'S', 'G'):
            return True
        if cell[0] == 'L':
            f = st.fr
            while f is not None:
                if f.ctx is cell[1]:
                    return cell in st.cells
                f = f.up
            return False
        return True

    def held(self, st, snap):
        """Whether a value is still owned by some variable."""
        def has(v):
            if v is snap:
                return True
            return isinstance(v, N) and v.k in ('agg', 'boxed', 'upd') and any(has(x) for y in v.a for x in (y if isinstance(y, tuple) else (y,)))
        return any(has(v) for k, v in st.cells.items())

    def content(self, st, p, what):
        """The sequence a pointer points to now."""
        r, snap = p.a[1]
        if r.k != 'ref':
            return snap
        if not self.live_cell(st, r):
            if not self.held(st, snap):
                self.alarm(st, 'dangling ' + what, 'the memory of %s that is passed to the operating system is no longer there' % what)
                return None
            return snap
        v = models.freeze(self.eng, st, models.value(self.eng, st, r))
        if v.k in ('undef', 'bot'):
            if not self.held(st, snap):
                self.alarm(st, 'dangling ' + what, 'the memory of %s that is passed to the operating system is no longer there' % what)
                return None
            return snap
        if v is not snap and v.k == 'seq' and snap.k == 'seq' and len(v.a[0]) != len(snap.a[0]):
            self.alarm(st, 'moved ' + what, '%s grows or shrinks after the pointer to it that is passed to the operating system was taken' % what)
            return None
        return v

    def length(self, v):
        if v.k == 'seq':
            if all(x[0] == 'one' for x in v.a[0]):
                return I(len(v.a[0]))
            return None
        if v.k == 'agg' and v.a[0] == 'array':
            return I(len(v.a[2]))
        if v.k == 'op' and v.a[0] == 'repeat':
            return v.a[1][1]
        if v.k == 'bytes':
            return I(len(v.a[0]))
        return op('len', strip(v))

    def terminated(self, st, v, what):
        v = strip(v)
        if v.k == 'bytes':
            good = 0 in v.a[0]
        elif v.k == 'str':
            good = '\0' in v.a[0]
        elif v.k == 'agg' and v.a[0] == 'array':
            good = any(x.k == 'int' and x.a[0] == 0 for x in v.a[2])
        elif v.k == 'seq':
            good = any(x[0] == 'one' and x[2].k == 'int' and x[2].a[0] == 0 for x in v.a[0])
        else:
            ps = fmt(v)
            good = ps is not None and any(isinstance(x, str) and '\0' in x for x in ps)
        if not good:
            self.alarm(st, 'unterminated string', '%s that is passed to the operating system need not end with NUL: %s' % (what, show(v, 4)))
        return good

    def string(self, st, v, what='a string'):
        self.rep.obligation('NUL-terminated and live string')
        self.count('strings passed')
        if v.k == 'op' and v.a[0] == 'PTR':
            r, x = v.a[1]
            dead = [t for t in self.terms(x) if ('freed', t) in st.mon]
            y = strip(x)
            if y.k == 'op' and y.a[0] in ('bytes of', 'CStr'):
                dead += [t for t in self.terms(y.a[1][0]) if ('freed', t) in st.mon]
                if dead:
                    pass
                elif y.a[0] in ('bytes of', 'CStr'):
                    return
            if dead:
                self.alarm(st, 'freed string', '%s is freed before it is passed to the operating system' % what)
                return
            if r.k == 'int' and r.a[0] == 0:
                return
            if r.k == 'ref':
                x = self.content(st, v, what)
                if x is None:
                    return
            self.terminated(st, x, what)
            return
        if v.k == 'int':
            self.alarm(st, 'null string', 'a null pointer is passed to the operating system in place of %s' % what)
            return
        self.unresolved(st, v, what)

    def vector(self, st, v):
        self.rep.obligation('NULL-terminated vector of live strings')
        self.count('vectors passed')
        if v.k == 'op' and v.a[0] == 'PTR':
            x = self.content(st, v, 'a vector')
            if x is None:
                return
        elif v.k == 'ref':
            if not self.live_cell(st, v):
                self.alarm(st, 'dangling vector', 'the memory of a vector that is passed to the operating system is no longer there')
                return
            x = models.freeze(self.eng, st, models.value(self.eng, st, v))
        elif v.k == 'int':
            return
        else:
            self.unresolved(st, v, 'a vector')
            return
        if x.k == 'seq':
            if not all(i[0] == 'one' for i in x.a[0]):
                last = x.a[0][-1] if x.a[0] else None
                if not (last and last[0] == 'one' and last[2].k == 'int' and last[2].a[0] == 0):
                    self.unresolved(st, x, 'a vector')
                return
            items = [i[2] for i in x.a[0]]
        elif x.k == 'agg' and x.a[0] == 'array':
            items = list(x.a[2])
        else:
            self.unresolved(st, x, 'a vector')
            return
        for i in items:
            i = models.value(self.eng, st, i)
            if i.k == 'int' and i.a[0] == 0:
                return
            self.string(st, i, 'a string of a vector')
        self.alarm(st, 'unterminated vector', 'a vector that is passed to the operating system does not end with NULL: %s' % show(x, 3))

    def buffer(self, st, v, n, fn):
        self.rep.obligation('buffer of sufficient length')
        self.count('buffers passed')
        if v.k == 'int' and n.k == 'int' and n.a[0] == 0:
            return
        if v.k == 'op' and v.a[0] == 'PTR':
            if v.a[1][0].k == 'int':
                x = v.a[1][1]
                if v.a[1][0].a[0] == 0:
                    self.unresolved(st, v, 'a buffer')
                    return
            else:
                x = self.content(st, v, 'a buffer')
                if x is None:
                    return
            ln = self.length(x)
        elif v.k == 'op' and v.a[0] == 'PTR+':
            b, d = v.a[1][0], v.a[1][1]
            if not (b.k == 'op' and b.a[0] == 'PTR' and b.a[1][0].k == 'ref'):
                self.unresolved(st, v, 'a buffer')
                return
            x = self.content(st, b, 'a buffer')
            if x is None:
                return
            ln = self.length(x)
            if ln is not None:
                n = I(n.a[0] + d.a[0]) if n.k == d.k == 'int' else op('Add', n, d)
        else:
            self.unresolved(st, v, 'a buffer')
            return
        if ln is None:
            self.unresolved(st, x, 'a buffer')
            return
        n = models.value(self.eng, st, n)
        if n.k == 'op' and n.a[0] == 'len':
            n = self.length(strip(n.a[1][0])) or n
        if n is ln:
            return
        if isapp(n) and fname(n) == 'capacity':
            return
        # Unsigned: the wrapped result of a subtraction is large.
        if Values(self.eng, st).possible(lambda a, b: a > b or a < 0, n, ln):
            self.alarm(st, 'short buffer', 'a buffer passed to %s may be shorter (%s) than the length passed with it (%s)' % (fn, show(ln, 4), show(n, 4)))

    def object(self, st, v, count, fn, ty):
        self.rep.obligation('live object')
        self.count('objects passed')
        if v.k == 'int' and count == 1:
            return
        if v.k == 'op' and v.a[0] == 'PTR':
            x = self.content(st, v, 'an object')
            if x is None:
                return
            ln = self.length(x)
            if ln is None:
                self.unresolved(st, x, 'an object')
            elif Values(self.eng, st).possible(lambda a: a < count, ln):
                self.alarm(st, 'short object', 'memory passed to %s for %d values of type %s may have fewer (%s)' % (fn, count, ty, show(ln, 4)))
            return
        if v.k == 'ref':
            if not self.live_cell(st, v):
                self.alarm(st, 'dangling object', 'memory passed to %s is no longer there' % fn)
                return
            if count > 1:
                x = models.value(self.eng, st, v)
                ln = self.length(x) if x.k in ('agg', 'seq', 'op') and (x.k != 'agg' or x.a[0] == 'array') else I(1)
                if ln is not None and Values(self.eng, st).possible(lambda a: a < count, ln):
                    self.alarm(st, 'short object', 'memory passed to %s for %d values of type %s may have fewer (%s)' % (fn, count, ty, show(ln, 4)))
            return
        if v.k == 'boxed':
            return
        self.unresolved(st, v, 'an object')

    def unresolved(self, st, v, what):
        k = '%s: %s' % (self.where(st), what)
        if k not in self.at:
            self.at[k] = show(v, 4)

    def foreign(self, st, c, path, vals):
        P = self.prog.P
        f = st.fr
        g = self.prog.fns.get(f.key)
        if g is None or not self.prog.local(f.key):
            return
        t = f.fn['blocks'][st.blk]['t']
        if t[0] != 'call' or len(t[2]) != len(vals):
            return
        fn = path.rsplit('::', 1)[-1]
        tys = [operand_type(P, o) for o in t[2]]
        for i, (ty, v) in enumerate(zip(tys, vals)):
            s = ty['s']
            if not ptr_type(ty):
                continue
            nxt = tys[i + 1]['s'] if i + 1 < len(tys) else ''
            if re.match(r'\*(const|mut) \*(const|mut) (i8|u8|core::ffi::c_char)$', s):
                self.vector(st, v)
            elif re.match(r'\*(const|mut) (i8|u8|core::ffi::c_void|libc::c_void|std::ffi::c_void|.*::c_void)$', s) and nxt == 'usize':
                self.buffer(st, v, vals[i + 1], fn)
            elif re.match(r'\*(const|mut) i8$', s):
                self.string(st, v)
            elif 'c_void' in s:
                self.unresolved(st, v, 'memory')
            else:
                self.object(st, v, 2 if fn in PAIR and s.endswith(' i32') else 1, fn, s.split(' ', 1)[-1])


def witnesses(prog, key):
    """Arguments by type: collections of strings with up to three elements."""
    P, f = prog.P, prog.fns[key]
    base = default_args(prog, key)
    opts = []
    for i, v in enumerate(base):
        t = P.types[f['locals'][i + 1]]
        s, isref = t['s'], t['k'] == 'ref'
        nm = 'arg%d' % i
        alts = [v]
        if re.search(r'Map<.*String, .*String', s):
            alts = [seq(*[absint.mk('agg', 'tuple', 0, (sym('%s name %d' % (nm, j)), sym('%s value %d' % (nm, j)))) for j in range(n)]) for n in (0, 1, 3)]
        elif re.search(r'(Vec<|\[)(\w+::)*(String|CString)|(Vec<|\[)&', s):
            alts = [seq(*[sym('%s %d' % (nm, j)) for j in range(n)]) for n in (0, 1, 3)]
        opts.append([ref(('V', a)) if isref and a is not v else a for a in alts])
    n = max([len(o) for o in opts] or [1])
    for i in range(n):
        yield [o[min(i, len(o) - 1)] for o in opts]
    if sum(len(o) > 1 for o in opts) > 1:
        yield [o[(len(o) - 1) * (i % 2)] for i, o in enumerate(opts)]
        yield [o[(len(o) - 1) * (1 - i % 2)] for i, o in enumerate(opts)]


def roots(prog):
    G = prog.G
    direct = {k for k in prog.fns if prog.local(k) and any(foreign_calls(prog, k))}
    if not direct:
        raise Missing('no call of a foreign function with a pointer')

    def outer(k):
        t = [prog.P.types[prog.fns[k]['locals'][i]] for i in range(1, prog.fns[k]['argc'] + 1)]
        return '{closure' in k or prog.fns[k]['kind'] != 'Item' or any('*const' in x['s'] or '*mut' in x['s'] for x in t)
    out, todo, seen = set(), list(direct), set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        up = [j for j in G.rev.get(k, ()) if prog.local(j)]
        if outer(k) and up:
            todo += up
        else:
            out.add(k)
    return sorted(out), direct


def one(rep, prog, key):
    f = prog.fns[key]
    m = Mon(rep, prog, f['path'])
    for a in witnesses(prog, key):
        e = absint.Eng(prog.P, [m], name=f['path'])
        e.max_states = 60000
        e.precise = 8
        if prog.P.types[f['locals'][0]]['k'] == 'coroutine':
            start_async(e, key, a)
        else:
            e.start(key, a)
        e.run()
        rep.engine(e)
    rep.note(**{f['path']: m.n})
    if not m.n:
        raise absint.Limit('%s: no foreign call reached' % f['path'])
    if m.at:
        raise absint.Limit('; '.join('%s passed to the operating system: not understood: %s' % x for x in sorted(m.at.items())))


def run(rep):
    prog = Prog.get()
    rs, direct = roots(prog)
    rep.note(functions_with_foreign_calls=len(direct), roots=len(rs))
    rep.parallel([lambda r, k=k: one(r, prog, k) for k in rs])
    return __doc__ + """ Typestate of pointers by abstract interpretation of MIR: every function that makes a foreign call with a pointer argument is interpreted (with collections of up to three
        strings); pointers are tracked from where they are taken, with the allocation they point into, which may be freed, moved or resized; at each foreign call, by the type of the
        argument, the pointer must be to a live NUL-terminated string, to a NULL-terminated vector of such, to a buffer no shorter than the length beside it, or to a live object."""
