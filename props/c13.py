"""C13: captured output is returned complete, in order and as requested."""
import itertools
from handlers import *
from c16 import strip
from climb import owner, callers
import c15
import c16

FDH = 'procstar::fd::FdHandler'
FDRES = 'procstar::res::FdRes'
FDDATA = 'procstar::fd::FdData'
MEM, FILE = 'CaptureMemory', 'UnlinkedFile'
CELL = 'core::cell::RefCell::<T>::'
# Calls on a file that move the offset, which the running process shares.
MOVES = ('read', 'read_exact', 'read_to_end', 'read_to_string', 'read_vectored', 'seek', 'rewind', 'lseek', 'lseek64', 'stream_position', 'set_len', 'write', 'write_all',
         'ftruncate', 'ftruncate64', 'write_all_at', 'write_at', 'pwrite', 'stream_len', 'splice', 'sendfile')


class Only:
    """Passes on what another property's rules say about some subject."""

    def __init__(self, rep, pred):
        self.rep, self.pred = rep, pred

    def require(self, cond, key, msg, trace=None):
        if self.pred(key):
            return self.rep.require(cond, key, msg, trace)
        return cond

    def violation(self, key, msg, trace=None, **kw):
        if self.pred(key):
            self.rep.violation(key, msg, trace)

    def engine(self, e, name=None):
        self.rep.engine(e, name)

    def note(self, **kw):
        pass

    def obligation(self, *a, **kw):
        pass


def fname(n):
    return str(n.a[0]).rsplit('::', 1)[-1] if n.k in ('op', 'res') else ''


def args_of(n):
    return n.a[1] if n.k == 'op' else n.a[2]


def base(n):
    return n.a[0].split('#')[0].rsplit('::', 1)[-1]


class Shape:
    """The parts of a descriptor's record."""

    def __init__(self, P):
        self.P = P
        self.v = {v: variant_index(P, FDH, v) for v in (MEM, FILE)}
        self.i = {}
        for v in (MEM, FILE):
            for j, f in enumerate(P.tdef[FDH]['variants'][self.v[v]]['fields']):
                self.i[v, f[0]] = j

    def fld(self, base, v, f):
        return mk('fld', base, self.v[v], self.i[v, f])

    def isfld(self, n, v, f):
        return n.k == 'fld' and n.a[1] == self.v[v] and n.a[2] == self.i[v, f]


# Who may alter a record.

def places(f):
    """The places that a function writes, moves out of or borrows mutably."""
    def opnds(o):
        if isinstance(o, dict) and 'move' in o:
            yield o['move'], 'moved'
    for b in f['blocks']:
        for s in b['s']:
            if s[0] == '=':
                yield s[1], 'assigned'
                r = s[2]
                if r[0] == 'ref' and r[2]:
                    yield r[1], 'borrowed'
                elif r[0] in ('use', 'repeat'):
                    yield from opnds(r[1])
                elif r[0] == 'cast':
                    yield from opnds(r[2])
                elif r[0] == 'agg':
                    for o in r[3]:
                        yield from opnds(o)
        t = b['t']
        if t[0] == 'call':
            for o in t[2]:
                yield from opnds(o)
            yield t[3], 'assigned'


def altering(rep, prog, sh):
    """The functions that can alter captured bytes: they take the buffer of a record mutably."""
    P = prog.P
    ws = set()
    n = 0
    for k, f in prog.fns.items():
        if not prog.local(k):
            continue
        for pl, how in places(f):
            if not isinstance(pl, list) or len(pl) < 2:
                continue
            ps = pl[1]
            for i, e in enumerate(ps[:-1]):
                if isinstance(e, list) and e[0] == 'v' and e[1] == sh.v[MEM] and isinstance(ps[i + 1], list) and ps[i + 1][0] == 'f' and ps[i + 1][1] == sh.i[MEM, 'buf']:
                    t = ps[i + 1][2]
                    if P.types[t]['s'].startswith('alloc::vec::Vec<u8') or 'Vec' in P.types[t]['s'] or 'BytesMut' in P.types[t]['s']:
                        ws |= owner(prog, k) or {k}
                        n += 1
    # Or the whole record.
    cells = ('borrow_mut', 'try_borrow_mut', 'replace', 'replace_with', 'take', 'swap', 'get_mut', 'as_ptr')
    for k in prog.fns:
        if prog.local(k) and any(x == 'core::cell::RefCell::<%s>::%s' % (FDH, c) or x == CELL + c and False for x in prog.G.ext[k] for c in cells):
            ws |= owner(prog, k) or {k}
            n += 1
    rep.note(mutable_uses=n)
    return ws


def readers(prog):
    """The asynchronous functions that read pipes."""
    r = set()
    for k in prog.fns:
        if prog.local(k) and prog.P.types[prog.fns[k]['locals'][0]]['k'] == 'coroutine' and '{closure' not in prog.fns[k]['path']:
            if 'FdHandler' in ' '.join(prog.P.types[prog.fns[k]['locals'][i]]['s'] for i in range(1, prog.fns[k]['argc'] + 1)):
                r.add(k)
    return sorted(r)


class Reader:
    """Each chunk read is appended once, in order, before anything else is read; the end is at the end of file."""

    def __init__(self, rep, sh):
        self.rep, self.sh = rep, sh
        self.n = {'reads': 0, 'appends': 0, 'ends': 0}

    def need(self, cond, key, msg, st):
        return self.rep.require(cond, key, msg, st.trace())

    def got(self, st):
        for x in st.mon:
            if isinstance(x, tuple) and x[0] == 'got':
                return x
        return None

    def put(self, st, x):
        st.mon = frozenset(y for y in st.mon if not (isinstance(y, tuple) and y[0] == 'got')) | ({x} if x else set())

    def pending(self, st):
        """Whether the last chunk read is non-empty and not appended: True, False, or None."""
        g = self.got(st)
        if g is None or g[2]:
            return False
        v = self.eng.variant(st, g[1])
        if v == 1:
            return False
        lo, hi, ex = self.eng.rng(st, mk('fld', g[1], 0, 0))
        return False if hi == 0 else True if lo >= 1 or 0 in ex else None

    def on_ready(self, st, v, x):
        if v.k == 'op' and any(fname(y) == 'read' for y in ([v] + [z for z in v.a[1] if isinstance(z, N)])) or v.k == 'res' and fname(v) == 'read':
            self.n['reads'] += 1
            self.put(st, ('got', x, False))

    def on_call(self, st, c, path, vals):
        last = path.rsplit('::', 1)[-1]
        if path.startswith('tokio::io::') and last.startswith('read'):
            if last != 'read':
                self.need(False, 'reader: ' + last, 'captured output is read by %s, which this analysis does not know' % last, st)
            g = self.got(st)
            p = self.pending(st)
            self.need(p is False, 'bytes lost', 'bytes that were read are not appended to the captured output before more is read', st)
            if g is not None and not g[2] and self.eng.variant(st, g[1]) == 0 and self.eng.rng(st, mk('fld', g[1], 0, 0))[1] == 0:
                self.need(False, 'read past end', 'reading goes on after the end of the output', st)
            return None
        if vals and vals[0].k == 'ref':
            try:
                cell, p = self.eng.deref(st, vals[0])
            except Exception:
                return None
            if p and p[-1] == (self.sh.v[MEM], self.sh.i[MEM, 'buf']):
                if last in ('deref', 'as_ref', 'len', 'is_empty', 'as_slice', 'capacity', 'reserve', 'borrow', 'clone', 'to_vec', 'index', 'iter', 'fmt'):
                    return None
                g = self.got(st)
                src = models.freeze(self.eng, st, models.value(self.eng, st, vals[1])) if len(vals) > 1 else None
                if last in ('extend_from_slice', 'extend', 'append', 'put', 'put_slice', 'write_all', 'write'):
                    self.n['appends'] += 1
                    self.need(g is not None, 'bytes invented', 'bytes are appended to the captured output that were not read', st)
                    if g is not None:
                        self.need(not g[2], 'bytes doubled', 'bytes that were read are appended to the captured output twice', st)
                        self.need(g[2] or self.chunk(st, src, g[1]), 'other bytes', 'what is appended to the captured output is not what was read: %s' % show(src, 5), st)
                        self.put(st, ('got', None, True))
                    # What is in the buffer is of no further interest.
                    return tup()
                elif last in ('clear', 'truncate', 'drain', 'remove', 'pop', 'insert', 'swap', 'reverse', 'resize', 'dedup', 'retain', 'split_off', 'take', 'replace', 'sort', 'swap_remove',
                              'splice', 'set_len', 'push', 'fill', 'rotate_left', 'rotate_right', 'extend_from_within', 'shrink_to'):
                    self.need(False, 'bytes altered', 'captured output is altered by %s' % last, st)
        return None

    def chunk(self, st, src, x):
        """Whether a slice is the first n bytes of the buffer, n being what the read returned."""
        if src is None:
            return False
        n = mk('fld', x, 0, 0)
        while src.k == 'ref':
            src = models.value(self.eng, st, src)
        if src.k == 'op' and src.a[0].startswith('slice:'):
            a = [strip(y) for y in src.a[1][1:]]
            if src.a[0] == 'slice:RangeTo':
                return a == [n]
            if src.a[0] == 'slice:Range':
                return a == [I(0), n]
        if src.k in ('op', 'res') and fname(src) in ('iter', 'to_vec', 'copied', 'cloned', 'into_iter', 'as_slice', 'deref', 'to_owned') or src.k == 'it':
            y = args_of(src)[0] if src.k != 'it' else src.a[0]
            return isinstance(y, N) and self.chunk(st, y, x)
        if src.k == 'agg' and base(src) == 'Take' and len(src.a[2]) == 2:
            y = src.a[2][0]
            return strip(src.a[2][1]) is n and y.k == 'it' and y.a[1] in (0, I(0)) and y.a[0].k != 'agg'
        if src.k == 'fld' and src.a[0].k in ('op', 'res') and fname(src.a[0]) == 'split_at' and src.a[2] == 0:
            return strip(args_of(src.a[0])[1]) is n
        return False

    def on_end(self, st, kind, *a):
        if kind not in ('return', 'unwind', 'abort'):
            return
        g = self.got(st)
        r = a[0] if a and isinstance(a[0], N) else None
        r = models.freeze(self.eng, st, r) if r is not None else None
        if kind != 'return':
            if g is not None:
                self.need(False, 'reader ends', 'reading captured output ends by %s' % kind, st)
            return
        if g is None:
            self.need(r is not None and r.k == 'agg' and r.a[1] == 1, 'not read', 'captured output is not read though nothing failed', st)
            return
        self.n['ends'] += 1
        if g[1] is not None and self.eng.variant(st, g[1]) == 1:
            return
        p = self.pending(st)
        self.need(p is False, 'bytes lost', 'the last bytes read are not appended to the captured output', st)
        if p is False:
            self.need(not g[2], 'reader stops early', 'reading captured output ends before the end of the output', st)


def reading(rep, prog, sh):
    ws = altering(rep, prog, sh)
    roots = readers(prog)
    if not roots:
        raise Missing('no asynchronous function that reads captured output')
    # Every way to what can alter the bytes leads through a reader.
    child = set()
    for w in sorted(ws):
        seen, todo = set(), [w]
        while todo:
            k = todo.pop()
            if k in seen or k in roots:
                continue
            seen.add(k)
            cs = callers(prog, k)
            todo += sorted(cs)
            if not cs:
                rep.require(False, 'bytes altered: ' + prog.fns[k]['path'], '%s can alter captured output (through %s)' % (prog.fns[k]['path'], prog.fns[w]['path']))
        rep.obligation('who alters')
    n = {}
    for k in roots:
        m = Reader(rep, sh)
        # What the parts of the program that only log do is of no interest.
        e = absint.Eng(prog.P, [m], name=k, explore_unwind=False)
        m.eng = e
        e.max_states = 400000
        start_async(e, k, default_args(prog, k))
        e.run()
        rep.engine(e)
        for x, y in m.n.items():
            n[x] = n.get(x, 0) + y
    for x in ('reads', 'appends', 'ends'):
        rep.require(n.get(x), 'no ' + x, 'the analysis of reading captured output found no %s' % x)
    rep.note(readers=[prog.fns[k]['path'] for k in roots], **n)


class Spawned:
    """Each memory capture that the service keeps is read; nothing stops the reader."""


def spawned(rep, prog, sh, roots):
    """Where the end that only the child uses is closed, the reader is spawned, on the same record, and runs on."""
    P = prog.P
    spawn = lambda x: x.endswith(('::spawn_local', '::spawn')) and 'tokio' in x
    fs = [k for k in prog.fns if prog.local(k) and any(spawn(x) for x in prog.G.ext[k]) and prog.G.edges[k] & set(roots)]
    if not fs:
        raise Missing('no function spawns the reader of captured output')
    n = 0
    for k in sorted(fs):
        got = []

        class W(Collect):
            def on_spawn(self, st, f):
                self.add(st, 'spawn', [models.freeze(self.eng, st, f)])
        m = paths(prog, k, lambda p, c: 'close' if sysname(p) == 'close' else 'abort' if p.endswith('::abort') and 'task' in p else None,
                  mon=W(lambda p, c: 'close' if sysname(p) == 'close' else 'abort' if p.endswith('::abort') and 'task' in p else None))
        selfn = None
        for p in m.paths:
            if p.kind != 'return':
                continue
            rec = next((t for t in p.facts if t.k == 'cont' or t.k == 'old' and t.a[0].k == 'cont'), None)
            recs = {t: f for t, f in p.facts.items() if t.k in ('cont', 'old')}
            mem = [t for t, f in recs.items() if m.engine.variant(p.st, t) == sh.v[MEM]]
            sp = [e for e in p.evs if e[0] == 'spawn']
            if mem:
                n += 1
                failed = p.result.k == 'agg' and p.result.a[0] == RES and p.result.a[1] == 1
                rep.require(len(sp) == 1 or failed and not sp, 'not read', 'nothing reads a captured output on some path', p.trace)
                for e in sp:
                    rep.require(any_node(e[1][0], lambda x: x is mem[0].a[0] or mem[0].k == 'old' and x is mem[0].a[0].a[0]) is not None, 'other record',
                                'what reads a captured output puts it elsewhere: %s' % show(e[1][0], 5), p.trace)
    rep.require(n, 'no spawn', 'no path starts to read a captured output')
    # Nothing aborts tasks.
    for k in prog.fns:
        if prog.local(k):
            for x in prog.G.ext[k]:
                if x.startswith('tokio::') and x.endswith(('::abort', '::abort_all', '::abort_handle')):
                    rep.violation('abort: ' + prog.fns[k]['path'], '%s aborts a task' % prog.fns[k]['path'])
    rep.note(spawn_paths=n)


# Ranges.

SOME = (0, 1, 2, 3, 2 ** 40, 2 ** 40 + 1, 2 ** 40 + 2)


class Unknown(Exception):
    pass


def ev(t, env):
    """The value of a term over start, stop and length."""
    t = strip(t)
    if isinstance(t, N) and t in env:
        return env[t]
    if t.k == 'int':
        return t.a[0]
    if t.k in ('op', 'res'):
        n = fname(t)
        a = args_of(t)
        if n == 'len' and len(a) == 1:
            # Of what has the length.
            for x, v in env.items():
                if isinstance(x, N) and x.k == 'op' and x.a[0] == 'len' and (strip(a[0]) is x.a[1][0]):
                    return v
            if env.get('filelen') is not None and lenfile(a[0]):
                return env['filelen']
        if n in ('integer_min', 'min'):
            return min(ev(a[0], env), ev(a[1], env))
        if n in ('integer_max', 'max'):
            return max(ev(a[0], env), ev(a[1], env))
        if n == 'saturating_sub':
            return max(0, ev(a[0], env) - ev(a[1], env))
        if n == 'saturating_add':
            return ev(a[0], env) + ev(a[1], env)
        if n in ('IntToInt', 'cast', 'trunc64', 'into', 'from', 'try_into', 'unwrap'):
            return ev(a[0], env)
        f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Lt': lambda x, y: int(x < y), 'Le': lambda x, y: int(x <= y), 'Gt': lambda x, y: int(x > y),
             'Ge': lambda x, y: int(x >= y), 'Eq': lambda x, y: int(x == y), 'Ne': lambda x, y: int(x != y)}.get(n)
        if f and len(a) == 2:
            return f(ev(a[0], env), ev(a[1], env))
    if t.k == 'fld' and t.a[0].k in ('op', 'res') and env.get('filelen') is not None:
        b = t.a[0]
        if fname(b) == 'fstat' or fname(b) == 'stat':
            return env['filelen']
    raise Unknown(show(t, 5))


def lenfile(x):
    return any_node(x, lambda n: n.k in ('op', 'res') and fname(n) in ('metadata', 'fstat')) is not None


def orders(has_stop):
    """All orders of start, stop and length, among small and among huge numbers."""
    for s, l in itertools.product(SOME, SOME):
        for e in (SOME if has_stop else (None,)):
            yield s, e, l


def consistent(p, env, eng):
    """Whether a path's conditions allow these values."""
    for t, f in p.facts.items():
        if f[0] == 'v' and t.k == 'op' and t.a[0] == 'get' and item(mk('op', 'item', t.a[1])) and base(t.a[1][1]) == 'Range':
            # Whether a slice is within bounds.
            try:
                a, b, l = [ev(x, env) for x in (*t.a[1][1].a[2], op('len', t.a[1][0]))]
            except Unknown:
                continue
            if f[1] != int(a <= b <= l):
                return False
        if f[0] != 'r':
            continue
        try:
            v = ev(t, env)
        except Unknown:
            continue
        if not (f[1] <= v <= f[2]) or v in f[3]:
            return False
    return True


def data(rep, prog, sh, h):
    """The data of a descriptor, in a range."""
    P = prog.P
    di, ei = field_index(P, FDDATA, 'data'), field_index(P, FDDATA, 'encoding')
    n = {MEM: 0, FILE: 0}
    keys = [k for k in h.datas]
    for key in keys:
        f = prog.fns[key]
        S, E = sym('start'), sym('stop')
        m = run_paths(rep, prog, key, {2: S, 3: E})
        eng = m.engine
        for p in m.paths:
            if p.kind != 'return':
                rep.violation('data ends: ' + p.kind, 'no data is returned, by %s' % p.kind, p.trace)
                continue
            rec, v = record(eng, p, sh)
            r = p.result
            if not (r.k == 'agg' and r.a[0] == RES and r.a[1] != 1):
                mem = v == sh.v[MEM]
                rep.require(not mem, 'data fails', 'the data of output captured in memory is refused', p.trace)
                continue
            o = r.a[2][0]
            if o.k == 'agg' and o.a[0] == OPT and o.a[1] == 0:
                rep.require(rec is not None and v not in sh.v.values(), 'no data', 'there is no data of captured output', p.trace)
                continue
            if not rep.require(o.k == 'agg' and o.a[1] == 1 and o.a[2][0].k == 'agg' and rec is not None, 'data', 'the data is %s' % show(r, 5), p.trace):
                continue
            d, enc = o.a[2][0].a[2][di], o.a[2][0].a[2][ei]
            kind = [k for k, i in sh.v.items() if i == v]
            if not rep.require(kind, 'data: what', 'there is data of an output that is not captured', p.trace):
                continue
            kind = kind[0]
            n[kind] += 1
            rep.require(strip(enc) is sh.fld(rec, kind, 'encoding'), 'data encoding', 'the encoding of the data is %s' % show(enc, 5), p.trace)
            hs = eng.variant(p.st, E)
            if not rep.require(hs is not None, 'data stop', 'the data does not depend on whether there is an end of the range', p.trace):
                continue
            if kind == MEM:
                rng_mem(rep, sh, eng, p, rec, d, S, E, hs)
            else:
                rng_file(rep, sh, eng, p, rec, d, S, E, hs)
    for k in n:
        rep.require(n[k], 'no data paths: ' + k, 'no path returns data of output captured by %s' % k)
    rep.note(data_paths=n)


def run_paths(rep, prog, key, given):
    opq = lambda k: k in prog.fns and not prog.local(k) and (' as std::os' in k or ' as std::io' in k)
    want = lambda p, c: ('sys ' + sysname(p)) if sysname(p) else 'file ' + p.rsplit('::', 1)[-1] if (p.startswith(('std::fs', '<std::fs', 'std::io', '<std::io', 'std::os', '<&std::fs')) or 'FileExt' in p) else None
    return paths(prog, key, want, opaque=opq, rep=rep, args=default_args(prog, key, given), keep_facts=True)


def record(eng, p, sh):
    """The record that a path looks at, and its variant."""
    for t, f in p.facts.items():
        if t.k in ('cont', 'sym', 'fld', 'old') and f[0] in ('v', 'nv') and 'stop' not in str(t.a[:1]):
            b = t
            while b.k in ('cont', 'old', 'fld'):
                b = b.a[0]
            if b is sym('self') or b.k == 'sym' and 'self' in str(b.a[0]):
                return t, eng.variant(p.st, t)
    return None, None


def item(x):
    return x.k == 'op' and x.a[0] == 'item' and x.a[1][1].k == 'agg' and 'Range' in x.a[1][1].a[0]


def rng_mem(rep, sh, eng, p, rec, d, S, E, hs):
    buf = sh.fld(rec, MEM, 'buf')
    L = op('len', buf)
    x = d
    while x.k in ('op', 'res') and fname(x) in ('to_vec', 'to_owned', 'into', 'clone', 'copied', 'cloned', 'collect', 'unwrap_or_default', 'from'):
        x = args_of(x)[0]
    if strip(x) is buf:
        lo, hi = I(0), L
    elif x.k == 'agg' or x.k == 'seq' and not x.a[0] or x.k in ('op', 'res') and fname(x) == 'default':
        lo = hi = I(0)
    else:
        sl = []
        while x.k == 'op' and x.a[0].startswith('slice:') or item(x) or x.k == 'fld' and x.a[2] == 0 and x.a[0].k in ('op', 'res') and fname(x.a[0]) == 'get':
            if item(x):
                sl.append((base(x.a[1][1]), list(x.a[1][1].a[2])))
                x = strip(x.a[1][0])
            elif x.k == 'fld':
                q = args_of(x.a[0])
                r = q[1]
                sl.append((base(r), list(r.a[2])))
                x = strip(q[0])
            else:
                sl.append((x.a[0][6:], list(x.a[1][1:])))
                x = strip(x.a[1][0])
        if not rep.require(x is buf and sl, 'data source', 'the data is not of the captured output: %s' % show(d, 6), p.trace):
            return
        lo, hi = I(0), L
        for kind, a in reversed(sl):
            if kind == 'RangeFrom':
                lo = op('Add', lo, a[0])
            elif kind == 'RangeTo':
                hi = op('Add', lo, a[0])
            elif kind == 'Range':
                lo, hi = op('Add', lo, a[0]), op('Add', lo, a[1])
            elif kind == 'RangeFull':
                pass
            else:
                rep.require(False, 'data slice', 'the data is a slice of unknown kind: %s' % show(d, 6), p.trace)
                return
    n = 0
    for s, e, l in orders(hs):
        env = {S: s, L: l}
        if hs:
            env[mk('fld', E, 1, 0)] = e
        if not consistent(p, env, eng):
            continue
        n += 1
        h2 = min(e, l) if hs else l
        want = (s, h2) if s < h2 else ()
        try:
            a, b = ev(lo, env), ev(hi, env)
        except Unknown as u:
            rep.require(False, 'range', 'the range of data is %s to %s' % (show(lo, 5), show(hi, 5)), p.trace)
            return
        rep.require(a <= b <= l, 'range: out of bounds', 'of %d bytes, the range %s to %s is refused: %d to %d is taken' % (l, s, e, a, b), p.trace)
        rep.require(((a, b) if a < b else ()) == want, 'range: wrong', 'of %d bytes captured, the range %s to %s returns %d to %d' % (l, s, e, a, b), p.trace)
    rep.note(range_cases=n)


def reads(p):
    return [e for e in p.evs if e[0].split(' ')[-1] in MOVES + ('read_exact_at', 'read_at', 'pread', 'pread64', 'mmap')]


def fill(rep, sh, p, rec, d):
    """The one read that makes up the data of a file capture: (offset, length), or None."""
    fd = sh.fld(rec, FILE, 'file_fd')
    ok_ = True
    fills = []
    for e in reads(p):
        nm = e[0].split(' ')[-1]
        if any(any_node(x, lambda n: n is fd) is not None for x in e[1]):
            ok_ &= rep.require(nm not in MOVES, 'offset moved: ' + nm, 'reading a captured file by %s moves the offset that the process writes at' % nm, p.trace)
            fills.append(e)
        else:
            ok_ &= rep.require(nm in MOVES and False or not any_node(d, lambda n: n.k in ('op', 'res') and fname(n) == nm), 'other file', 'the data is read from %s' % show(e[1][0], 5), p.trace)
    if not ok_:
        return None
    if not rep.require(len(fills) == 1 and fills[0][0].split(' ')[-1] == 'read_exact_at', 'file not read', 'a captured file is not read by one complete positional read but by %s' % [e[0] for e in fills], p.trace):
        return None
    a = fills[0][1]
    rep.require(any_node(d, lambda n: n.k in ('op', 'res') and fname(n) == 'read_exact_at') is not None, 'data source', 'the data is not what was read from the captured file: %s' % show(d, 6), p.trace)
    b = strip(a[1])
    if b.k == 'op' and b.a[0] == 'repeat':
        return a[2], b.a[1][-1]
    return a[2], op('len', b)


def rng_file(rep, sh, eng, p, rec, d, S, E, hs):
    if d.k == 'agg' or d.k == 'seq' and not d.a[0] or d.k == 'op' and d.a[0] == 'repeat':
        got = (S, I(0)) if d.k != 'op' else (S, d.a[1][-1])
    else:
        got = fill(rep, sh, p, rec, d)
    if got is None:
        return
    off, ln = got
    for s, e, l in orders(hs):
        env = {S: s, 'filelen': l}
        if hs:
            env[mk('fld', E, 1, 0)] = e
        if not consistent(p, env, eng):
            continue
        h2 = min(e, l) if hs else l
        want = max(0, h2 - s)
        try:
            a, b = ev(off, env), ev(ln, env)
        except Unknown:
            rep.require(False, 'range', 'the range of data is %s bytes from %s' % (show(ln, 5), show(off, 5)), p.trace)
            return
        rep.require(b == want and (a == s or not want), 'range: wrong', 'of a file of %d bytes, the range %s to %s returns %d bytes from %d' % (l, s, e, b, a), p.trace)


def results(rep, prog, sh):
    """What a result has of a captured output."""
    P = prog.P
    ft = P.tdef[FDRES]
    vs = {v['name']: (i, [f[0] for f in v['fields']]) for i, v in enumerate(ft['variants'])}
    keys = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in k and f['argc'] == 1 and 'FdRes' in P.types[f['locals'][0]]['s']
            and 'FdHandler' in P.types[f['locals'][1]]['s']]
    if not keys:
        raise Missing('no function that makes the result of a descriptor')
    n = {}
    for key in keys:
        m = run_paths(rep, prog, key, {})
        eng = m.engine
        for p in m.paths:
            rec, v = record(eng, p, sh)
            kind = [k for k, i in sh.v.items() if i == v]
            if p.kind != 'return':
                rep.violation('result ends: ' + p.kind, 'no result of a descriptor is made, by %s' % p.kind, p.trace)
                continue
            r = p.result
            if r.k == 'agg' and r.a[0] == RES:
                if r.a[1] == 1:
                    rep.require(not kind or kind[0] != MEM, 'result fails', 'the result of output captured in memory fails', p.trace)
                    continue
                r = r.a[2][0]
            if r.k == 'agg' and r.a[0] == OPT:
                if r.a[1] == 0:
                    rep.require(not kind and rec is not None, 'no result', 'a result leaves out captured output', p.trace)
                    continue
                r = r.a[2][0]
            if not kind:
                continue
            kind = kind[0]
            if not rep.require(r.k == 'agg' and r.a[0] == FDRES, 'result', 'the result of captured output is %s' % show(r, 5), p.trace):
                continue
            att = eng.truth(p.st, sh.fld(rec, kind, 'attached'))
            enc = eng.variant(p.st, sh.fld(rec, kind, 'encoding'))
            name = ft['variants'][r.a[1] or 0]['name']
            n[kind, att, enc] = n.get((kind, att, enc), 0) + 1
            if not rep.require(att is not None, 'attached', 'the result does not depend on whether the output is to be attached', p.trace):
                continue
            if not rep.require(enc is not None, 'encoding', 'the result does not depend on the encoding', p.trace):
                continue
            want = ('Text' if enc == 1 else 'Data') if att else 'Detached'
            if not rep.require(name == want, 'result kind', 'the result of output that is %sattached and is %s is %s' % ('' if att else 'not ', 'text' if enc == 1 else 'binary', name), p.trace):
                continue
            fs = dict(zip(vs[name][1], r.a[2]))
            code = strip(fs['encoding'])
            rep.require(code.k == 'str' and code.a[0] in (('utf-8', b'utf-8') if enc == 1 else ('base64', b'base64')), 'encoding named', 'the encoding is said to be %s' % show(code, 3), p.trace)
            buf = sh.fld(rec, MEM, 'buf') if kind == MEM else None
            if not att:
                x = strip(fs['length'])
                if kind == MEM:
                    rep.require(x is op('len', buf), 'length', 'the length of captured output is said to be %s' % show(x, 5), p.trace)
                else:
                    fd = sh.fld(rec, FILE, 'file_fd')
                    good = lenfile(x) and any(e[0].split(' ')[-1] in ('fstat', 'fstat64', 'metadata') and any(any_node(y, lambda z: z is fd) is not None for y in e[1]) for e in p.evs)
                    try:
                        good &= ev(x, {'filelen': 7}) == 7
                    except Unknown:
                        good = False
                    rep.require(good, 'length', 'the length of captured output is said to be %s' % show(x, 5), p.trace)
                    for e in reads(p):
                        rep.require(e[0].split(' ')[-1] not in MOVES, 'offset moved: ' + e[0], 'the length of a captured file is found by %s, which moves the offset' % e[0], p.trace)
                continue
            x = fs['text' if enc == 1 else 'data']
            conv = ('from_utf8_lossy', 'from_utf8', 'from_utf8_lossy_owned') if enc == 1 else ('encode', 'encode_string')
            while x.k in ('op', 'res') and fname(x) in ('to_string', 'to_owned', 'into_owned', 'into'):
                x = args_of(x)[0]
            if not rep.require(x.k in ('op', 'res') and fname(x) in conv, 'content', 'the content of a result is %s' % show(x, 5), p.trace):
                continue
            if enc == 0:
                standard(rep, p, args_of(x)[0])
            src = strip(args_of(x)[-1])
            if kind == MEM:
                rep.require(src is buf, 'content', 'the content of a result is not the captured output: %s' % show(src, 5), p.trace)
            else:
                got = fill(rep, sh, p, rec, src) if not (src.k == 'op' and src.a[0] == 'repeat') else (I(0), src.a[1][-1])
                if got:
                    for l in SOME:
                        if not consistent(p, {'filelen': l}, None):
                            continue
                        try:
                            a, b = ev(got[0], {'filelen': l}), ev(got[1], {'filelen': l})
                        except Unknown:
                            rep.require(False, 'content', 'the content of a result is %s bytes from %s' % (show(got[1], 4), show(got[0], 4)), p.trace)
                            break
                        rep.require(b == l and (a == 0 or not l), 'content incomplete', 'of a file of %d bytes, a result has %d bytes from %d' % (l, b, a), p.trace)
    for kind in (MEM, FILE):
        for att in (True, False):
            for enc in (0, 1):
                rep.require(n.get((kind, att, enc)), 'no result paths', 'no path makes the result of %s, %sattached, %s' % (kind, '' if att else 'not ', 'text' if enc else 'binary'))
    rep.note(result_paths=sum(n.values()))


def standard(rep, p, e):
    """The standard alphabet, with padding."""
    abc = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    e = strip(e)
    if e.k == 'agg' and e.a[0].endswith('GeneralPurpose'):
        a = [strip(x) for x in e.a[2]]
        s = bytes(x.a[0] for x in a[0].a[2] if x.k == 'int') if a[0].k == 'agg' else None
        cfg = a[-1]
        rep.require(s == abc and cfg.k == 'agg' and cfg.a[2][0] is I(1), 'base64', 'the base64 alphabet or padding is not the standard one: %s' % show(e, 4)[:300], p.trace)
    else:
        rep.require('STANDARD' in show(e, 6) and 'NO_PAD' not in show(e, 6), 'base64', 'the base64 alphabet or padding is not the standard one: %s' % show(e, 4)[:300], p.trace)


def run(rep):
    prog = Prog.get()
    sh = Shape(prog.P)
    h = Handlers(prog)
    for f in (lambda: reading(rep, prog, sh), lambda: spawned(rep, prog, sh, readers(prog)), lambda: data(rep, prog, sh, h), lambda: results(rep, prog, sh),
              lambda: c16.run(Only(rep, lambda k: 'FdData' in k)), lambda: c15.run(Only(rep, lambda k: '/output/' in k))):
        with part(rep):
            f()
    return __doc__ + """ Typestate over the task that reads a captured output, on all paths: each chunk is appended once, as the first n bytes of the buffer, before the next
        read; it ends exactly at a read of no bytes, or an error.  Only code that runs in that task takes captured bytes mutably.  The data function and the result of each
        kind of capture, as terms over the record: which bytes for every order of start, stop and length; files by one complete positional read; text or base64 (alphabet and
        padding) or the length, by encoding and attachment.  The answers to data requests, as in C15 and C16."""
