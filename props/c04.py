"""C04: a start request is accepted or rejected as a whole."""
from handlers import *
from startp import *
from climb import owner, direct
import c08
from c08 import tables, op_args

FD = 'procstar::spec::Fd'
SPEC = 'procstar::spec::Proc'
PROCS = 'procstar::procs::Procs'


def seq(*xs):
    return mk('seq', tuple(('one', ('a', i), x) for i, x in enumerate(xs)))


class Specs:
    """Builds specs."""

    def __init__(self, prog):
        self.P = P = prog.P
        self.fields = [n for n, t in P.tdef[SPEC]['variants'][0]['fields']]
        self.v = {v['name']: (i, [f[0] for f in v['fields']]) for i, v in enumerate(P.tdef[FD]['variants'])}
        for n in ('PipeRead', 'PipeWrite', 'Inherit'):
            if n not in self.v:
                raise Missing('no kind of fd %s' % n)

    def fd(self, kind, **kw):
        i, fs = self.v[kind]
        return agg(FD, i, *[kw.get(f, sym('any ' + f)) for f in fs])

    def read(self, pid, fd):
        return self.fd('PipeRead', proc_id=pid, fd=fd)

    def write(self):
        return self.fd('PipeWrite')

    def proc(self, *fds):
        v = {'id': NONE, 'exe': NONE, 'argv': seq(sym('W:arg0')), 'fds': seq(*[agg('tuple', 0, a, b) for a, b in fds])}
        return agg(SPEC, 0, *[v.get(f, sym('spec.' + f)) for f in self.fields])

    def specs(self, *ps):
        return seq(*[agg('tuple', 0, a, self.proc(*b)) for a, b in ps])


def S(x):
    return mk('str', x)


def parse(t):
    """What str::parse makes of a spelling."""
    if t.k == 'str':
        s = t.a[0]
        d = s[1:] if s[:1] in ('+', '-') else s
        if d.isascii() and d.isdigit() and -2**31 <= int(s) < 2**31:
            return I(int(s))
        return None
    if t.k == 'sym' and str(t.a[0]).startswith('W:bad'):
        return None
    if t.k == 'sym' and str(t.a[0]).startswith('W:fd'):
        # W:fd1a and W:fd1b are spellings of the same.
        return sym('W:number' + str(t.a[0])[4:-1])
    return False


class Start(ForkMon):
    def __init__(self, prog):
        self.prog = prog
        self.ends = []
        self.insert = prog.table_insert()

    def count(self, st, what):
        n = next((m[1] for m in st.mon if isinstance(m, tuple) and m[0] == what), 0)
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == what)) | {(what, n + 1)}

    def get(self, st, what):
        return next((m[1] for m in st.mon if isinstance(m, tuple) and m[0] == what), 0)

    def on_call(self, st, c, path, vals):
        n = sysname(path)
        if n in ('fork', 'vfork'):
            s = st
            self.count(s, 'forks')
            r = self.eng.fresh(s, 'fork', self.eng.site(s))
            self.eng.refine(s, r, 1, INF, EMPTY)
            s.note('fork')
            return r
        if path.endswith('::insert') and path.startswith(MAPS) and any(isinstance(a, int) and 'RefCell<procstar::procs::Proc>' in self.prog.P.types[a]['s'] for a in c.get('targs') or ()):
            self.count(st, 'records')
            st.note('recorded')
            return None
        if path == 'core::str::<impl str>::parse':
            x = parse(models.value(self.eng, st, vals[0]))
            if x is False:
                return None
            return ok(x) if x is not None else err(op('parse error'))
        return None

    def on_assume(self, st, t, val):
        # Arbitrary spellings are not those of the names, or equal to others.
        if t.k == 'op' and t.a[0] in ('Eq', 'Ne') and any(str(x.a[0]).startswith(('W:bad', 'W:fd')) for x in t.a[1] if x.k == 'sym'):
            return bool(val) == (t.a[0] == 'Ne')
        return True

    def on_end(self, st, kind, *a):
        r = a[0] if a and isinstance(a[0], N) else None
        self.ends.append((kind, self.eng.variant(st, r) if r is not None else None, self.get(st, 'forks'), self.get(st, 'records'), st.trace()))


def scenarios(prog):
    b = Specs(prog)
    A, B, C = S('a'), S('b'), S('c')
    inh = b.fd('Inherit')
    one = [(A, [])]
    for how, ids, table in (('the ID', [A], [A]), ('the first ID', [A, B], [A]), ('the last ID', [A, B], [B]), ('an ID', [A], [C, A]), ('an ID', [A], [A, C])):
        yield 'duplicate ID: %s of %d in use among %d' % (how, len(ids), len(table)), b.specs(*[(i, []) for i in ids]), table, False
    others = [[], [(S('5'), inh)]]
    for x, y in (('1', '1'), ('1', 'stdout'), ('stdin', '0'), ('2', 'stderr'), ('7', '+7'), ('007', '7')):
        yield 'duplicate fd: %s and %s' % (x, y), b.specs((A, [(S(x), inh), (S(y), inh)])), [], False
    yield 'duplicate fd: arbitrary spellings', b.specs((A, [(sym('W:fd1a'), inh), (sym('W:fd1b'), inh)])), [], False
    yield 'duplicate fd: arbitrary spellings, not adjacent', b.specs((A, [(sym('W:fd1a'), inh), (S('3'), inh), (sym('W:fd1b'), inh)])), [], False
    yield 'duplicate fd: in the second process', b.specs((A, []), (B, [(sym('W:fd1a'), inh), (sym('W:fd1b'), inh)])), [], False
    yield 'duplicate fd: in the first process', b.specs((A, [(sym('W:fd1a'), inh), (sym('W:fd1b'), inh)]), (B, [])), [], False
    for k in sorted(b.v):
        yield 'duplicate fd: %s' % k, b.specs((A, [(S('1'), inh), (S('stdout'), b.fd(k, fd=S('0')))])), [], False
    for k in sorted(b.v):
        yield 'bad fd: %s' % k, b.specs((A, [(sym('W:bad'), b.fd(k, fd=S('0')))])), [], False
    for x in ('x', '', 'STDOUT', '99999999999', '1.0'):
        yield 'bad fd: %r' % x, b.specs((A, [(S(x), inh)])), [], False
    yield 'bad fd: second', b.specs((A, [(S('1'), inh), (sym('W:bad'), inh)])), [], False
    yield 'bad fd: second process', b.specs((A, [(S('1'), inh)]), (B, [(sym('W:bad'), inh)])), [], False
    yield 'bad fd: other end of pipe', b.specs((A, [(S('1'), b.write())]), (B, [(S('0'), b.read(A, sym('W:bad')))])), [], False
    W, R = b.write, b.read
    yield 'pipe: write end without read end', b.specs((A, [(S('1'), W())])), [], False
    yield 'pipe: write end without read end, second process', b.specs((A, []), (B, [(S('1'), W())])), [], False
    yield 'pipe: read end without write end', b.specs((A, [(S('0'), R(B, S('1')))])), [], False
    yield 'pipe: read end of a process without the write end', b.specs((A, [(S('1'), inh)]), (B, [(S('0'), R(A, S('1')))])), [], False
    yield 'pipe: read end of another fd', b.specs((A, [(S('1'), W())]), (B, [(S('0'), R(A, S('2')))])), [], False
    yield 'pipe: read end of another process', b.specs((A, [(S('1'), W())]), (B, [(S('0'), R(C, S('1')))])), [], False
    yield 'pipe: two read ends of one write end', b.specs((A, [(S('1'), W())]), (B, [(S('0'), R(A, S('1')))]), (C, [(S('0'), R(A, S('1')))])), [], False
    yield 'pipe: two read ends of one write end in a process', b.specs((A, [(S('1'), W())]), (B, [(S('0'), R(A, S('1'))), (S('3'), R(A, S('stdout')))])), [], False
    yield 'pipe: two write ends, one read', b.specs((A, [(S('1'), W()), (S('2'), W())]), (B, [(S('0'), R(A, S('1')))])), [], False
    yield 'pipe: one write end by two spellings', b.specs((A, [(S('1'), W()), (S('stdout'), W())]), (B, [(S('0'), R(A, S('1')))])), [], False
    yield 'accepted: one', b.specs((A, [])), [], True
    yield 'accepted: others in use', b.specs((A, [])), [B, C], True
    yield 'accepted: two', b.specs((A, []), (B, [(S('0'), inh), (S('stdout'), inh)])), [], True
    yield 'accepted: same fd in two processes', b.specs((A, [(S('1'), inh)]), (B, [(S('1'), inh)])), [], True
    yield 'accepted: arbitrary', seq(agg('tuple', 0, A, sym('spec1')), agg('tuple', 0, B, sym('spec2'))), [C], True
    yield 'accepted: pipe', b.specs((A, [(S('1'), W())]), (B, [(S('stdin'), R(A, S('stdout')))])), [], True
    yield 'accepted: pipe backwards', b.specs((A, [(S('stdin'), R(B, S('stdout')))]), (B, [(S('1'), W())])), [], True


def scenario(rep, prog, start, name, specs, ids, accept):
    P = prog.P
    w, ts = tables(prog)
    t0 = ts[0][1]
    i = field_index(P, PROCS, 'procs', 'BTreeMap<')
    t = agg(t0.a[0], 0, *[seq(*[tup(k, sym('record %d' % n)) for n, k in enumerate(ids)]) if j == i else x for j, x in enumerate(t0.a[2])])
    args, _ = op_args(prog, start, w)
    f = prog.fns[start]
    for j in range(f['argc']):
        ty = P.types[f['locals'][j + 1]]
        if 'spec::Proc' in ty['s']:
            args[j] = ref(('V', specs)) if ty['k'] == 'ref' else specs
    m = Start(prog)
    rel = lambda x: sysname(x) in ('fork', 'vfork') or x in ('std::process::exit',) or x.startswith('tokio::sync::watch::')
    base = prog.opaque(lambda x: rel(x) or x in ('core::str::<impl str>::parse',) or x.startswith(MAPS) or x.startswith('std::collections::hash::set'), leaves=True, keep=m.insert)
    after = {k for k in prog.fns if k in prog.G.reach(start) and takes_fd_handlers(prog, k)}
    envs = {k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and any(
        P.types[f['locals'][j]]['s'].lstrip('&') == 'procstar::spec::Env' for j in range(1, f['argc'] + 1))}
    if 'arbitrary' in name and accept:
        base = prog.opaque(lambda x: sysname(x) in ('fork', 'vfork') or x in ('std::process::exit',), keep=m.insert)
    opq = lambda k: k in after or k in envs or base(k)
    e = absint.Eng(P, [m], opaque=opq, name='start: ' + name)
    m.eng = e
    e.precise = 0 if 'arbitrary' in name and accept else 8
    e.start(start, args, cells={TABLE: t})
    e.run()
    rep.engine(e, 'start')
    n = len([s for s in specs.a[0]])
    if not accept:
        for kind, v, forks, recs, tr in m.ends:
            rep.require(not forks and not recs, 'started: ' + name, 'a process is started although the request must be rejected (%s)' % name, tr)
            if not forks and not recs and kind not in ('panic', 'exit', 'unwind'):
                rep.require(kind == 'return' and v == 1, 'not rejected: ' + name, 'a request that must be rejected (%s) is not' % name, tr)
            elif not forks:
                rep.violation('crash: ' + name, 'the service ends (%s) at a request that must be rejected (%s)' % (kind, name), tr)
        rep.require(m.ends, 'no end: ' + name, 'the analysis of a rejected request found no end')
        return
    whole = 0
    for kind, v, forks, recs, tr in m.ends:
        if kind != 'return':
            continue
        if v == 1:
            rep.require(not forks and not recs, 'rejected after start: ' + name, 'a request is rejected after %d of its %d processes were started' % (forks, n), tr)
        else:
            whole += 1
            rep.require(forks == n and recs == n, 'partly started: ' + name, 'a request for %d processes succeeds with %d started and %d recorded' % (n, forks, recs), tr)
    rep.require(whole, 'never accepted: ' + name, 'a valid request (%s) is never accepted' % name)


def takes_fd_handlers(prog, k):
    """Set-up of one fd: not of interest here."""
    f = prog.fns[k]
    if not prog.local(k) or f['kind'] != 'Item':
        return False
    return 'FdHandler' in prog.P.types[f['locals'][0]]['s'] and 'Vec' not in prog.P.types[f['locals'][0]]['s'] and not takes_specs(prog, k)


def once(rep, prog):
    """A request leads to at most one start, of all its processes."""
    h = Handlers(prog)
    P = prog.P
    n = 0
    for fn, src in ((h.http_fn(), 'HTTP'), (h.agent_fn(), 'agent')):
        m = h.run(fn, rep)
        for p in m.paths:
            st = [e for e in p.evs if e[0].startswith('start ')]
            n += len(st)
            rep.require(len(st) <= 1, 'several starts: ' + src, 'one %s request leads to several starts, each accepted or rejected by itself' % src, p.trace)
            for e in st:
                k = h.starters[0]
                for j in range(prog.fns[k]['argc']):
                    if 'spec::Proc' in P.types[prog.fns[k]['locals'][j + 1]]['s']:
                        v = e[1][j]
                        rep.require(v.k in ('fld', 'res', 'op', 'cont', 'sym'), 'part started: ' + src, 'what is started is not all that the %s request names: %s' % (src, show(v, 5)), p.trace)
    rep.require(n, 'no start', 'no handler starts processes')
    return n


def run(rep):
    prog = Prog.get()
    start = start_fn(prog)
    n = 0
    for name, specs, ids, acc in scenarios(prog):
        with part(rep):
            scenario(rep, prog, start, name, specs, ids, acc)
        n += 1
    with part(rep):
        c08.gate(rep, prog)
    k = None
    with part(rep):
        k = once(rep, prog)
    rep.note(scenarios=n, start_paths=k)
    return __doc__ + """ The start function is interpreted abstractly for families of requests and tables; the spellings of fds include arbitrary ones that denote the same
        number and arbitrary ones that denote none. No path of a request that must be rejected forks, records, or ends other than by an error;
        no path returns an error after a fork; each path that succeeds has forked and recorded all. Handlers start all of a request by one call."""
