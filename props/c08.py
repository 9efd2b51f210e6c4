"""C08: the shutdown state gates new work and only moves forward."""
from climb import *
from startp import start_fn, ForkMon

STATE = 'procstar::shutdown::State'
NOTI = 'procstar::procs::Notification'
PROCS = 'procstar::procs::Procs'
ORDER = ('Active', 'Idling', 'Done')


def iswatch(prog, path, c):
    return path.startswith('tokio::sync::watch::') and any(isinstance(a, int) and prog.P.types[a]['s'] == STATE for a in c.get('targs') or ())


class Known:
    """The shutdown state is a given one, until it is set."""

    def known(self, st, c, path, vals):
        if not iswatch(self.prog, path, c) or not vals:
            return
        key = models.watch_key(models.value(self.eng, st, vals[0]))
        if ('W', key) not in st.cells:
            t = mk('cont', mk('op', 'watched', (key,)))
            if t not in st.facts:
                st.facts[t] = ('v', self.idx[self.s0])

    def state(self, st):
        """The present state: a name, or None if unknown; the given one if never looked at."""
        for c, v in st.cells.items():
            if c[0] == 'W':
                i = self.eng.variant(st, v)
                return self.names[i] if i is not None else None
        return self.s0

    def setup(self, prog, s0):
        self.prog = prog
        self.names = [v['name'] for v in prog.P.tdef[STATE]['variants']]
        self.idx = {n: i for i, n in enumerate(self.names)}
        self.s0 = s0


class Op(Known):
    """An operation on the table of processes, from a given shutdown state."""

    def __init__(self, rep, prog, s0, what, given):
        self.setup(prog, s0)
        self.rep = rep
        self.what = what
        self.given = given
        self.n = {}
        self.i = field_index(prog.P, PROCS, 'procs', 'BTreeMap<')
        self.sd = variant_index(prog.P, NOTI, 'ShutDown')

    def need(self, cond, key, msg, st):
        self.n['obl'] = self.n.get('obl', 0) + 1
        return self.rep.require(cond, key, msg, st.trace())

    def told(self, st):
        for m in st.mon:
            if isinstance(m, tuple) and m[0] == 'told':
                return m[1]
        return self.s0

    def announced(self, st):
        s = self.state(st)
        self.need(s is None or s == self.told(st), 'change not announced: %s' % self.what, 'in %s, the change of the shutdown state to %s is not announced' % (self.what, s), st)

    def on_call(self, st, c, path, vals):
        self.known(st, c, path, vals)
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::receiver_count'):
            return I(1)
        if iswatch(self.prog, path, c) and '::send' in path:
            self.announced(st)
            return None
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::send'):
            v = models.value(self.eng, st, vals[1])
            if v.k == 'agg' and v.a[0] == NOTI and (v.a[1] or 0) == self.sd:
                x = models.value(self.eng, st, v.a[2][0])
                i = self.eng.variant(st, x)
                s = self.names[i] if i is not None else None
                self.n['announcements'] = self.n.get('announcements', 0) + 1
                self.need(s is not None and s == self.state(st), 'other state announced: %s' % self.what,
                          'in %s, the shutdown state announced, %s, is not the present one, %s' % (self.what, s, self.state(st)), st)
                st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'told')) | {('told', s)}
                return ok(I(1))
        return None

    def table(self, st):
        """Whether the table is empty: True, False or None."""
        t = st.cells.get(TABLE)
        if t is None or t.k != 'agg':
            return None
        v = t.a[2][self.i]
        if v.k != 'seq':
            return None
        if not v.a[0]:
            return True
        if any(s[0] == 'one' for s in v.a[0]):
            return False
        lo, hi, _ = self.eng.rng(st, op('len', v))
        return True if hi == 0 else False if lo > 0 else None

    def check(self, st, where):
        s = self.state(st)
        w = self.what
        self.announced(st)
        if not self.need(s is not None, 'state unknown: ' + w, 'in %s, the shutdown state is set to something that is not known' % w, st):
            return
        self.need(ORDER.index(s) >= ORDER.index(self.s0), 'moves back: ' + w, 'in %s, the shutdown state goes from %s back to %s' % (w, self.s0, s), st)
        e = self.table(st)
        if s == 'Idling' and e and (st.cells.get(TABLE) is not self.t0 or self.s0 != 'Idling'):
            self.need(False, 'idle, not done: ' + w, 'after %s the service is idling and no process remains, but shutdown is not done' % w, st)
        if s != self.s0:
            self.n['changes'] = self.n.get('changes', 0) + 1
            g = self.given
            if g is None:
                self.need(self.s0 == 'Idling' and e is not False, 'changes unbidden: ' + w,
                          'in %s, the shutdown state goes from %s to %s although %s' % (w, self.s0, s, 'processes remain' if self.s0 == 'Idling' else 'no shutdown was requested'), st)
            elif s != g:
                self.need(g == 'Idling' and s == 'Done' and e is not False, 'other state: ' + w, 'in %s, the shutdown state is set to %s instead of %s' % (w, s, g), st)
        elif self.given is not None and ORDER.index(self.given) > ORDER.index(self.s0):
            self.need(False, 'not set: ' + w, 'in %s, the shutdown state remains %s instead of %s' % (w, s, self.given), st)

    def on_ready(self, st, v, x):
        # Another arbitrary state, at the same stage.
        if not any(c[0] == 'W' for c in st.cells):
            return

    def on_suspend(self, st):
        self.check(st, 'suspension')
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'told'))

    def on_end(self, st, kind, *a):
        if kind == 'return':
            self.n['ends'] = self.n.get('ends', 0) + 1
            self.check(st, 'end')


def tables(prog):
    """Tables: empty, of one, of two, of one and any others."""
    P = prog.P
    i = field_index(P, PROCS, 'procs', 'BTreeMap<')
    w, cells = witness(prog)
    t = cells[TABLE]

    def of(*xs):
        return agg(t.a[0], 0, *[mk('seq', tuple(xs)) if j == i else x for j, x in enumerate(t.a[2])])
    one = lambda n, j: ('one', ('W', j), tup(sym(n + ':id'), sym(n + ':rec')))
    return w, [('no process', of()), ('one process', of(one('W', 0))), ('two processes', of(one('V', 1), one('W', 0))), ('any processes', t)]


def op_args(prog, key, w):
    """Arguments: (list, index of the state or None)."""
    f = prog.fns[key]
    args = default_args(prog, key)
    si = None
    for i in range(f['argc']):
        t = prog.P.types[f['locals'][i + 1]]
        s = t['s']
        if 'procs::SharedProcs' in s and '{' not in s:
            args[i] = ref(('V', w)) if t['k'] == 'ref' else w
        elif s.lstrip('&').replace('mut ', '') == PROCS and t['k'] == 'ref':
            args[i] = ref(TABLE)
        elif s == STATE:
            si = i
    return args, si


def check_op(rep, prog, key):
    f = prog.fns[key]
    name = f['path'].split('::', 1)[-1]
    w, ts = tables(prog)
    h = Handlers(prog)
    out = {}
    asy = prog.P.types[f['locals'][0]]['k'] == 'coroutine'
    opq = prog.opaque(lambda x: relevant(x) or 'RefCell' in x or 'BTreeMap' in x or 'core::cmp' in x)
    for s0 in ORDER:
        for tn, t in ts:
            args, si = op_args(prog, key, w)
            for g in ORDER if si is not None else (None,):
                m = Op(rep, prog, s0, name, g)
                m.t0 = t
                a = list(args)
                if si is not None:
                    a[si] = agg(STATE, m.idx[g])
                e = absint.Eng(prog.P, [m], opaque=lambda k: k in h.opq, name=name)
                e.max_states = 200000
                m.eng = e
                mon = frozenset({('table', ref(TABLE))})
                if asy:
                    start_async(e, key, a, {TABLE: t}, mon)
                else:
                    e.start(key, a, cells={TABLE: t}, mon=mon)
                e.run()
                rep.engine(e)
                for k, v in m.n.items():
                    out[k] = out.get(k, 0) + v
    return out


def relevant(x):
    return x.startswith('tokio::sync::watch::Sender') and '::send' in x


def calls(prog, pred):
    """Functions with a call whose path and type arguments satisfy pred; of closures and async bodies, those that make them."""
    P = prog.P
    r = set()
    for k, f in prog.fns.items():
        if not prog.local(k):
            continue
        for b in f['blocks']:
            c = (b['t'][1].get('const') or {}).get('fn') if b['t'][0] == 'call' else None
            if c and pred(c.get('path') or '', [P.types[a]['s'] for a in c.get('targs') or () if isinstance(a, int)]):
                r |= owner(prog, k)
    return sorted(r)


RECORDS = 'RefCell<procstar::procs::Proc>'
REMOVALS = ('remove', 'remove_entry', 'pop_first', 'pop_last', 'clear', 'retain', 'append', 'split_off', 'first_entry', 'last_entry', 'entry')


def removers(prog):
    """Functions that may remove from the table: they have one of its operations, or exchange it."""
    def pred(p, ta):
        return p.startswith(MAPS) and p.rsplit('::', 1)[-1] in REMOVALS and any(RECORDS in s for s in ta) or p.startswith('core::mem::') and any(
            'BTreeMap<' in s and RECORDS in s or s == PROCS for s in ta)
    return calls(prog, pred)


def setters(prog):
    return calls(prog, lambda p, ta: relevant(p) and STATE in ta)


class Gate(ForkMon, Known):
    """Nothing is forked or recorded unless active."""

    def __init__(self, rep, prog, s0):
        self.setup(prog, s0)
        self.rep = rep
        self.n = {}

    def on_call(self, st, c, path, vals):
        self.known(st, c, path, vals)
        n = sysname_(path)
        if n in ('fork', 'vfork'):
            self.n['forks'] = self.n.get('forks', 0) + 1
            self.rep.require(self.s0 == 'Active', 'started: %s' % self.s0, 'a process is started although the shutdown state is %s' % self.s0, st.trace())
            return False
        if path.startswith(MAPS) and path.endswith('::insert') and any(isinstance(a, int) and 'RefCell<procstar::procs::Proc>' in self.prog.P.types[a]['s'] for a in c.get('targs') or ()):
            self.rep.require(self.s0 == 'Active', 'recorded: %s' % self.s0, 'a process is recorded although the shutdown state is %s' % self.s0, st.trace())
        return None

    def on_end(self, st, kind, *a):
        if kind == 'return' and self.s0 != 'Active':
            r = a[0] if a else None
            self.n['refusals'] = self.n.get('refusals', 0) + 1
            v = self.eng.variant(st, r) if isinstance(r, N) else None
            self.rep.require(v == 1, 'not refused: %s' % self.s0, 'a start request is not refused although the shutdown state is %s' % self.s0, st.trace())


def sysname_(path):
    return path.rsplit('::', 1)[-1] if path.startswith('libc::') else None


def gate(rep, prog):
    start = start_fn(prog)
    P, G = prog.P, prog.G
    w, ts = tables(prog)
    keep = prog.table_insert()
    rel = lambda x: sysname_(x) in ('fork', 'vfork') or x.startswith('tokio::sync::watch::') or x in ('std::process::exit',)
    opq = prog.opaque(rel, leaves=True, keep=keep)
    for s0 in ORDER:
        m = Gate(rep, prog, s0)
        args, _ = op_args(prog, start, w)
        for i in range(prog.fns[start]['argc']):
            if 'spec::Proc' in P.types[prog.fns[start]['locals'][i + 1]]['s']:
                args[i] = sym('specs')
        e = absint.Eng(P, [m], opaque=opq, name='start: ' + s0)
        e.start(start, args, cells={TABLE: ts[3][1]})
        e.run()
        rep.engine(e)
        if s0 == 'Active':
            rep.require(m.n.get('forks'), 'never starts', 'no path of the start function forks while active')
        else:
            rep.require(m.n.get('refusals'), 'never refuses', 'no path of the start function ends while %s' % s0)
    # No other way to a fork.
    main = prog.one('procstar::main')
    p = G.path(main, lambda k: any(sysname_(x) in ('fork', 'vfork') for x in G.ext[k]), avoid={start})
    rep.require(not p, 'other way to fork', 'processes are forked other than by the start function: %s' % (p,))


class Wait(Known):
    def __init__(self, rep, prog, name):
        self.setup(prog, None)
        self.rep, self.name, self.n = rep, name, 0

    def on_end(self, st, kind, *a):
        if kind != 'return':
            return
        self.n += 1
        done = self.idx['Done']
        self.rep.require(any(iswatched(t) and self.eng.variant(st, t) == done for t in st.facts), 'shutdown wait ends', '%s ends although the shutdown state was not found to be done' % self.name, st.trace())


def waits(rep, prog):
    P = prog.P
    n = 0
    for k in direct(prog, lambda x: x.startswith('tokio::sync::watch::Receiver') and x.endswith('::changed')):
        f = prog.fns[k]
        if P.types[f['locals'][0]]['k'] != 'coroutine' or P.types[f['locals'][0]].get('s', '').count('Result'):
            continue
        if not all('SharedProcs' in P.types[f['locals'][i]]['s'] for i in range(1, f['argc'] + 1)):
            continue
        w, ts = tables(prog)
        args, _ = op_args(prog, k, w)
        m = Wait(rep, prog, f['path'].split('::', 1)[-1])
        e = absint.Eng(P, [m], name=k)
        m.eng = e
        start_async(e, k, args, {TABLE: ts[3][1]})
        e.run()
        rep.engine(e)
        n += m.n
    return n


def initial(rep, prog):
    """Each channel of the state begins as active."""
    n = 0
    for k in direct(prog, lambda x: x == 'tokio::sync::watch::channel::channel' or x.startswith('tokio::sync::watch::') and x.endswith('channel')):
        m = paths(prog, k, lambda p, c: 'channel' if p.startswith('tokio::sync::watch::') and p.endswith('channel') else None, rep=rep)
        for p in m.paths:
            for e in p.evs:
                v = e[1][0]
                if v.k == 'agg' and v.a[0] == STATE:
                    n += 1
                    rep.require(prog.P.tdef[STATE]['variants'][v.a[1] or 0]['name'] == 'Active', 'initial state', 'the initial shutdown state is not active', p.trace)
    rep.require(n, 'no initial state', 'nothing sets the initial shutdown state')


def run(rep):
    prog = Prog.get()
    with part(rep):
        gate(rep, prog)
    initial(rep, prog)
    ss = setters(prog)
    keys = sorted(set(ss) | set(removers(prog)))
    rep.require(ss, 'no setter', 'nothing sets the shutdown state')
    tot = {}

    def check(b, k):
        for n, v in check_op(b, prog, k).items():
            tot[n] = tot.get(n, 0) + v
    climb(rep, prog, keys, check)
    for n in ('changes', 'announcements', 'ends'):
        rep.require(tot.get(n), 'no ' + n, 'the analysis of the operations on the table found no ' + n)
    rep.note(operations=[prog.fns[k]['path'] for k in keys], waits=waits(rep, prog), **tot)
    return __doc__ + """ The function that starts processes is analysed in each shutdown state: unless active nothing is forked or recorded and an error
        is returned, and no other function leads to a fork.  Each function that sets the state or removes records is analysed from every state, for every
        requested state, and for tables of none, one, two and arbitrarily many processes: the state never goes back, changes only as requested or from idling
        to done when the table is empty, is done whenever idling with an empty table results, and every change is announced after it was made, as made.
        An obligation that fails in a function is discharged if it holds in all its callers."""
