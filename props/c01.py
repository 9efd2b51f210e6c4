"""C01: the restricted executable."""
from startp import *


class Mon(ForkMon):
    def __init__(self, rep, statics):
        self.rep = rep
        self.statics = statics
        self.nexec = 0
        self.nexit = 0

    def restr(self, term):
        """The restriction mentioned by a term."""
        return any(l.k == 'sym' and l.a[0] in self.statics for l in term.leaves)

    def on_assume(self, st, term, val):
        if not self.restr(term):
            return
        if term.k == 'sym':
            st.mon = st.mon | {('restricted', bool(val))}
            return
        if term.k == 'op' and term.a[0] in ('Eq', 'Ne'):
            a, b = term.a[1]
            eq = bool(val) == (term.a[0] == 'Eq')
            for x, y in ((a, b), (b, a)):
                if self.restr(x) and not self.restr(y):
                    x0 = x
                    while x0.k == 'fld':
                        x0 = x0.a[0]
                    if x0.k == 'sym':
                        st.mon = st.mon | ({('equal', y)} if eq else {'mismatch'})

    def on_sys(self, st, c, path, n, vals):
        if 'child' not in st.mon:
            if n in EXECS:
                self.rep.violation('exec in parent', 'a program is executed outside a forked child', st.trace())
            return None
        if n == 'write':
            if 'mismatch' in st.mon:
                st.mon = st.mon | {'reported'}
            return None
        if n in EXECS:
            self.nexec += 1
            v = models.value(self.eng, st, vals[0])
            if v.k == 'op' and v.a[0] == 'cstring':
                v = v.a[1][0]
            unr = ('restricted', False) in st.mon
            okk = any(isinstance(m, tuple) and m[0] == 'equal' and m[1] is v for m in st.mon)
            self.rep.require(unr or okk, 'exec of an unchecked path',
                             'a program is executed without its path having been compared to the restriction: %s' % show(v, 6), st.trace())
            self.rep.require('mismatch' not in st.mon, 'exec after mismatch', 'a program is executed although it differs from the restriction', st.trace())
        return None

    def on_end(self, st, kind, *a):
        if 'child' in st.mon and kind == 'exit':
            self.nexit += 1
            if 'mismatch' in st.mon:
                self.rep.require('reported' in st.mon, 'mismatch not reported', 'the child of a refused executable exits without reporting an error', st.trace())


def run(rep):
    prog = Prog.get()
    P, G = prog.P, prog.G
    start = start_fn(prog)
    # Statics written by a function, with a value derived from its argument.
    statics, setters = find_restriction(prog, rep)
    rel = ext('fork', 'execve', 'write', 'exit', *EXECS)
    names = {'static ' + s for s in statics}
    mon = Mon(rep, {'static ' + s for s in statics})
    e = absint.Eng(P, [mon], opaque=prog.opaque(lambda x: rel(x) or x in names or x == 'std::process::exit'), name=start)
    e.start(start, start_args(prog, start))
    e.run()
    rep.engine(e)
    rep.note(exec_states=mon.nexec, child_exit_states=mon.nexit)
    rep.require(mon.nexec > 0, 'no exec reached', 'the analysis found no execution of a program')
    # Nothing else executes programs.
    main = prog.one('procstar::main')
    isexec = lambda k: any(sysname(x) in EXECS or x.startswith('std::process::Command') or x.startswith('tokio::process') for x in G.ext[k])
    p = G.path(main, isexec, avoid={start})
    rep.require(p is None, 'exec elsewhere', 'a program can be executed without going through %s: %s' % (start, p))
    # The restriction is set before anything can start.
    order(prog, rep, main, start, setters)
    return __doc__ + """ Forward abstract interpretation of the function that forks, with all that it calls that can fork, execute, write
        or exit: on every path of the child to exec, the path given to exec must be the same term as was found equal to the restriction, or the
        restriction must have been found absent; a child that found it different must write an error before it exits.  Call graph: no exec outside
        that function.  Dominance in main: the restriction is stored before any call that can start a process."""


def find_restriction(prog, rep):
    """Statics of the crate that a function stores its argument in, and that the
    start function's code reads before exec."""
    P, G = prog.P, prog.G
    start = start_fn(prog)
    reads = {x[7:] for x in G.reach_ext(start) if x.startswith('static procstar::')}
    main = prog.one('procstar::main')
    r = set()
    setters = set()
    for k, f in prog.fns.items():
        if not prog.local(k):
            continue
        st = {x[7:] for x in G.ext[k] if x.startswith('static ')} & reads
        if st and any('RwLock' in x and x.endswith('::write') or 'Mutex' in x and x.endswith('::lock') or x.endswith('::set') or x.endswith('::store')
                      for x in G.ext[k]):
            r |= st
            setters.add(k)
    if not r:
        raise Missing('no restriction that is set and consulted before executing')
    return r, setters


RUN = ('tokio::runtime::runtime::Runtime::block_on', 'tokio::task::local::LocalSet::run_until', 'core::future::future::Future::poll')


def order(prog, rep, main, start, setters):
    """In main and what it runs: every call path to the start function is
    preceded by the setting, whenever the option is present."""
    P, G = prog.P, prog.G

    reachers = G.callers(lambda k: k == start)

    class M:
        """phase 1 finds what the restriction is set from; phase 2 checks that nothing is started unless it was set or is absent."""
        n = 0
        sets = 0
        absent = 0
        source = None

        def __init__(self, phase):
            self.phase = phase

        def on_assume(self, st, term, val):
            if self.source is not None and val == 0 and term is self.source:
                # No restriction was asked for: nothing to check on this path.
                self.absent += 1
                return False

        def on_call(self, st, c, path, vals):
            k = c.get('key')
            if k in setters:
                self.sets += 1
                v = models.value(self.eng, st, vals[0])
                if self.phase == 1:
                    ok = v.k == 'fld' and v.a[1] == 1 and any_node(v, lambda n: n.k in ('res', 'sym', 'op') and 'parse' in str(n.a[0])) is not None
                    rep.require(ok, 'restriction value', 'the restriction is not exactly the configured string: %s' % show(v, 6), st.trace())
                    if ok:
                        M.source = v.a[0]
                # In force from here on.
                return False
            esc = not c.get('body') and c.get('kind') != 'ctor' and path not in RUN and any(
                any_node(v, lambda n: n.k == 'cor' and n.a[0] in reachers or n.k == 'agg' and str(n.a[0])[8:] in reachers) for v in vals)
            if k == start or esc:
                if self.phase == 2:
                    self.n += 1
                    rep.violation('restriction set late',
                                  'processes can be started before the restriction is in force, by %s' % path, st.trace())
                return False
            return None

    for phase in (1, 2):
        m = M(phase)
        e = absint.Eng(P, [m], opaque=(lambda k: k in prog.fns and prog.local(k) and prog.fns[k]['kind'] == 'Item' and k not in reachers and
                                                                              not (G.reach(k) & setters)), name='main')
        e.start(main, [])
        e.run()
        if phase == 1:
            rep.require(m.sets > 0, 'restriction never set', 'the restriction is never set in main')
    rep.engine(e)
    rep.note(main_setting_states=m.sets, main_unrestricted_states=m.absent)
    rep.require(main in reachers or any(main in k for k in reachers), 'main starts nothing', 'main does not reach the starting of processes')
