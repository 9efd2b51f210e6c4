"""Path summaries of the two request handlers: the agent's and the HTTP service's."""
from paths import *

KILLS = ('kill', 'killpg', 'tgkill', 'tkill', 'pidfd_send_signal', 'sigqueue', 'raise', 'pthread_kill', 'syscall')
MAPS = ('alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap')


class Handlers:
    def __init__(self, prog):
        self.prog = prog
        P = prog.P
        ret = lambda k: P.types[prog.fns[k]['locals'][0]]['s']
        arg = lambda k, s: any(s in P.types[prog.fns[k]['locals'][i]]['s'] for i in range(1, prog.fns[k]['argc'] + 1))
        plain = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in f['path'] and not f['cor']]
        self.starters = [k for k in plain if 'JoinHandle' in ret(k) and arg(k, 'spec::Proc')]
        if not self.starters:
            import startp
            self.starters = [startp.start_fn(prog)]
        # A process's result; the data of an fd.
        self.results = [k for k in plain if ret(k) == 'procstar::res::ProcRes' and arg(k, 'procs::Proc') and not k.startswith('<')]
        self.datas = [k for k in plain if 'FdData' in ret(k) and 'Result' in ret(k) and arg(k, 'FdHandler')]
        self.opq = set(self.starters) | set(self.results) | set(self.datas)
        self.PID = field_index(P, 'procstar::procs::Proc', 'pid')
        self.WAIT = field_index(P, 'procstar::procs::Proc', 'wait_info', 'rusage')

    def want(self, path, c):
        k = c.get('key')
        if k in self.starters:
            return 'start'
        if k in self.results:
            return 'result'
        if k in self.datas:
            return 'data'
        n = sysname(path)
        if n in KILLS:
            return n
        if path.startswith(MAPS):
            n = path.rsplit('::', 1)[-1]
            if n in ('remove', 'remove_entry', 'pop_first', 'pop_last', 'clear', 'retain', 'insert', 'append', 'drain', 'split_off', 'first_entry'):
                return 'map ' + n
        if path.startswith('core::mem::') and path.rsplit('::', 1)[-1] in ('swap', 'take', 'replace'):
            return None
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::send'):
            return 'notify'
        if path.startswith('tokio::sync::watch::Sender') and '::send' in path:
            return 'watch'
        return None

    def table(self, label, args):
        """Whether a map event is about the process table."""
        return any_node(args[0], lambda n: n.k == 'sym' and n.a[0] in ('procs', 'self')) is not None

    class Mon(Collect):
        """Signals and starts are followed both when they succeed and when they fail."""

        def __init__(self, h, *a, **kw):
            Collect.__init__(self, h.want, *a, **kw)
            self.h = h

        def alts(self, st, label, args, alts):
            self.n += 1
            out = []
            for what, r in alts:
                s = st.copy()
                if self.add(s, label + ' ' + what, args) is not False:
                    s.note('%s: %s' % (label, what))
                    out.append((s, r))
            return out or False

        def on_call(self, st, c, path, vals):
            h = self.h
            label = self.want(path, c)
            eng = self.eng
            args = [models.freeze(eng, st, models.value(eng, st, v)) for v in vals] if label else None
            if label in KILLS and label != 'raise':
                pid = models.value(eng, st, vals[0]) if vals else None
                unreaped = None
                if pid is not None and pid.k == 'fld' and pid.a[2] == h.PID:
                    unreaped = eng.variant(st, mk('fld', pid.a[0], pid.a[1], h.WAIT)) == 0
                return self.alts(st, label, args + [I(1 if unreaped else 0)], (('ok', I(0)), ('err', I(-1))))
            if label == 'start':
                return self.alts(st, label, args, (('ok', ok(sym('start tasks'))), ('err', err(sym('start error')))))
            if label == 'data':
                # With its result, so that what is found out about that is kept.
                self.n += 1
                r = eng.fresh(st, path, eng.site(st), *args)
                if self.add(st, label, args + [r]) is False:
                    return False
                return r
            return Collect.on_call(self, st, c, path, vals)

    def run(self, key, rep=None, **kw):
        m = self.Mon(self)
        paths(self.prog, key, None, opaque=lambda k: k in self.opq, mon=m, rep=rep, **kw)
        m.eng = m.engine
        return m

    def agent_fn(self):
        P = self.prog.P
        r = [k for k, f in self.prog.fns.items() if self.prog.local(k) and f['kind'] == 'Item' and P.types[f['locals'][0]]['k'] == 'coroutine'
             and any(P.types[f['locals'][i]]['s'] == 'procstar::proto::IncomingMessage' for i in range(1, f['argc'] + 1))]
        if not r:
            raise Missing('no async function that handles an agent message')
        return self.outer(r)

    def http_fn(self):
        P = self.prog.P
        r = [k for k, f in self.prog.fns.items() if self.prog.local(k) and f['kind'] == 'Item' and P.types[f['locals'][0]]['k'] == 'coroutine'
             and any('http::request::Request<hyper::body::incoming::Incoming>' in P.types[f['locals'][i]]['s'] for i in range(1, f['argc'] + 1))
             and '{closure' not in f['path']]
        if not r:
            raise Missing('no async function that handles an HTTP request')
        return self.outer(r)

    def outer(self, r):
        G = self.prog.G
        top = [k for k in r if not any(j != k and k in G.reach(j) and j not in G.reach(k) for j in r)]
        return sorted(top)[0]

    def argname(self, key, typ):
        """The symbol that stands for the argument of a type."""
        f = self.prog.fns[key]
        for i, a in enumerate(default_args(self.prog, key), 1):
            if typ in self.prog.P.types[f['locals'][i]]['s']:
                return a.a[0][1] if a.k == 'ref' else a
        return None


TABLE = ('H', 'procs')


def witness(prog, state=None, extra=None):
    """A table of processes that holds, between any others, an arbitrary one: W:id with record W:rec."""
    P = prog.P
    A = 'procstar::procs::Procs'
    i = field_index(P, A, 'procs', 'BTreeMap<')
    fields = [sym('procs.' + f[0]) for f in P.tdef[A]['variants'][0]['fields']]
    base = sym('table')
    fields[i] = mk('seq', (('base', base), ('one', ('W', 0), tup(sym('W:id'), sym('W:rec'))), ('base', base)))
    return (agg('procstar::procs::SharedProcs', 0, ref(TABLE)), {TABLE: agg('procstar::procs::Procs', 0, *fields)})


def with_witness(prog, key):
    """Arguments of a function with the witness table, and the cells."""
    w, cells = witness(prog)
    f = prog.fns[key]
    args = default_args(prog, key)
    for i in range(f['argc']):
        t = prog.P.types[f['locals'][i + 1]]
        if 'procs::SharedProcs' in t['s']:
            args[i] = ref(('V', w)) if t['k'] == 'ref' else w
    return args, cells


def enum_variant(P, eng, st, term, adt):
    """Name of the variant that a term has in a state."""
    v = eng.variant(st, term)
    if v is None:
        return None
    vs = P.tdef[adt]['variants']
    return vs[v]['name'] if v < len(vs) else None


def found(eng, st, key):
    """Whether the process table was found to hold a key: True, False, None (not looked up)."""
    r = None
    for t, f in st.facts.items():
        if t.k == 'op' and t.a[0] in ('map_get', 'map_has', 'contains_key') and len(t.a[1]) > 1 and t.a[1][1] is key and any_node(
                t.a[1][0], lambda n: n.k == 'sym' and (n.a[0] in ('procs', 'self', 'table'))):
            if f[0] == 'v':
                r = f[1] == 1
            elif f[0] == 'r':
                r = f[1] == 1 if f[1] == f[2] else r
    return r


def variants(eng, st, term, n):
    """The variants that a term of an enum of n variants may have in a state."""
    v = eng.variant(st, term)
    if v is not None:
        return {v}
    f = st.facts.get(term)
    r = set(range(n))
    if f is not None and f[0] == 'nv':
        r -= set(f[1])
    return r
