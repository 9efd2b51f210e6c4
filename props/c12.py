"""C12: each descriptor that the service creates for a process is close-on-exec and is closed once."""
import collections

from fdsim import *
from climb import owner
from paths import paths

RAW = ('from_raw_fd_checked', 'from_raw_fd')


def israw(path):
    return path.rsplit('::', 1)[-1] in RAW


class Owner(Sim):
    """The service's table: what is created, handed to an owner, and closed."""

    def __init__(self, rep, prog, key, relevant):
        Sim.__init__(self, rep, prog, key)
        self.relevant = relevant
        self.ends = []
        self.late = False

    def may(self, st, a, b):
        return False

    def fails(self, st, n, v):
        return 'child' not in st.mon and n in CREATES and n not in ('fcntl', 'fcntl64', 'dup', 'dup2', 'dup3')

    def owned(self, e):
        return e is not None and e[0].k == 'op' and e[0].a[0] == 'owned'

    def fork(self, st, c, path):
        for k, e in self.table(st).items():
            if self.isnew(k) and e is not None and not e[1]:
                self.bad(st, 'fork', 'not close-on-exec', 'a child is forked while a descriptor of the service (%s) is not close-on-exec: %s' % (show(e[0], 4), self.show(st)))
        if reg(st, 'named'):
            self.bad(st, 'fork', 'temp file remains', 'a child is forked while a temporary file still has its name')
        # The child is the matter of other properties.
        return [x for x in Sim.fork(self, st, c, path) if 'child' not in x[0].mon]

    def made(self, st, n, nums, clo):
        self.count('created')
        if 'mk' in n:
            setreg(st, 'named', (reg(st, 'named') or 0) + 1)

    def remove(self, st, vals):
        self.count('unlinked')
        out = []
        for r in (ok(UNIT), err(sym('unlink failed'))):
            s = st.copy()
            n = reg(s, 'named') or 0
            v = models.freeze(self.eng, s, models.value(self.eng, s, vals[0]))
            if n and any_node(v, lambda x: x.k == 'op' and 'cstring' in str(x.a[0]) or x.k == 'str' and 'XXXXXX' in x.a[0]) is not None:
                setreg(s, 'named', n - 1)
            if r.a[1]:
                s.note('unlink fails')
            out.append((s, r))
        return out

    def closing(self, st, a, e):
        if not self.isnew(a):
            return
        self.count('closed')
        if e is None:
            self.bad(st, 'close', 'closed twice', 'descriptor %s is closed though it is closed already; a process started meanwhile may have it: %s' % (show(a, 2), self.show(st)))
        elif self.owned(e):
            self.bad(st, 'close', 'closed twice', 'descriptor %s is closed though it has an owner that closes it: %s' % (show(a, 2), self.show(st)))
        elif self.late and not self.iserr(a):
            self.bad(st, 'close', 'closed late', 'descriptor %s (%s), which only the child uses, is still open after the start of the process' % (show(a, 2), show(e[0], 3)))

    def badfd(self, st, n, a):
        if self.isnew(a):
            self.bad(st, n, 'used after close', '%s of descriptor %s after it was closed' % (n, show(a, 2)))

    def on_call(self, st, c, path, vals):
        if israw(path):
            v = models.value(self.eng, st, vals[0])
            e = self.get(st, v)
            if self.isnew(v):
                self.count('handed over')
                if e is None or self.owned(e):
                    self.bad(st, 'own', 'closed twice', 'descriptor %s is given to an owner though it %s' % (show(v, 2), 'has one' if e else 'is closed'))
                    return False
                self.put(st, v, (mk('op', 'owned', (e[0],)), e[1]))
            r = self.eng.fresh(st, path, self.eng.site(st), v)
            return ok(r) if path.endswith('checked') else r
        return Sim.on_call(self, st, c, path, vals)

    def on_spawn(self, st, f):
        if any_node(f, lambda n: n.k == 'cor' and n.a[0] in self.relevant) is not None:
            self.count('tasks')
            t = reg(st, 'tasks')
            setreg(st, 'tasks', mk('agg', 'tasks', 0, (t.a[2] if t else ()) + (f,)))

    def on_end(self, st, kind, *a):
        if 'child' not in st.mon and kind in ('return', 'pending', 'suspend'):
            self.ends.append(st)


def left(m, st):
    return [k for k, e in m.table(st).items() if m.isnew(k) and e is not None and not m.owned(e)]


def state(m, st):
    return frozenset(m.table(st).items()), frozenset(st.cells.items()), reg(st, 'tasks')


def drops(prog):
    """Drop implementations, by the type of what is dropped."""
    return {t['def']: t['drop'] for t in prog.P.types if t.get('drop')}


def life(rep, prog, own, key, procs, relevant, dr):
    m = Owner(rep, prog, key, relevant)
    m.own = own
    simulate(rep, prog, m, procs)
    rep.require(m.ends, key + 'no end', 'the analysis found no end of the start of a request in this case')
    rel = lambda x: sysname(x) in CREATES + ('close',) or israw(x)
    opq = prog.opaque(rel)
    kept = {k for k in prog.fns if any(k.startswith(b + '::{') for b in relevant)}
    done = []
    seen = set()
    for st in m.ends:
        # One after another, the tasks that were spawned.
        todo = [(st, 0)]
        while todo:
            s, i = todo.pop()
            ts = reg(s, 'tasks')
            ts = ts.a[2] if ts else ()
            if reg(s, 'named'):
                m.bad(s, 'end', 'temp file remains', 'a temporary file still has its name when the request is done')
                continue
            if i == len(ts):
                k = state(m, s)
                if k not in seen:
                    seen.add(k)
                    done.append(s)
                continue
            m2 = Owner(rep, prog, key, relevant)
            m2.own = own
            m2.n = m.n
            m2.late = True
            e = absint.Eng(prog.P, [m2], opaque=lambda k: opq(k) and k not in kept, name='task')
            e.max_states = 100000
            e.start('$root', [ts[i]], cells=s.cells, facts=s.facts, mon=s.mon)
            e.run()
            rep.engine(e)
            uniq = {}
            for z in m2.ends:
                uniq.setdefault(state(m2, z), z)
            rep.require(uniq, key + 'task without end', 'the analysis found no end of a task')
            todo += [(z, i + 1) for z in uniq.values()]
    for s in done:
        have = left(m, s)
        closed = collections.Counter()
        for cell, v in list(s.cells.items()):
            recs = []
            any_node(v, lambda x: recs.append(x) if x.k == 'agg' and isinstance(x.a[0], str) and x.a[0] in dr else None)
            for x in recs:
                m3 = Owner(rep, prog, key, relevant)
                m3.own = own
                e = absint.Eng(prog.P, [m3], opaque=opq, name='drop')
                c = ('X', 'record')
                e.start(dr[x.a[0]], [ref(c)], cells=dict(s.cells) | {c: x}, facts=s.facts, mon=s.mon)
                e.run()
                rep.engine(e)
                if m3.ends:
                    closed.update(set.intersection(*[set(have) - set(left(m3, z)) for z in m3.ends]))
        for k, n in closed.items():
            if n > 1:
                m.bad(s, 'end', 'closed twice', 'descriptor %s is closed by %s records: %s' % (show(k, 2), n, m.show(s)))
        rest = [k for k in have if k not in closed]
        if rest:
            d = m.table(s)
            m.bad(s, 'end', 'leaked', 'no owner closes descriptor %s (%s) of the service: %s' % (show(rest[0], 2), show(d[rest[0]][0], 3), m.show(s)))
        rep.obligation('life of descriptors')
    return m


def holds(v, x):
    return v is x or v.k == 'agg' and any(holds(y, x) for y in v.a[2])


class Borrow:
    """A descriptor that is borrowed is not closed by what borrows it."""

    def __init__(self, rep, path):
        self.rep, self.path = rep, path
        self.n = 0

    def on_call(self, st, c, path, vals):
        if israw(path) and not path.endswith('checked'):
            r = self.eng.fresh(st, path, self.eng.site(st), models.value(self.eng, st, vals[0]))
            self.n += 1
            st.mon = st.mon | {('file', r)}
            return r
        return None

    def on_drop(self, st, v, *a):
        for x in st.mon:
            if isinstance(x, tuple) and x[0] == 'file' and holds(models.freeze(self.eng, st, v), x[1]) and not self.manual(a):
                self.rep.violation('borrowed closed: ' + self.path, '%s closes the descriptor of a record that is still in use' % self.path, st.trace())

    def manual(self, a):
        t = a[0]
        return isinstance(t, int) and 'ManuallyDrop' in self.eng.T[t]['s']


def borrowed(rep, prog):
    G = prog.G
    n = 0
    for k in sorted(prog.fns):
        if prog.local(k) and any(israw(x) and not x.endswith('checked') for x in G.ext[k]):
            b = Borrow(rep, prog.fns[k]['path'])
            e = absint.Eng(prog.P, [b], opaque=lambda j: j in prog.fns and j != k and prog.local(j) or 'as std::os' in j or 'as std::io' in j, explore_unwind=True, name=k)
            e.start(k, paths.__globals__['default_args'](prog, k))
            e.run()
            rep.engine(e)
            n += b.n
            rep.obligation('borrowed descriptor')
    rep.note(borrowed=n)


def run(rep):
    prog = Prog.get()
    P, G = prog.P, prog.G
    vs = {v['name']: (i, [f[0] for f in v['fields']]) for i, v in enumerate(P.tdef[FD]['variants'])}

    def spec(v, **kw):
        i, fs = vs[v]
        return mk('agg', FD, i, tuple(kw.get(f, sym('%s.%s' % (v, f))) for f in fs))
    m = Sim(rep, prog)
    m.bad = lambda *a: None
    simulate(None, prog, m, [(sym('ID0'), [(sym('NAME:a'), spec('Inherit'))])])
    own = frozenset(m.written)
    relevant = G.callers(lambda k: any(sysname(x) == 'close' or israw(x) for x in G.ext[k]))
    dr = drops(prog)
    cm = P.tdef['procstar::spec::CaptureMode']['variants']
    of = mk('agg', 'procstar::spec::OpenFlag', 0, ())
    cases = [('Inherit', spec('Inherit')), ('Close', spec('Close')), ('Dup', spec('Dup')), ('Null', spec('Null', flags=of)), ('File', spec('File', flags=of))]
    cases += [('Capture ' + v['name'], spec('Capture', mode=mk('agg', 'procstar::spec::CaptureMode', i, ()))) for i, v in enumerate(cm)]
    tot = {}

    def case(key, procs):
        r = life(rep, prog, own, key + ': ', procs, relevant, dr)
        for a, b in r.n.items():
            tot[a] = tot.get(a, 0) + b
    for nm, sp in cases:
        case(nm, [(sym('ID0'), [(sym('NAME:a'), sp)])])
    a, b = sym('NAME:a'), sym('NAME:b')
    i0, i1 = sym('ID0'), sym('ID1')
    wr = lambda i: (i, [(a, spec('PipeWrite'))])
    rd = lambda i, j: (i, [(b, spec('PipeRead', proc_id=j, fd=a))])
    case('pipe, writer first', [wr(i0), rd(i1, i0)])
    case('pipe, reader first', [rd(i0, i1), wr(i1)])
    case('two captures', [(i0, [(a, cases[-1][1]), (b, cases[-2][1])])])
    for k in ('created', 'closed', 'handed over', 'tasks', 'unlinked'):
        rep.require(tot.get(k), 'none ' + k, 'the analysis found no descriptor %s' % k)
    borrowed(rep, prog)
    rep.note(events=tot)
    return __doc__ + """ The start of a request, then the tasks that it spawns, and then the drop of the records that remain, are interpreted with the service's table of descriptors, for
        each kind of descriptor and for two processes connected by a pipe, and with each failure of a call that creates a descriptor or unlinks a file.  At a fork all are close-on-exec;
        in the end each was closed once or has one owner that closes it."""
