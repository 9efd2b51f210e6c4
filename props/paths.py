"""Path summaries: what a function does, on each of its paths, in terms of its arguments."""
from common import *
import models
from startp import sysname


class Path:
    """One path: events (label, path, args, facts so far), how it ended, its result and its conditions."""

    def __init__(self, evs, kind, result, st):
        self.evs = evs
        self.kind = kind
        self.result = result
        self.facts = dict(st.facts)
        self.st = st
        self.trace = st.trace()

    def labels(self):
        return [e[0] for e in self.evs]

    def show(self, d=6):
        return '%s -> %s: %s' % (self.kind, show(self.result, d) if self.result is not None else None,
                                 '; '.join('%s(%s)' % (e[0], ', '.join(show(a, d) for a in e[1])) for e in self.evs))


class Collect:
    """Records the calls of interest on each path.  want(path, c): label or None;
    act(eng, st, label, c, path, vals): as on_call."""

    # Labels of which the last suffices.
    idem = ('result', 'data')

    def __init__(self, want, act=None, limit=60, spawned=False, awaits=()):
        # awaits: opaque async functions whose results are recorded, too.
        self.awaits = tuple('future ' + a for a in awaits)
        self.want = want
        self.act = act
        self.paths = []
        self.limit = limit
        self.n = 0
        self.spawned = spawned
        self.trunc = 0

    def evs(self, st):
        for m in st.mon:
            if isinstance(m, tuple) and m and m[0] == 'evs':
                return m[1]
        return ()

    def add(self, st, label, args):
        e = self.evs(st)
        if label in self.idem:
            # Of repeated ones, the last.
            e = tuple(x for x in e if x[0] != label)
        if len(e) >= self.limit:
            self.trunc += 1
            return False
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m and m[0] == 'evs')) | {('evs', e + ((label, tuple(args), self.conds(st)),))}
        return True

    def conds(self, st):
        return ()

    def on_call(self, st, c, path, vals):
        label = self.want(path, c)
        if label is None:
            return None
        self.n += 1
        args = [models.freeze(self.eng, st, models.value(self.eng, st, v)) for v in vals]
        if not self.add(st, label, args):
            return False
        if self.act:
            return self.act(self.eng, st, label, c, path, vals)
        return None

    def on_spawn(self, st, f):
        if self.spawned:
            self.add(st, 'spawn', [models.freeze(self.eng, st, f)])

    def on_ready(self, st, v, x):
        if self.awaits and v.k == 'op' and str(v.a[0]) in self.awaits:
            self.add(st, 'await', [v, x])

    def on_end(self, st, kind, *a):
        r = a[0] if a and isinstance(a[0], N) else None
        if r is not None:
            r = models.freeze(self.eng, st, r)
        self.paths.append(Path(self.evs(st), kind, r, st))


def default_args(prog, key, given={}):
    f = prog.fns[key]
    args = []
    for i in range(1, f['argc'] + 1):
        t = prog.P.types[f['locals'][i]]
        nm = next((n for n, (l, p, _) in ((x[0], x[1]) for x in f['names']) if l == i and not p), None) or 'arg%d' % i
        v = given.get(i, given.get(nm))
        if v is None:
            v = sym(nm)
            if t['k'] == 'ref':
                v = ref(('V', v))
        args.append(v)
    return args


def paths(prog, key, want, opaque=None, act=None, args=None, mon=None, limit=60, max_states=None, rep=None, poll=None, cells=None, awaits=(), **kw):
    """Runs a function (if async: until it ends) and returns its Collect."""
    m = mon or Collect(want, act, limit, awaits=awaits)
    e = absint.Eng(prog.P, [m], opaque=opaque, name=key, **kw)
    if max_states:
        e.max_states = max_states
    f = prog.fns[key]
    a = args if args is not None else default_args(prog, key)
    rt = prog.P.types[f['locals'][0]]
    if rt['k'] == 'coroutine' or poll:
        start_async(e, key, a, cells)
    else:
        e.start(key, a, cells=cells)
    e.run()
    if rep is not None:
        rep.engine(e)
    m.engine = e
    return m


def start_async(e, key, args, cells=None, mon=None):
    """Analyses the future that an async function returns for these arguments."""
    fn = e.F[key]
    t = e.T[fn['locals'][0]]
    # The body of an async fn just builds the future out of its arguments.
    got = []

    class Grab:
        def on_end(self, st, kind, *a):
            got.append((st, a[0] if a else None))
    g = absint.Eng(e.P, [Grab()], name=key)
    g.start(key, args, cells=cells)
    g.run()
    for st, v in got:
        if v is not None:
            e.start('$root', [v], cells=dict(cells or {}, **{}) | st.cells, facts=st.facts, mon=mon)
