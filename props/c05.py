"""C05: the process table never loses or overwrites a running process."""
from climb import *
from startp import start_fn
import startp
import reap
import c04
from c08 import tables, op_args, calls, removers, RECORDS, PROCS, Known
from c16 import not_running, strip
from c20 import inserters


class Births(reap.Life):
    """Each forked process gets one record, with its pid and under the ID of its spec."""

    def at_fork(self, st):
        self.count('forks')
        self.settled(st, 'another is forked')

    def settled(self, st, when):
        pid = self.tag(st, 'pid')
        if pid is not None and 'task' not in st.mon:
            self.need(self.tag(st, 'rec') is not None, 'no record', 'a forked process has no record when %s' % when, st)

    def on_record(self, st, key, r, rec):
        self.count('records')
        pid = self.tag(st, 'pid')
        if not self.need(pid is not None, 'record without process', 'a record is made without a process having been forked', st):
            return
        self.need(self.tag(st, 'rec') is None, 'second record', 'a forked process gets a second record', st)
        self.need(models.value(self.eng, st, self.field(rec, 'pid')) is pid, 'pid of record', 'the pid of a record is not what fork returned: %s' % show(self.field(rec, 'pid'), 5), st)
        k = strip(key)
        self.need(k.k == 'fld' and k.a[2] == 0 and any_node(k, lambda x: x.k == 'elem' and any_node(x, lambda y: y is sym('specs')) is not None) is not None, 'ID of record',
                  'a process is not recorded under the ID of its spec: %s' % show(k, 6), st)
        reap.Life.on_record(self, st, key, r, rec)

    def on_suspend(self, st):
        self.settled(st, 'another task runs')

    def on_end(self, st, kind, *a):
        if kind == 'return' and 'task' not in st.mon:
            self.settled(st, 'the start returns')

    def on_other(self, st, c, path, vals):
        if path.startswith(MAPS) and path.endswith('::insert') and any(isinstance(a, int) and RECORDS in self.prog.P.types[a]['s'] for a in c.get('targs') or ()):
            # Not the record made for it.
            self.need(False, 'other record', 'something other than a new record is put in the table', st)
        return None


class Deaths(Known):
    """What an operation may remove."""

    def __init__(self, rep, prog, name, ids, t0, given):
        self.setup(prog, 'Idling')
        self.s0 = None
        self.rep, self.name, self.ids, self.given = rep, name, ids, given
        self.i = field_index(prog.P, PROCS, 'procs', 'BTreeMap<')
        self.t0 = t0.a[2][self.i].a[0]
        self.tab0 = t0
        self.WAIT = field_index(prog.P, 'procstar::procs::Proc', 'wait_info', 'rusage')
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def need(self, cond, key, msg, st):
        return self.rep.require(cond, '%s: %s' % (key, self.name), 'in %s, %s' % (self.name, msg), st.trace())

    def on_call(self, st, c, path, vals):
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::receiver_count'):
            return I(1)
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::send'):
            return ok(I(1))
        return None

    def same(self, st, a, b):
        a, b = strip(a), strip(b)
        return a is b or self.eng.truth(st, models.eq_term(self.eng, st, a, b)) is True

    def ended(self, st, pred):
        """Whether the record that satisfies pred was found to be of a process that does not run."""
        recs = set()
        for t in st.facts:
            any_node(t, lambda x: x.k == 'fld' and x.a[1:] == (0, self.WAIT) and any_node(x.a[0], pred) is not None and recs.add(x.a[0]) is None and False)
            any_node(t, lambda x: x.k == 'fld' and any_node(x.a[0], pred) is not None and x.a[0].k == 'cont' and recs.add(x.a[0]) is None and False)

        class H:
            WAIT = self.WAIT
        return any(not_running(self.eng, st, r, H, self.prog.P) for r in recs)

    def check(self, st):
        t = st.cells.get(TABLE)
        v = t.a[2][self.i] if t is not None and t.k == 'agg' else None
        if not self.need(v is not None and v.k == 'seq', 'table unknown', 'the table of processes becomes something that is not known', st):
            return 0
        gone = []
        now = [s[2] for s in v.a[0] if s[0] == 'one' and s[2].k == 'agg']
        for s in self.t0:
            if s[0] == 'one':
                k, r = s[2].a[2]
                if not any(x.a[2][0] is k for x in now):
                    gone.append((k, lambda x, r=r: x is r))
                else:
                    self.need(any(x.a[2][0] is k and x.a[2][1] is r for x in now), 'record replaced', 'the record of a process is replaced', st)
        for s in v.a[0]:
            if s[0] == 'del':
                gone.append((s[1], lambda x, k=s[1]: x.k == 'op' and x.a[0] in ('map_val', 'map_ent', 'map_get') and x.a[1][1] is k))
        had = any(s[0] in ('base', 'star') for s in self.t0)
        has = any(s[0] in ('base', 'star') for s in v.a[0])
        if self.ids:
            self.need(has or not had, 'others removed', 'processes are removed that were not named', st)
            self.need(len(gone) <= 1, 'several removed', 'several processes are removed', st)
            for k, pred in gone:
                self.count('removals')
                self.need(any(self.same(st, k, i) for i in self.ids), 'other removed', 'the process removed is not the one named: %s' % show(k, 5), st)
                self.need(self.ended(st, pred), 'running removed', 'a process is removed without having been found not to be running', st)
        elif gone:
            self.count('collections')
            self.need(not now and not has, 'part removed', 'some processes are removed that were not named', st)
        return len(gone)

    def on_suspend(self, st):
        self.check(st)

    def on_end(self, st, kind, *a):
        if kind != 'return':
            return
        n = self.check(st)
        self.count('ends')
        r = a[0] if a and isinstance(a[0], N) else None
        if self.ids and r is not None and r.k == 'agg' and r.a[0] == RES:
            if r.a[1] == 1:
                self.need(n == 0, 'removed although refused', 'a deletion that fails removes a process', st)
                self.count('refusals')
            else:
                self.need(n == 1, 'nothing removed', 'a deletion succeeds although nothing is removed', st)


def id_args(prog, key):
    f = prog.fns[key]
    r = []
    for i in range(f['argc']):
        s = prog.P.types[f['locals'][i + 1]]['s']
        if s in ('alloc::string::String', '&alloc::string::String', '&str'):
            r.append(i)
    return r


def check_remover(rep, prog, key, tot):
    P = prog.P
    f = prog.fns[key]
    name = f['path'].split('::', 1)[-1]
    w, ts = tables(prog)
    h = Handlers(prog)
    ia = id_args(prog, key)
    asy = P.types[f['locals'][0]]['k'] == 'coroutine'
    some_ = 0
    for tn, t in ts:
        for idt in (sym('W:id'), sym('other id')) if ia else (None,):
            args, si = op_args(prog, key, w)
            ids = []
            for i in ia:
                s = P.types[f['locals'][i + 1]]['s']
                args[i] = ref(('V', idt)) if s.startswith('&') else idt
                ids.append(idt)
            m = Deaths(rep, prog, name, ids, t, idt)
            e = absint.Eng(P, [m], opaque=lambda k: k in h.opq, name=name)
            e.max_states = 200000
            m.eng = e
            mon = frozenset({('table', ref(TABLE))})
            if asy:
                start_async(e, key, args, {TABLE: t}, mon)
            else:
                e.start(key, args, cells={TABLE: t}, mon=mon)
            e.run()
            rep.engine(e)
            for k, v in m.n.items():
                tot[k] = tot.get(k, 0) + v
            some_ += m.n.get('removals', 0) + m.n.get('collections', 0)
    rep.require(some_, 'removal not followed: ' + name, 'the removal of processes by %s cannot be followed' % name)


def pid_writes(rep, prog):
    """The pid of a record is never changed."""
    P = prog.P
    i = field_index(P, 'procstar::procs::Proc', 'pid')
    n = 0
    for k, f in prog.fns.items():
        if not prog.local(k):
            continue
        for b in f['blocks']:
            for s in b['s']:
                if s[0] != '=':
                    continue
                n += 1
                d = s[1]
                pr = d[1] if len(d) > 1 else []
                if pr and pr[-1] != '*' and pr[-1][0] == 'f' and pr[-1][1] == i:
                    t = place_type(P, f, [d[0], pr[:-1]])
                    if t == 'procstar::procs::Proc':
                        rep.violation('pid changed: ' + f['path'], '%s changes the pid of a record' % f['path'])
    rep.obligation('pid changed', n)


def place_type(P, f, place):
    """Type of a place, as a string."""
    t = f['locals'][place[0]]
    for e in place[1]:
        ty = P.types[t] if t is not None else None
        if ty is None:
            return None
        if e == '*' or e[0] == '*':
            t = ty.get('to', ty.get('inner'))
            if t is None:
                return ty['s'].lstrip('&').replace('mut ', '', 1) if e is place[1][-1] else None
        elif e[0] == 'f':
            t = e[2] if len(e) > 2 else None
        else:
            return None
    return P.types[t]['s'] if t is not None else None


def ways(rep, prog, keys):
    """Removal is reached only from requests, or at exit."""
    h = Handlers(prog)
    G = prog.G
    main = prog.one('procstar::main')
    hf, af = h.http_fn(), h.agent_fn()
    hs = {k for k, f in prog.fns.items() if any(f['path'] == prog.fns[x]['path'] or f['path'].startswith(prog.fns[x]['path'] + '::{') for x in (hf, af))}
    for k in keys:
        name = prog.fns[k]['path']
        if id_args(prog, k) or k in hs:
            p = G.path(main, lambda x: x == k, avoid=hs) if k not in hs else None
            rep.require(not p, 'removed unasked: ' + name, 'processes are removed by %s other than on request: %s' % (name, ' > '.join(prog.fns[x]['path'] for x in p or ())))
        else:
            for r in hs | {startp.start_fn(prog)} | spawned(prog):
                p = G.path(r, lambda x: x == k)
                rep.require(not p, 'collected early: ' + name, 'all processes are removed by %s other than at exit: %s' % (name, ' > '.join(prog.fns[x]['path'] for x in p or ())))


def spawned(prog):
    """Bodies of tasks that are spawned."""
    r = set()
    P = prog.P
    for k, f in prog.fns.items():
        if not prog.local(k):
            continue
        for b in f['blocks']:
            c = (b['t'][1].get('const') or {}).get('fn') if b['t'][0] == 'call' else None
            if c and (c.get('path') or '').rsplit('::', 1)[-1] in ('spawn_local', 'spawn'):
                for a in c.get('targs') or ():
                    if isinstance(a, int):
                        t = P.types[a]
                        for x in (t.get('body'), t.get('poll')):
                            if x in P.fns:
                                r.add(x)
    return r


def run(rep):
    prog = Prog.get()
    start = start_fn(prog)
    m = Births(rep, prog)
    with part(rep):
        reap.explore(rep, prog, m)
        for k in ('forks', 'records'):
            rep.require(m.n.get(k), 'no ' + k, 'the analysis found no %s' % k)
    # An ID in use is refused.
    n = 0
    for name, specs, ids, acc in c04.scenarios(prog):
        if name.startswith('duplicate ID'):
            with part(rep):
                c04.scenario(rep, prog, start, name, specs, ids, acc)
            n += 1
    # Only by starting are records made.
    main = prog.one('procstar::main')
    for k in prog.table_insert():
        p = prog.G.path(main, lambda x: x == k, avoid={start})
        rep.require(not p, 'recorded otherwise', 'a record is put in the table other than by starting a process: %s' % ' > '.join(prog.fns[x]['path'] for x in p or ()))
    keys = [k for k in removers(prog) if not (k == start or start in prog.G.reach(k))]
    rep.require(keys, 'no removal', 'no function removes from the table')
    tot = {}
    climb(rep, prog, keys, lambda b, k: check_remover(b, prog, k, tot))
    ways(rep, prog, keys)
    rep.require(tot.get('removals') and tot.get('refusals'), 'no deletion', 'the analysis found no deletion, or none refused: %s' % tot)
    pid_writes(rep, prog)
    rep.note(records=m.n.get('records'), duplicate_scenarios=n, operations=[prog.fns[k]['path'] for k in keys], **{k: v for k, v in tot.items()})
    return __doc__ + """ After each fork exactly one record is inserted, with the pid returned and under the ID of the spec, before anything else runs; requests with an
        ID in use are refused. Each function that removes from the table is analysed for tables of none, one, two and arbitrarily many processes: it removes only the process
        named, found not to be running (reaped or in error), and nothing when it fails; it is reached only from the request handlers, and the removal of all only from main."""
