"""C26: exit modes wait for what they promise and deliver the results."""
from waits import *
from climb import *
from c16 import strip
from c08 import STATE

ARGS = 'procstar::argv::Args'
NOTI = 'procstar::procs::Notification'


def islook(path):
    return path.startswith(MAPS) and '::' in path


class Heard:
    """A wait never sleeps past a change: before it, the subscription, and after each message that may be about the
    process found, the table is looked at."""

    def __init__(self, rep, prog, key, kind):
        self.rep, self.prog, self.key, self.kind = rep, prog, key, kind
        self.names = [v['name'] for v in prog.P.tdef[NOTI]['variants']]
        self.ends = {'idle': ('Delete',), 'running': ('Delete', 'NotRunning')}[kind]
        self.n = {}

    def need(self, cond, key, msg, st):
        self.n['obligations'] = self.n.get('obligations', 0) + 1
        return self.rep.require(cond, '%s: %s' % (key, self.kind), msg, st.trace())

    def tag(self, st, name, default=None):
        return next((m[1] for m in st.mon if isinstance(m, tuple) and m[0] == name), default)

    def set(self, st, name, v):
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == name)) | {(name, v)}

    def on_call(self, st, c, path, vals):
        if islook(path):
            self.set(st, 'looked', 1)
            self.set(st, 'ever', 1)
            self.set(st, 'stale', 0)
        elif path.startswith('tokio::sync::broadcast::') and path.endswith('::subscribe'):
            self.set(st, 'sub', 1)
            # What happened before is not heard of.
            if self.tag(st, 'asleep') and not self.tag(st, 'looked'):
                self.set(st, 'stale', 1)
        elif isrecv(path):
            self.irrelevant(st)
            self.set(st, 'last', None)
        return None

    def on_ready(self, st, v, x):
        if v.k in ('op', 'res') and isrecv(str(v.a[0])):
            self.set(st, 'last', x)
            self.n['messages'] = self.n.get('messages', 0) + 1

    def irrelevant(self, st):
        """Waiting on after a message, without having looked."""
        x = self.tag(st, 'last')
        if x is None or self.tag(st, 'looked'):
            return
        eng = self.eng
        bad = None
        if eng.variant(st, x) != 0:
            bad = 'a lag in notifications'
        else:
            n = mk('fld', x, 0, 0)
            for i in variants(eng, st, n, len(self.names)):
                if self.names[i] in self.ends and not self.other(st, mk('fld', n, i, 0)):
                    bad = self.names[i]
        self.need(bad is None, 'not rechecked: %s' % (bad or '').split(' ')[-1], 'after %s the wait goes on without the table being looked at again' % bad, st)

    def other(self, st, i):
        """A process ID was found to differ from that of a process in the table."""
        for t, f in st.facts.items():
            if t.k == 'op' and t.a[0] in ('Eq', 'eq', 'streq', 'Ne', 'ne') and any(strip(y) is strip(i) for y in t.a[1]):
                eq = t.a[0] in ('Eq', 'eq', 'streq')
                if self.eng.truth(st, t) is (not eq) and any(
                        any_node(y, lambda z: z is sym('W:id') or z is sym('table')) is not None for y in t.a[1] if strip(y) is not strip(i)):
                    return True
        return False

    def on_suspend(self, st):
        self.need(self.tag(st, 'sub'), 'not subscribed', 'the wait sleeps without having subscribed to notifications', st)
        self.need(self.tag(st, 'ever'), 'never looked', 'the wait sleeps without having looked at the table', st)
        self.need(not self.tag(st, 'stale'), 'subscribed late', 'the table is not looked at after subscribing', st)
        self.set(st, 'asleep', 1)
        self.set(st, 'looked', 0)

    def on_poll(self, st, v):
        self.need(self.tag(st, 'sub'), 'not subscribed', 'the wait sleeps without having subscribed to notifications', st)


class Still(Heard):
    """Nothing to wait for: it ends at once."""

    def __init__(self, rep, prog, key, kind, h):
        Heard.__init__(self, rep, prog, key, kind)
        self.h = h
        self.rets = 0

    def on_call(self, st, c, path, vals):
        return None

    def on_ready(self, st, v, x):
        pass

    def on_poll(self, st, v):
        done = self.kind == 'idle' or settled(self.eng, st, self.h, self.prog.P)
        self.need(not done, 'waits needlessly', 'the wait does not end although %s' % (
            'the table is empty' if self.kind == 'idle' else 'no process is running'), st)
        return None

    def on_suspend(self, st):
        pass

    def on_end(self, st, kind, *a):
        self.rets += kind == 'return'


def only(prog, cells, keep):
    """The table, with only the witness, or with nothing, in it."""
    A = 'procstar::procs::Procs'
    i = field_index(prog.P, A, 'procs', 'BTreeMap<')
    v = cells[TABLE]
    s = v.a[2][i].a[0]
    s = tuple(x for x in s if x[0] == 'one') if keep else ()
    return {TABLE: agg(v.a[0], 0, *[mk('seq', s) if j == i else x for j, x in enumerate(v.a[2])])}


def waits(rep, prog, h):
    kinds = kinds_of(prog, h)
    for k, kind in kinds.items():
        nm = prog.fns[k]['path'].rsplit('::', 1)[-1]
        if not rep.require(kind is not None, 'ends early: ' + nm, '%s may end although a process is running' % nm):
            continue
        m = run_wait(prog, k, rep, mon=Heard(rep, prog, k, kind))
        rep.require(m.n.get('messages') and m.n.get('obligations'), 'no messages: ' + nm, 'no notifications are awaited in %s' % nm)
        rep.note(**{'%s_%s' % (nm, x): y for x, y in m.n.items()})
        s = Still(rep, prog, k, kind, h)
        args, cells = with_witness(prog, k)
        e = absint.Eng(prog.P, [s], name=k)
        e.max_states = 300000
        start_async(e, k, args, only(prog, cells, kind == 'running'))
        e.run()
        rep.engine(e)
        rep.require(s.rets, 'never ends: ' + nm, '%s never ends' % nm)
    for x in ('idle', 'running'):
        rep.require(x in kinds.values(), 'no wait: ' + x, 'no function waits until %s' % ('the table is empty' if x == 'idle' else 'no process is running'))
    return kinds


SINKS = ('to_writer', 'to_writer_pretty', '_print', 'write_all', 'write', 'write_fmt', 'serialize')


class Mode:
    """One of the modes, from the options to the shutdown state at its end."""

    def __init__(self, rep, prog, h, kinds, args):
        self.rep, self.prog, self.h, self.kinds = rep, prog, h, kinds
        P = prog.P
        f = lambda n: mk('fld', args, 0, field_index(P, ARGS, n))
        self.args = args
        self.opt = {n: f(n) for n in ('exit', 'wait', 'print')}
        self.output = f('output')
        self.states = [v['name'] for v in P.tdef[STATE]['variants']]
        self.n = {}

    tag, set = Heard.tag, Heard.set

    def need(self, cond, key, msg, st):
        self.n['obligations'] = self.n.get('obligations', 0) + 1
        return self.rep.require(cond, key, msg, st.trace())

    def given(self, st, n):
        if n == 'output':
            v = self.eng.variant(st, self.output)
            return None if v is None else v == 1
        return self.eng.truth(st, self.opt[n])

    def waited(self, st, want):
        if want in self.tag(st, 'waited', frozenset()):
            return True
        # Shutdown.
        return self.tag(st, 'shut') or self.isdone(st)

    def on_assume(self, st, t, val):
        if iswatched(t) and val == self.states.index('Done'):
            self.set(st, 'shut', 1)

    def isdone(self, st):
        for t in st.facts:
            # It never moves back (C08).
            if (iswatched(t) or t.k == 'old' and iswatched(t.a[0])) and self.eng.variant(st, t) == self.states.index('Done'):
                return True
        return False

    def on_call(self, st, c, path, vals):
        eng = self.eng
        if not self.tag(st, 'shut') and self.isdone(st):
            self.set(st, 'shut', 1)
        k = c.get('key')
        last = path.rsplit('::', 1)[-1]
        if path == 'tokio::time::timeout::timeout' and any(self.kind(models.value(eng, st, x)) for x in vals):
            self.need(False, 'limited', 'the wait is given up after a time', st)
        if k in self.h.results:
            self.need(self.given(st, 'exit') is True, 'collected otherwise', 'results are collected although exit is not requested', st)
            self.need(self.waited(st, 'running'), 'collected early', 'results are collected before all processes have stopped running, or shutdown', st)
            self.n['results'] = self.n.get('results', 0) + 1
            return None
        if path.startswith('std::process::exit') or path.endswith('process::abort'):
            v = models.value(eng, st, vals[0]) if vals else I(1)
            lo, hi = eng.rng(st, v)[:2]
            self.need(lo > 0 or hi < 0, 'exits with success', 'the program ends with success instead of running on, or delivering results', st)
            if self.tag(st, 'failed'):
                self.n['fails'] = self.n.get('fails', 0) + 1
            return None
        if path.startswith('tokio::sync::watch::Sender') and ('::send' in path or last == 'replace'):
            v = models.value(eng, st, vals[1]) if len(vals) > 1 else None
            s = self.states[v.a[1] or 0] if v is not None and v.k == 'agg' and v.a[0] == STATE else None
            self.need(s == 'Done', 'other state', 'the shutdown state set is %s instead of Done' % s, st)
            ex, wa = self.given(st, 'exit'), self.given(st, 'wait')
            self.need(ex is True and self.waited(st, 'running') or wa is True and self.waited(st, 'idle'), 'shut down early',
                      'the service shuts down before all processes have ended, or although neither exit nor wait is requested', st)
            self.set(st, 'done', 1)
            return None
        if last in SINKS and not (k in self.prog.fns and self.prog.local(k)):
            vs = [models.freeze(eng, st, models.value(eng, st, v)) for v in vals]
            if any(self.results(v) for v in vs):
                return self.emit(st, path, vs)
        if last == 'create' and path.startswith('std::fs::') or last == 'open' and path.startswith('std::fs::'):
            if not self.tag(st, 'collected') and path.startswith('std::fs::File::create'):
                v = models.freeze(eng, st, models.value(eng, st, vals[0]))
                if any_node(v, lambda x: x is self.output) is not None:
                    r = eng.fresh(st, path, eng.site(st), v)
                    return self.alts(st, r)
        return None

    def alts(self, st, r):
        out = []
        for i in (0, 1):
            s = st.copy()
            s.facts[r] = ('v', i)
            if i:
                self.set(s, 'failed', 1)
                s.note('opening the output file fails')
            out.append((s, r))
        return out

    def results(self, v):
        return any_node(v, lambda x: x.k in ('op', 'res') and x.a[0] in [self.prog.fns[k]['path'] for k in self.h.results] or x.k in ('op', 'res') and x.a[0] in self.h.results) is not None

    def emit(self, st, path, vs):
        """The results are written somewhere."""
        eng = self.eng
        if path.endswith('::_print') or any(any_node(v, lambda x: x.k in ('op', 'res') and str(x.a[0]).endswith('stdout')) is not None for v in vs):
            to = 'print'
        elif any(any_node(v, lambda x: x is self.output) is not None for v in vs):
            to = 'output'
            self.need(any(any_node(v, lambda x: x.k in ('op', 'res') and str(x.a[0]) in ('std::fs::File::create', 'std::fs::File::create_new', 'std::fs::write')) is not None for v in vs)
                      or path.startswith('std::fs::write'), 'not created', 'results are written to a file that may have had other contents', st)
        else:
            # To a string, or a buffer.
            return None
        self.n[to] = self.n.get(to, 0) + 1
        self.need(self.given(st, to) is True, 'emitted unasked: ' + to, 'results are %s although that is not requested' % ('printed' if to == 'print' else 'written'), st)
        self.need(to not in self.tag(st, 'out', frozenset()), 'emitted twice: ' + to, 'results are %s twice' % ('printed' if to == 'print' else 'written'), st)
        self.need(any(any_node(v, lambda x: x is sym('W:rec')) is not None and self.results(v) for v in vs), 'incomplete: ' + to,
                  'the results %s lack those of some process' % ('printed' if to == 'print' else 'written'), st)
        if any(any_node(v, lambda x: x.k in ('op', 'res') and 'BufWriter' in str(x.a[0])) is not None for v in vs):
            self.set(st, 'unflushed', 1)
        self.set(st, 'out', self.tag(st, 'out', frozenset()) | {to})
        if path.endswith('::_print'):
            return None
        r = eng.fresh(st, path, eng.site(st), *vs)
        out = []
        for i in (0, 1):
            s = st.copy()
            s.facts[r] = ('v', i)
            if i:
                self.set(s, 'failed', 1)
                s.note('writing the results fails')
            out.append((s, r))
        return out

    def kind(self, v):
        p = str(v.a[0])[7:] if v.k == 'op' and str(v.a[0]).startswith('future ') else None
        return self.kinds.get(p)

    def on_ready(self, st, v, x):
        k = self.kind(v)
        if k:
            self.set(st, 'waited', self.tag(st, 'waited', frozenset()) | {k} | ({'running'} if k == 'idle' else set()))
            self.n['waits'] = self.n.get('waits', 0) + 1

    def ready(self, st):
        """What must be done before shutting down."""
        ex = self.given(st, 'exit')
        for o in ('print', 'output'):
            if ex is True:
                g = self.given(st, o)
                self.need(g is False or o in self.tag(st, 'out', frozenset()), 'not delivered: ' + o,
                          'the service shuts down without having %s the results although that is requested' % ('printed' if o == 'print' else 'written'), st)
        self.need(not self.tag(st, 'failed'), 'failure unnoticed', 'the service goes on to shut down although results could not be delivered', st)
        self.need(not self.tag(st, 'unflushed'), 'unflushed', 'the results are written through a buffer that is never flushed', st)

    def on_suspend(self, st):
        if self.tag(st, 'done'):
            self.ready(st)

    def on_end(self, st, kind, *a):
        self.n['ends'] = self.n.get('ends', 0) + 1
        if kind != 'return':
            return
        if self.tag(st, 'done'):
            self.ready(st)
        else:
            on = [n for n in self.modes if self.given(st, n) is not False]
            if on and (self.tag(st, 'shut') or self.isdone(st)):
                # Shut down already.
                self.ready(st)
            else:
                self.need(not on, 'not shut down: ' + ' '.join(on), 'the mode ends without shutting down', st)


def modes(rep, prog, h, kinds):
    """Functions that wait for processes to end, as the options say."""
    P, G = prog.P, prog.G
    sig = set()
    import c09
    sig = G.reach(c09.installer(prog))
    rel = lambda x: 'watch::' in x or x.endswith('process::exit') or 'serde_json' in x or 'File::create' in x
    opq = prog.opaque(rel, leaves=True)
    up = set()
    for k in kinds:
        for c in callers(prog, k):
            if c not in sig and c not in kinds:
                up.add(c)
    # Up to where the options are known.
    tops = set()
    seen = set()
    while up:
        k = up.pop()
        if k in seen:
            continue
        seen.add(k)
        if takes(prog, k, ARGS):
            tops.add(k)
            continue
        cs = {c for c in callers(prog, k) if c not in sig}
        if not cs:
            tops.add(k)
        up |= cs
    n = {}
    served = set()
    for k in sorted(tops):
        reach = G.reach(k)
        names = [o for o, kd in (('exit', 'running'), ('wait', 'idle')) if any(x in reach for x in kinds if kinds[x] == kd)]
        arg = h.argname(k, ARGS)
        if not rep.require(arg is not None, 'mode: ' + prog.fns[k]['path'].rsplit('::', 1)[-1], '%s waits for processes to end regardless of the options' % k):
            continue
        mon = Mode(rep, prog, h, kinds, arg)
        mon.modes = names
        args, cells = with_witness(prog, k)
        e = absint.Eng(P, [mon], opaque=lambda x: x in kinds or x in h.results or '::{closure' not in x and opq(x) and not (set(h.results) & G.reach(x)), name=k)
        e.max_states = 300000
        start_async(e, k, args, cells)
        e.run()
        rep.engine(e)
        served |= set(names)
        for x, y in mon.n.items():
            n[x] = n.get(x, 0) + y
    for x in ('exit', 'wait'):
        rep.require(x in served, 'no mode: ' + x, 'nothing is done for option %s' % x)
    for x in ('obligations', 'results', 'print', 'output', 'waits', 'ends'):
        rep.require(n.get(x), 'modes: no ' + x, 'the analysis of the exit modes found no %s' % x)
    rep.note(**{'modes_' + x: y for x, y in n.items()})
    return sorted(tops)


def field(v, i):
    if v.k == 'agg':
        return v.a[2][i]
    if v.k == 'upd':
        for (_, j), x in v.a[1]:
            if j == i:
                return x
        return field(v.a[0], i)
    return mk('fld', v, 0, i)


def options(rep, prog):
    """What options imply."""
    P = prog.P
    r = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and not f['argc'] and P.types[f['locals'][0]]['s'] == ARGS and '{closure' not in f['path'] and not k.startswith('<')]
    if not r:
        raise Missing('no function that parses the options')
    for key in r:
        m = paths(prog, key, lambda p, c: 'exit' if p.startswith('std::process::exit') else None, rep=rep,
                  opaque=lambda k: k.startswith('<') and k in prog.fns)
        i = {n: field_index(P, ARGS, n) for n in ('exit', 'wait', 'print', 'output', 'serve', 'agent')}
        n = {}
        for p in m.paths:
            eng = m.engine
            n[p.kind] = n.get(p.kind, 0) + 1
            if p.kind == 'return':
                f = lambda x: field(p.result, i[x])
                on = lambda x: eng.truth(p.st, f(x)) if x != 'output' else {0: False, 1: True}.get(eng.variant(p.st, f(x)))
                ex = on('exit')
                rep.require(ex is True or on('print') is False and on('output') is False, 'exit not implied', 'exit is not implied by print or output', p.trace)
                rep.require(any(on(x) is True for x in ('exit', 'wait', 'serve', 'agent')), 'no mode accepted', 'the service runs although no mode is requested', p.trace)
        rep.require(n.get('return'), 'options: none', 'parsing the options never succeeds')
        rep.note(option_paths=len(m.paths))


class Main:
    """What the program does around its modes."""

    def __init__(self, rep, prog, h, parts):
        self.rep, self.prog, self.h, self.parts = rep, prog, h, parts
        self.n = {}

    def part(self, v):
        p = str(v.a[0])[7:] if v.k == 'op' and str(v.a[0]).startswith('future ') else None
        return p if p in self.parts else None

    def on_call(self, st, c, path, vals):
        eng = self.eng
        if c.get('key') in self.h.starters:
            self.n['starts'] = self.n.get('starts', 0) + 1
            self.rep.require('polled' not in st.mon, 'services before start', 'services run before the processes given are started', st.trace())
            r = eng.fresh(st, path, eng.site(st), *[models.value(eng, st, v) for v in vals])
            out = []
            for i in (0, 1):
                s = st.copy()
                s.facts[r] = ('v', i)
                if i:
                    s.mon = s.mon | {'failed'}
                    s.note('starting processes fails')
                out.append((s, r))
            return out
        if path.startswith('std::process::exit'):
            lo, hi = eng.rng(st, models.value(eng, st, vals[0]))[:2]
            self.n['exits'] = self.n.get('exits', 0) + 1
            self.rep.require(lo > 0 or hi < 0, 'exits with success', 'the program ends with success instead of running', st.trace())
        return None

    def on_poll(self, st, v):
        if self.part(v):
            st.mon = st.mon | {'polled'}

    def on_ready(self, st, v, x):
        p = self.part(v)
        if p:
            st.mon = st.mon | {('ended', p)}

    def on_end(self, st, kind, *a):
        if kind != 'return':
            return
        self.n['returns'] = self.n.get('returns', 0) + 1
        self.rep.require('failed' not in st.mon, 'start failure unnoticed', 'the service runs on although the processes given could not be started', st.trace())
        for p in self.parts:
            self.rep.require(('ended', p) in st.mon, 'not awaited: ' + p.rsplit('::', 1)[-1], 'the program ends before %s has' % p.rsplit('::', 1)[-1], st.trace())


def main(rep, prog, h, tops):
    P, G = prog.P, prog.G
    key = prog.one('procstar::main')
    parts = [k for k in prog.fns if prog.local(k) and prog.fns[k]['kind'] == 'Item' and '{closure' not in k and P.types[prog.fns[k]['locals'][0]]['k'] == 'coroutine'
             and takes(prog, k, ARGS) and k in G.reach(key)]
    if key in tops:
        rep.assumptions.append('the modes are part of main, and analysed there only')
        return
    # Functions above them are followed.
    up = G.callers(lambda k: k in parts or k in h.starters)
    m = Main(rep, prog, h, sorted(parts))
    e = absint.Eng(P, [m], name='main', opaque=lambda k: k in parts or k in h.starters or k in prog.fns and prog.local(k) and '{closure' not in k and k not in up)
    e.max_states = 3000000
    e.start(key, [])
    e.run()
    rep.engine(e)
    for x in ('starts', 'exits', 'returns'):
        rep.require(m.n.get(x), 'main: no ' + x, 'the analysis of main found no %s' % x)
    rep.note(parts_of_main=sorted(parts), **{'main_' + x: y for x, y in m.n.items()})


def run(rep):
    prog = Prog.get()
    h = Handlers(prog)
    kinds = waits(rep, prog, h)
    t = modes(rep, prog, h, kinds)
    options(rep, prog)
    main(rep, prog, h, t)
    rep.note(waiters=kinds, modes=t)
    return __doc__ + """ The waiting functions, with an arbitrary process W among any others in the table and any notifications: each ends only when the table is
        empty, or W not running; it ends at once then; it has subscribed, before it last looked at the table, whenever it sleeps; and after a notification that may be
        of the end of a process found in the table, or a lag, it looks again before it sleeps.  Each function that waits as the options say: results are collected
        after the wait (or shutdown), with W's among them; on each path to shutdown they were printed and written, as requested, to standard output and a
        newly created file, without failure; a failure does not end in success.  What print and output imply, and that some mode is required.
        Main: the given processes are started before any service runs, a failure ends the program visibly, and it ends only after each of its parts has."""
