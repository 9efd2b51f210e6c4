"""C09: termination signals run the documented shutdown sequence."""
from waits import *
from c16 import strip

STATE = 'procstar::shutdown::State'
SIGTERM, SIGKILL = 15, 9
# By signal: first signal sent, wait (seconds, for what), second signal sent if that times out, final wait, final state.
DOC = {15: (15, (60, 'running'), 9, (5, 'idle'), 'Done'), 2: (15, (60, 'running'), 9, (5, 'idle'), 'Done'),
       3: (9, None, None, (5, 'idle'), 'Done'), 10: (None, None, None, None, 'Idling')}
NAMES = {15: 'SIGTERM', 2: 'SIGINT', 3: 'SIGQUIT', 10: 'SIGUSR1'}


def installer(prog):
    """The function that makes the handler of a signal."""
    P, G = prog.P, prog.G
    r = []
    for k, f in prog.fns.items():
        if prog.local(k) and f['kind'] == 'Item' and '{closure' not in f['path'] and not f['cor'] and f['argc'] >= 2 and any(
                'SignalStyle' in P.types[f['locals'][i]]['s'] for i in range(1, f['argc'] + 1)) and any('signal::unix::signal' in x for x in G.reach_ext(k)):
            r.append(k)
    if not r:
        raise Missing('no function that installs signal handlers')
    return sorted(r)[0]


def seconds(n):
    """Seconds of a constant duration."""
    n = strip(n)
    if n.k in ('op', 'res') and str(n.a[0]).endswith('from_secs'):
        x = strip((n.a[1] if n.k == 'op' else n.a[2])[0])
        return x.a[0] if x.k == 'int' else None
    if n.k in ('op', 'res') and str(n.a[0]).endswith('from_millis'):
        x = strip((n.a[1] if n.k == 'op' else n.a[2])[0])
        return x.a[0] / 1000 if x.k == 'int' else None
    if n.k == 'agg':
        v = []

        def f(x):
            if x.k == 'int':
                v.append(x.a[0])
            return False
        for x in n.a[2]:
            any_node(x, f)
        if len(v) == 2:
            return v[0] + v[1] / 1e9
    return None


class Mon:
    """Tags: got (the signal arrived), sent (signals sent to W), waits (the waits so far, with outcome), state (sent)."""

    def __init__(self, rep, prog, h, kinds, sig):
        self.rep, self.prog, self.h, self.kinds, self.sig = rep, prog, h, kinds, sig
        self.doc = DOC[sig]
        self.n = {}

    def need(self, cond, key, msg, st):
        return self.rep.require(cond, '%s: %s' % (NAMES[self.sig], key), msg, st.trace())

    def tag(self, st, name, default=None):
        return next((m[1] for m in st.mon if isinstance(m, tuple) and m[0] == name), default)

    def set(self, st, name, v):
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == name)) | {(name, v)}

    def signalled(self, st, sig, when):
        """W was sent a signal, unless it is not running."""
        if sig is None:
            return
        self.n['obligations'] = self.n.get('obligations', 0) + 1
        self.need(sig in self.tag(st, 'sent', frozenset()) or settled(self.eng, st, self.h, self.prog.P), 'not signalled: %d %s' % (sig, when),
                  'a running process is not sent signal %d before %s' % (sig, when), st)

    def on_call(self, st, c, path, vals):
        eng = self.eng
        if path == 'tokio::time::timeout::timeout':
            d, v = [models.value(eng, st, x) for x in vals]
            if self.kind(v) is not None:
                self.set(st, 'limit', seconds(d))
            return None
        n = sysname(path)
        if n in KILLS and n != 'raise':
            v = [models.value(eng, st, x) for x in vals]
            self.n['kills'] = self.n.get('kills', 0) + 1
            if not self.need('got' in st.mon, 'kill before signal', 'processes are signalled although the signal was not received', st):
                return False
            out = []
            for what, r in (('ok', I(0)), ('err', I(-1))):
                s = st.copy()
                if any_node(v[0], lambda x: x is sym('W:rec')) is not None and v[0].k == 'fld' and v[0].a[2] == self.h.PID and v[1].k == 'int':
                    self.set(s, 'sent', self.tag(s, 'sent', frozenset()) | {v[1].a[0]})
                    self.n['W'] = self.n.get('W', 0) + 1
                w = self.tag(s, 'waits', ())
                allowed = {self.doc[0]} if not w else {self.doc[2]} if len(w) == 1 and w[0][2] == 'timeout' else set()
                self.need(v[1].k == 'int' and v[1].a[0] in allowed, 'other signal', 'processes are sent signal %s %s' % (
                    show(v[1]), 'at once' if not w else 'after a wait'), s)
                s.note('%s %s: %s' % (n, show(v[1]), what))
                out.append((s, r))
            return out
        if path.startswith('tokio::sync::watch::Sender') and '::send' in path or path.startswith('tokio::sync::watch::Sender') and path.endswith('::replace'):
            v = models.value(eng, st, vals[1]) if len(vals) > 1 else None
            s = self.prog.P.tdef[STATE]['variants'][v.a[1] or 0]['name'] if v is not None and v.k == 'agg' and v.a[0] == STATE else None
            self.need('got' in st.mon, 'shutdown before signal', 'shutdown is requested although the signal was not received', st)
            self.done(st, s)
            return None
        return None

    def done(self, st, s):
        """A shutdown state is set."""
        d = self.doc
        self.n['states'] = self.n.get('states', 0) + 1
        w = self.tag(st, 'waits', ())
        if s == 'Done' and d[4] == 'Idling':
            # Idle already.
            self.need(self.tag(st, 'state') == 'Idling', 'shut down at once', 'shutdown is done at once', st)
        else:
            self.need(s == d[4], 'other state', 'the shutdown state requested is %s' % s, st)
        want = [x for x in (d[1], d[3]) if x]
        self.need([x[:2] for x in w] == want, 'waits', 'before shutting down the waits are %s instead of %s' % ([x[:2] for x in w], want), st)
        if not want:
            self.signalled(st, d[0], 'shutting down')
        self.set(st, 'state', s)

    def already(self, st):
        """The shutdown state was found to be what is to be requested, or later."""
        vs = [v['name'] for v in self.prog.P.tdef[STATE]['variants']]
        late = {vs.index(n) for n in (('Idling', 'Done') if self.doc[4] == 'Idling' else ('Done',))}
        d = self.doc
        if [x[:2] for x in self.tag(st, 'waits', ())] != [x for x in (d[1], d[3]) if x]:
            return False
        for t in st.facts:
            if iswatched(t) and variants(self.eng, st, t, len(vs)) <= late:
                return True
        return False

    def on_ready(self, st, v, x):
        if v.k in ('op', 'res') and str(v.a[0]).endswith('recv') and any_node(v, lambda y: y.k in ('op', 'res') and str(y.a[0]).endswith('signal::unix::signal')) is not None:
            k = any_node(v, lambda y: y.k == 'int')
            self.need(k is not None and k.a[0] == self.sig, 'other signal awaited', 'the signal awaited is not the one to be handled', st)
            st.mon = st.mon | {'got'}
        self.wait(st, v, 'ends')

    def kind(self, v):
        p = str(v.a[0])[7:] if v.k == 'op' and str(v.a[0]).startswith('future ') else None
        return self.kinds.get(p)

    def wait(self, st, v, how):
        k = self.kind(v)
        if k is None:
            return
        w = self.tag(st, 'waits', ())
        self.set(st, 'waits', w + ((self.tag(st, 'limit'), k, how),))
        self.set(st, 'limit', None)
        self.set(st, 'sent', frozenset())

    def on_timeout(self, st, dur):
        v = self.tag(st, 'waiting')
        k = self.kind(v) if v is not None else None
        if k is not None:
            w = self.tag(st, 'waits', ())
            self.set(st, 'waits', w + ((seconds(dur), k, 'timeout'),))
            self.set(st, 'sent', frozenset())

    def on_poll(self, st, v):
        k = self.kind(v)
        if k is None or self.tag(st, 'waiting') == v:
            return
        # A wait begins.
        w = self.tag(st, 'waits', ())
        self.set(st, 'waiting', v)
        if not w:
            self.signalled(st, self.doc[0], 'waiting')
        elif len(w) == 1 and w[0][2] == 'timeout' and self.doc[2]:
            self.signalled(st, self.doc[2], 'the final wait')

    def on_end(self, st, kind, *a):
        if 'got' in st.mon:
            self.n['ends'] = self.n.get('ends', 0) + 1
            self.need(kind == 'return' and (self.tag(st, 'state') is not None or self.already(st)), 'no shutdown: ' + kind,
                      'the handler ends, by %s, without shutdown having been requested' % kind, st)


def run(rep):
    prog = Prog.get()
    P, G = prog.P, prog.G
    h = Handlers(prog)
    key = installer(prog)
    kinds = kinds_of(prog, h)
    # What main installs.
    main = prog.one('procstar::main')
    reach = {k for k in prog.fns if key in G.reach(k)}
    m = paths(prog, main, lambda path, c: 'install' if c.get('key') == key else None, act=lambda eng, st, label, c, path, vals: sym('handler'),
              opaque=lambda k: k in prog.fns and prog.local(k) and prog.fns[k]['kind'] == 'Item' and k not in reach, rep=rep, max_states=300000)
    f = prog.fns[key]
    ty = [P.types[f['locals'][i]]['s'] for i in range(1, f['argc'] + 1)]
    si = next(i for i, t in enumerate(ty) if 'SignalStyle' in t)
    gi = next(i for i, t in enumerate(ty) if t == 'i32')
    inst = {}
    for p in m.paths:
        for e in p.evs:
            s, g = strip(e[1][si]), strip(e[1][gi])
            if rep.require(s.k == 'agg' and g.k == 'int', 'install unknown', 'a signal handler is installed for %s' % show(g, 4), p.trace):
                inst.setdefault(g.a[0], set()).add(s)
    # Paths of main on which services run.
    for g in DOC:
        if not rep.require(g in inst, 'not installed: ' + NAMES[g], 'no handler is installed for %s' % NAMES[g]):
            continue
        for s in inst[g]:
            args, cells = with_witness(prog, key)
            args[gi], args[si] = I(g), s
            mon = Mon(rep, prog, h, kinds, g)
            e = absint.Eng(P, [mon], opaque=lambda k: k in kinds, name='%s handler' % NAMES[g])
            e.max_states = 400000
            e.start('$root', [sym('none')]) if False else None
            start_async(e, key, args, cells)
            e.run()
            rep.engine(e)
            rep.note(**{'%s_%s' % (NAMES[g], k): v for k, v in mon.n.items()})
            for k in ('ends', 'states') + (('W', 'obligations') if DOC[g][0] else ()):
                rep.require(mon.n.get(k), '%s: no %s' % (NAMES[g], k), 'the analysis of the handler of %s found no %s' % (NAMES[g], k))
    for g in inst:
        rep.require(g in DOC, 'other signal handled: %d' % g, 'a handler is installed for signal %d' % g)
    rep.note(waiters=kinds, installed={g: [show(x) for x in s] for g, s in inst.items()})
    return __doc__ + """ The handler of each signal that main installs is analysed with an arbitrary process W among any others in the table: W is sent
        the documented signal, unless found not to be running, before each wait, whatever the outcome of signalling it and the others; the waits, by what is
        true when they end (decided by analysis of the waiting functions) and their limits; the state requested at the end on every path."""
