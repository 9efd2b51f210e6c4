"""The agent's connection loop: used by C16, C19 and C20."""
from handlers import *

MSG = 'tungstenite::protocol::message::Message'
NOTI = 'procstar::procs::Notification'
STATE = 'procstar::shutdown::State'


def isnext(path):
    return path.endswith('StreamExt::next')


def issend(path):
    return path.endswith(('SinkExt::send', 'SinkExt::feed', 'SinkExt::send_all'))


def strip_(n):
    while isinstance(n, N) and n.k == 'ref' and n.a[0][0] in 'VD' and not n.a[1]:
        n = n.a[0][1]
    return n


class Parts:
    """The functions of the connection loop, by what they do."""

    def __init__(self, prog):
        self.prog = prog
        P, G = prog.P, prog.G
        h = self.h = Handlers(prog)
        self.key = h.agent_fn()
        cors = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and P.types[f['locals'][0]]['k'] == 'coroutine' and '{closure' not in f['path']]
        rx = lambda k, p: any(p(x) for x in G.reach_ext(k))
        conn = [k for k in cors if rx(k, lambda x: 'connect_async' in x)]
        loops = [k for k in conn if self.key in G.reach(k)]
        if not loops:
            raise Missing('no agent loop that connects and handles messages')
        # Innermost that both connects and handles.
        self.run = sorted(k for k in loops if not any(j != k and j in G.reach(k) for j in loops))[0]
        conn = [k for k in conn if k not in loops]
        self.connect = sorted(k for k in conn if not any(j != k and k in G.reach(j) for j in conn))[0] if conn else None
        wr = [k for k in cors if self.key in G.reach(k) and not rx(k, issend) and k != self.key and not rx(k, isnext)]
        self.wrap = sorted(k for k in wr if not any(j != k and k in G.reach(j) for j in wr))[0] if wr else self.key
        n2m = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in f['path']
               and any(P.types[f['locals'][i]]['s'] == NOTI for i in range(1, f['argc'] + 1)) and 'OutgoingMessage' in P.types[f['locals'][0]]['s']]
        self.n2m = sorted(n2m)[0] if n2m else None
        if self.n2m is None:
            raise Missing('no function that turns notifications into messages')

    def fut(self, v):
        """The path of the function that made a future."""
        if v.k == 'op' and str(v.a[0]).startswith('future '):
            return str(v.a[0])[7:], v.a[1]
        if v.k == 'res':
            return str(v.a[0]), v.a[2]
        return None, ()


class Loop:
    """One pending obligation at a time, in the tags:
    msg: a received message that is to be handled; rsp: the answer that is to be sent;
    noti: a notification that is to be turned into a message; out: the message that is to be sent."""

    def __init__(self, parts, need):
        self.p = parts
        self.need = need
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def tags(self, st, *names):
        return [m for m in st.mon if isinstance(m, tuple) and m[0] in names]

    def clear(self, st, *names):
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] in names))

    def settle(self, st, where):
        """No obligation may be left when waiting for the next event."""
        eng = self.eng
        for m in self.tags(st, 'msg', 'rsp', 'noti', 'out'):
            k, t = m[0], m[1]
            if k == 'msg':
                v = eng.variant(st, t)
                if v is not None and self.p.prog.P.tdef[MSG]['variants'][v]['name'] == 'Close':
                    continue
                self.need('C16', False, 'message dropped', 'a message that was received is not handled before %s' % where, st)
            elif k == 'rsp':
                if eng.variant(st, t) == 0:
                    continue
                self.need('C16', False, 'answer dropped', 'the answer to a request is not sent before %s' % where, st)
            elif k == 'noti':
                v = eng.variant(st, t)
                if v is not None and self.p.prog.P.tdef[NOTI]['variants'][v]['name'] == 'Lagged':
                    continue
                self.need('C20', False, 'notification dropped', 'a notification is not turned into a message before %s' % where, st)
            elif k == 'out':
                if eng.variant(st, t) == 0:
                    continue
                self.need('C20', False, 'announcement dropped', 'the message about a change is not sent before %s' % where, st)
        self.clear(st, 'msg', 'rsp', 'noti', 'out')

    def on_assume(self, st, x, val):
        """A message that cannot be encoded need not be sent."""
        if val != 1 or x.k not in ('res', 'op') or not ('rmp_serde' in str(x.a[0]) or str(x.a[0]) in self.p.prog.fns):
            return None
        for m in self.tags(st, 'out'):
            pay = mk('fld', m[1], 1, 0)
            if any(strip_(a) is pay for a in (x.a[2] if x.k == 'res' else x.a[1])):
                st.mon = st.mon - {m}
        return None

    def on_call(self, st, c, path, vals):
        self.resolve(st)
        p = self.p
        k = c.get('key')
        eng = self.eng
        if k == p.connect or p.connect is None and 'connect_async' in path:
            self.settle(st, 'connecting')
            self.count('connects')
            self.need('C19', ('sub', 1) in st.mon, 'connect before subscribe', 'the state that is registered is taken before notifications are subscribed to', st)
            self.clear(st, 'lagged', 'connected', 'failed', 'got', 'recv', 'rsp?')
            return None
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::subscribe'):
            st.mon = st.mon | {('sub', 1)}
            return None
        if isnext(path):
            self.settle(st, 'the next message is awaited')
            self.need('C20', ('lagged', 1) not in st.mon, 'lag ignored', 'after notifications were missed the connection goes on without registering anew', st)
            return None
        if k == p.wrap:
            self.count('handled')
            m = self.tags(st, 'msg')
            a = [models.value(eng, st, v) for v in vals]
            self.need('C16', m and any(x is m[0][1] for x in a), 'other message handled', 'what is handled is not the message that was received: %s' % (
                ', '.join(show(x, 5) for x in a)), st)
            self.clear(st, 'msg')
            return None
        if k == p.n2m:
            self.count('notifications')
            m = self.tags(st, 'noti')
            a = [models.value(eng, st, v) for v in vals]
            self.need('C20', m and any(x is m[0][1] for x in a), 'other notification', 'what is turned into a message is not the notification that was received', st)
            if m:
                P = p.prog.P
                sd = variant_index(P, NOTI, 'ShutDown')
                if eng.variant(st, m[0][1]) == sd and eng.variant(st, mk('fld', m[0][1], sd, 0)) == variant_index(P, STATE, 'Done'):
                    st.mon = st.mon | {('done', 1)}
            self.clear(st, 'noti')
            r = eng.fresh(st, 'message of', eng.site(st))
            st.mon = st.mon | {('out', r)}
            return r
        if issend(path):
            self.count('sends')
            v = models.value(eng, st, vals[-1])
            for m in self.tags(st, 'rsp', 'out'):
                pay = mk('fld', m[1], 1, 0)
                if any_node(v, lambda n: n is pay) is not None:
                    st.mon = st.mon - {m}
                    break
            else:
                self.need('C20', False, 'other message sent', 'what is sent to the server is neither an answer nor an announcement, or is sent again: %s' % show(v, 6), st)
            return None
        if path.startswith('tokio::time::sleep::sleep'):
            self.settle(st, 'sleeping')
            self.count('sleeps')
            self.on_sleep(st, models.value(eng, st, vals[0]))
            self.clear(st, 'sub')
            return None
        return None

    # -- back-off
    def fails(self, st):
        """Consecutive failed attempts, up to 4."""
        return sum(m[1] for m in self.tags(st, 'fails'))

    def on_sleep(self, st, t):
        eng = self.eng
        n = self.fails(st)
        if n <= 3:
            lo, hi, ex = eng.rng(st, mk('fld', sym('cfg'), 0, self.cfgi['count_max']))
            self.need('C19', n and (lo > n or n in ex), 'goes on', 'after %s failed attempts in a row the agent goes on although the configured maximum was not found to be more' % n, st)
        cfg = lambda f: mk('fld', sym('cfg'), 0, self.cfgi[f])
        first = ('failing', 1) not in st.mon
        if first:
            self.need('C19', t is cfg('interval_start'), 'first interval',
                      'the first wait after a failed connection attempt is not the initial interval: %s' % show(t, 5), st)
        else:
            grown = t.k == 'res' and 'mul_f' in t.a[0] and any(a is cfg('interval_mult') for a in t.a[2])
            mx = cfg('interval_max')
            # The cap was consulted: the wait is the maximum, or was found not to exceed it.
            if t is mx:
                ok_ = True
            elif grown:
                ok_ = self.within(st, t, mx)
            else:
                ok_ = False
            self.need('C19', ok_, 'interval', 'the wait between connection attempts is not the previous one times the multiplier, within the maximum: %s' % show(t, 5), st)
        st.mon = st.mon | {('failing', 1)}

    def within(self, st, t, mx):
        """Whether a duration was compared with another, and not found to be longer."""
        N_ = {'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Eq': '=', 'Ne': '!'}
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '=', '!': '!'}
        neg = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '=': '!', '!': '='}
        rel = {}
        for x, f in st.facts.items():
            if x.k != 'op' or x.a[0] not in N_ or f[0] != 'r' or f[1] != f[2]:
                continue
            a, b = x.a[1]
            q = N_[x.a[0]]
            if self.mentions(a, mx) and self.mentions(b, t):
                a, b, q = b, a, flip[q]
            elif not (self.mentions(a, t) and self.mentions(b, mx)):
                continue
            rel.setdefault((a, b), set()).add(q if f[1] else neg[q])
        for r in rel.values():
            if '>' in r or '>=' in r and '!' in r:
                return False
        return bool(rel)

    def mentions(self, x, t):
        return any_node(x, lambda n: n is t) is not None

    def on_ready(self, st, v, x):
        self.resolve(st)
        p = self.p
        eng = self.eng
        path, args = p.fut(v)
        if path is None:
            return
        if path == p.connect or p.connect is None and 'connect_async' in path:
            # Split on the outcome when it is examined: tag the result.
            st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'conn')) | {('conn', x)}
            return
        if isnext(path):
            st.mon = st.mon | {('got', x)}
            return
        if path == p.wrap:
            # Result<Option<Message>>, or the answer itself.
            t = mk('fld', x, 0, 0) if p.wrap != p.key else x
            st.mon = st.mon | {('rsp?', x, t)} if p.wrap != p.key else st.mon | {('rsp', x)}
            return
        if 'broadcast::Receiver' in path and path.endswith('::recv'):
            self.clear(st, 'sub?')
            st.mon = st.mon | {('recv', x)}

    def resolve(self, st):
        """Turns received results into obligations, once their outcome is known."""
        eng = self.eng
        for m in self.tags(st, 'conn', 'got', 'rsp?', 'recv'):
            x = m[1]
            v = eng.variant(st, x)
            if m[0] == 'got':
                if v == 0:
                    st.mon = st.mon - {m}
                elif v == 1:
                    y = mk('fld', x, 1, 0)
                    w = eng.variant(st, y)
                    if w == 1:
                        st.mon = st.mon - {m}
                    elif w == 0:
                        st.mon = (st.mon - {m}) | {('msg', mk('fld', y, 0, 0))}
                        self.count('messages')
                continue
            if v is None:
                continue
            st.mon = st.mon - {m}
            if m[0] == 'conn':
                self.count('connected' if v == 0 else 'failures')
                n = self.fails(st)
                self.clear(st, 'fails')
                if v == 1:
                    st.mon = st.mon | {('fails', min(n + 1, 4))}
                if v == 0:
                    st.mon = st.mon - {('failing', 1)} | {('connected', 1)}
                else:
                    st.mon = st.mon | {('failed', mk('fld', x, 1, 0))}
            elif m[0] == 'rsp?':
                if v == 0:
                    st.mon = st.mon | {('rsp', m[2])}
            elif m[0] == 'recv':
                if v == 0:
                    st.mon = st.mon | {('noti', mk('fld', x, 0, 0))}
                else:
                    w = eng.variant(st, mk('fld', x, 1, 0))
                    if w is None:
                        st.mon = st.mon | {m}
                    elif self.p.prog.P.tdef['tokio::sync::broadcast::error::RecvError']['variants'][w]['name'] == 'Lagged':
                        st.mon = st.mon | {('lagged', 1)}
                        self.count('lags')

    def on_end(self, st, kind, *a):
        self.resolve(st)
        self.settle(st, 'the loop ends')
        eng = self.eng
        r = a[0] if a and isinstance(a[0], N) else None
        if kind in ('suspend',):
            return
        if kind != 'return' or r is None or r.k != 'agg':
            self.need('C19', False, 'loop end: ' + kind, 'the agent loop ends by %s' % kind, st)
            return
        self.count('ends')
        if r.a[1] == 1:
            m = self.tags(st, 'failed')
            e = any_node(r, lambda n: m and n is m[0][1])
            self.need('C19', m and e is not None, 'gives up: other reason', 'the agent gives up other than for a failed connection', st)
            cm = mk('fld', sym('cfg'), 0, self.cfgi['count_max'])
            n = self.fails(st)
            lim = eng.rng(st, cm)[1] <= n if n <= 3 else any(self.mentions(t, cm) and f[0] == 'r' for t, f in st.facts.items())
            self.need('C19', lim, 'gives up: early', 'the agent gives up after %s failed attempts in a row although the configured maximum was not found to be reached' % n, st)
        else:
            done = variant_index(self.p.prog.P, STATE, 'Done')
            okk = ('done', 1) in st.mon or any(iswatched(t) and f == ('v', done) for t, f in st.facts.items())
            self.need('C19', okk, 'ends unbidden', 'the agent loop ends although shutdown is not done', st)


def explore(rep, prog, prop):
    parts = Parts(prog)
    P = prog.P

    def need(p, cond, key, msg, st):
        if p == prop:
            rep.require(cond, key, msg, st.trace())
    m = Loop(parts, need)
    f = prog.fns[parts.run]
    m.cfgi = {}
    args = []
    for i, a in enumerate(default_args(prog, parts.run), 1):
        t = P.types[f['locals'][i]]['s']
        for nm, fs in P.tdef.items():
            if t.endswith(nm) and nm.startswith('procstar::') and nm.endswith('Config'):
                for n in ('interval_start', 'interval_mult', 'interval_max', 'count_max'):
                    m.cfgi[n] = field_index(P, nm, n)
                a = ref(('V', sym('cfg'))) if a.k == 'ref' else sym('cfg')
        args.append(a)
    if not m.cfgi:
        raise Missing('no connection configuration')
    rel = lambda x: any(y in x for y in ('SinkExt::', 'StreamExt::next', 'sleep::sleep', 'broadcast::Receiver', 'sync::watch', 'Duration')) or x.endswith('::subscribe')
    o = prog.opaque(rel)
    e = absint.Eng(P, [m], opaque=lambda k: o(k) or k in (parts.n2m, parts.connect, parts.wrap), name=parts.run)
    e.max_states = 1500000
    start_async(e, parts.run, args)
    e.run()
    rep.engine(e)
    rep.note(**{k.replace(' ', '_'): v for k, v in m.n.items()})
    for k in ('connects', 'connected', 'failures', 'messages', 'handled', 'notifications', 'sends', 'sleeps', 'ends', 'lags'):
        rep.require(m.n.get(k), 'loop: no ' + k, 'the analysis of the agent loop found no %s' % k)
    return parts, m
