"""Histories of the server's connection handler: registration, messages, closing, a second activation for the same agent
at any suspension, and time-outs, interpreted over the sources."""
from pyserve import *
from common import Missing

CID, GROUP, OTHERG, THIRD = 'the-conn', 'the-group', 'default', 'third-group'
P1, P2 = 'the-proc', 'other-proc'
TOK = Sym('configured token', ty='str')
RT = Sym('reconnect timeout', ty='float', nn=True)


class Parked(BaseException):
    """A handler that is suspended for the rest of the history."""


class Aw:
    """Something to be awaited."""

    def __init__(self, kind, ws, args=()):
        self.kind, self.ws, self.args = kind, ws, args

    def __repr__(self):
        return '%s of %r' % (self.kind, self.ws)


class Serve(Py):
    max_msgs = 2
    nest = None             # an activation to run at a suspension
    fires = False           # timers may fire at a suspension
    frags = ()

    def begin(self):
        self.gone = set()
        self.tasks = []     # [task, what it runs, delay]
        self.cancelled = []
        self.fired = []
        self.cur = None
        self.nmsg = {}
        self.got = []
        self.pending = {}
        self.nested = False
        self.firing = None
        self.problems = []
        self.ended = {}
        self.delayed = {}
        self.registered = []
        self.reg = {}

    # The environment.

    def isws(self, v):
        return isinstance(v, Sym) and v.op == 'ws'

    def attr(self, v, n):
        if self.isws(v):
            if n in ('open', 'closed'):
                if v in self.gone:
                    return n == 'closed'
                if v is self.cur or v == self.cur:
                    return n == 'open'
                o = self.decide(('silently closed', v, self.epoch), 'the peer of %s has gone' % short(v))
                return (not o) if n == 'open' else o
            if n == 'remote_address':
                return Seq('tuple', [Sym('address', (v,), ty='str'), Sym('port', (v,), ty='int')])
        return NotImplemented

    def lib(self, name, recv, args, kw):
        if self.isws(recv) and name in ('.recv', '.send', '.close', '.wait_closed', '.ping'):
            return Aw(name[1:], recv, tuple(args))
        if name.rsplit('.', 1)[-1] == 'serve' and name != '.serve':
            self.event('serve', tuple(args), dict(kw))
            return Sym('server', nn=True)
        if name in ('msgpack.dumps', 'msgpack.packb'):
            return Sym('packed', (Held(args[0]),), ty='bytes', nn=True)
        if name == '.call_later':
            self.n += 1
            t = Obj(TASK, {}, tag=self.n)
            self.tasks.append([t, Partial(args[1], list(args[2:]), {}), args[0]])
            return t
        r = Py.lib(self, name, recv, args, kw)
        return r

    def event(self, kind, *args):
        Py.event(self, kind, *args)
        if kind == 'spawn':
            if isinstance(args[0], Aw):
                if args[0].kind == 'close':
                    self.gone.add(args[0].ws)
            else:
                self.tasks.append([args[1], args[0], None])
        elif kind == 'cancel':
            self.cancelled.append(args[0])

    def await_(self, v):
        if isinstance(v, Aw):
            return self.io(v)
        if isinstance(v, Sym) and v.op == 'sleep':
            if self.firing is not None:
                if self.delayed.get(id(self.firing[0])) is None:
                    self.delayed[id(self.firing[0])] = v.args[0]
                return None
        return Py.await_(self, v)

    def io(self, a):
        ws = a.ws
        cur = self.cur
        if a.kind == 'recv':
            self.event('recv', ws)
            self.receiving(ws)
            self.suspend()
            self.cur = cur
            if ws in self.gone:
                self.throw('ConnectionClosedOK')
            n = self.nmsg.get(ws, 0)
            m = self.receive(ws, n)
            if isinstance(m, str) and m != 'garbage':
                if m == 'park':
                    raise Parked
                self.gone.add(ws)
                self.throw(m)
            self.nmsg[ws] = n + 1
            self.got.append((ws, m))
            return Sym('data', (ws, n), ty='bytes', nn=True)
        if a.kind == 'send':
            self.event('send', ws, *a.args)
            self.suspend()
            self.cur = cur
            if self.sendfails(ws):
                self.gone.add(ws)
                self.throw('ConnectionClosedError')
            return None
        if a.kind in ('close', 'wait_closed'):
            self.event('close', ws)
            self.gone.add(ws)
            self.suspend()
            self.cur = cur
            return None
        self.suspend()
        return None

    def sendfails(self, ws):
        return False

    def distinct(self, a, b):
        return self.isws(a) and self.isws(b) and a != b

    def receive(self, ws, n):
        raise NotImplementedError

    def receiving(self, ws):
        pass

    def enter(self, f, args, kw):
        if f.name == 'deserialize_message' and f.mod == PROTO:
            d = args[0]
            if isinstance(d, Sym) and d.op == 'data':
                m = [m for w, m in self.got if w == d.args[0]][d.args[1]]
                if m == 'garbage':
                    raise Raise(self.construct(self.module(PROTO).ns['ProtocolError'], ['bad message'], {}))
                return Seq('tuple', [m.cls.name, m])
        return NotImplemented

    # Histories.

    def suspend(self):
        Py.suspend(self)
        if self.firing is not None or self.nested:
            if self.firing is not None and any(c is self.firing[0] for c in self.cancelled):
                self.throw('CancelledError')
            return
        if self.fires:
            self.timers('now')
        if self.nest is not None and self.choose(2, 'another connection at this point') == 1:
            f, self.nest = self.nest, None
            cur = self.cur
            self.nested = True
            try:
                f(self)
            finally:
                self.nested = False
                self.cur = cur

    def live(self):
        return [t for t in self.tasks if not any(c is t[0] for c in self.cancelled) and not any(x is t for x in self.fired)]

    def timers(self, when):
        for t in self.live():
            if when != 'end' and self.choose(2, 'the time-out elapses') == 0:
                continue
            self.fired.append(t)
            cur, self.cur = self.cur, None
            self.firing = t
            try:
                self.onfire(t)
            finally:
                self.firing = None
                self.cur = cur

    def onfire(self, t):
        self.runtimer(t)

    def runtimer(self, t):
        if isinstance(t[1], Gen):
            self.await_(t[1])
        else:
            self.delayed[id(t[0])] = t[2]
            r = self.call(t[1], [], {})
            if isinstance(r, Gen):
                self.await_(r)

    def serve(self, ws):
        """Runs the handler; how it ended."""
        self.cur = ws
        n = len(self.stack)
        try:
            r = self.call(self.handler, [ws], {})
            if isinstance(r, Gen):
                r = self.await_(r)
            self.ended[ws] = 'return'
        except Parked:
            self.ended[ws] = 'parked'
            del self.stack[n:]
        except Raise as x:
            self.ended[ws] = 'raise'
            del self.stack[n:]
            self.problems.append(('handler raises', 'the connection handler ends with %s' % x.v.cls.name))
        return self.ended[ws]

    def message(self, name, **kw):
        return instance(self, self.module(PROTO).ns[name], **kw)

    def state(self, name):
        return self.module(PROTO).ns['ShutdownState'].members[name]

    def register(self, group=GROUP, procs=(), state='active', token=TOK):
        m = self.module(PROTO)
        info = instance(self, m.ns['ConnectionInfo'], conn_id=CID, group_id=group)
        return self.message('Register', conn=info, proc_ids=Seq('list', list(procs)), access_token=token, shutdown_state=self.state(state))

    def record(self):
        try:
            return self.call(self.getattr(self.conns, '__getitem__'), [CID], {})
        except Raise:
            return None

    def process(self, p):
        try:
            return self.call(self.getattr(self.procs, '__getitem__'), [p], {})
        except Raise:
            return None


class Held:
    """A value inside a term."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return short(self.v)


def setup(I, rt, token=TOK):
    """A server, and the handler that it gives to the websocket library."""
    m = I.module(SERVER)
    I.module(PROC)
    I.module(CONN)
    I.loading = False
    I.begin()
    cls = m.ns.get('Server')
    if not isinstance(cls, Cls):
        raise Missing('class Server')
    s = I.server = I.construct(cls, [], {})
    I.conns, I.procs = I.getattr(s, 'connections'), I.getattr(s, 'processes')
    n = len(I.events)
    I.await_run(I.call(I.getattr(s, 'run'), [], dict(host='h', port=1, tls_cert=None, access_token=token, reconnect_timeout=rt)))
    sv = [e for e in I.events[n:] if e[0] == 'serve']
    if len(sv) != 1:
        raise Missing('the call that starts the websocket server')
    a, k = sv[0][1]
    I.handler = a[0] if a else k.get('ws_handler') or k.get('handler')
    del I.events[:]
    return s


def await_run(self, r):
    if isinstance(r, Gen):
        return self.await_(r)
    return r


Serve.await_run = await_run


def groups(I):
    g = I.getattr(I.conns, 'groups')
    if isinstance(g, Obj) or not isinstance(g, Map):
        raise Unsupported('groups of the connections')
    return {k: [x for x in (v.items if isinstance(v, Seq) else I.iterate(v))] for k, v, _ in g.items if v is not MISSING}


def delivered(I, q):
    return [e[1][1] for e in I.events if e[0] == 'deliver' and e[1][0] is q]


WSA, WSB, WSO = Sym('ws', ('first',), nn=True), Sym('ws', ('second',), nn=True), Sym('ws', ('of another agent',), nn=True)


class History(Serve):
    """One or two activations for the same agent."""
    kind = 'single'

    def begin(self):
        Serve.begin(self)
        self.rec = {}
        self.queue = None
        self.shut = None
        self.order = []

    bygroup = THIRD

    def bystander(self):
        """Another connection, with a process."""
        nest, self.nest, self.prompt = self.nest, None, True
        self.serve(WSO)
        self.nest, self.prompt = nest, False
        p = self.process(P2)
        self.queue2 = queue_of(p) if p is not None else None

    def untouched(self):
        p = self.process(P2)
        if p is None or queue_of(p) is not self.queue2:
            self.problems.append(('bystander', "a process of another agent loses its record"))
        elif delivered(self, self.queue2):
            self.problems.append(('bystander', 'a process of another agent is sent a %s message' % delivered(self, self.queue2)[0].cls.name))
        try:
            c = self.call(self.getattr(self.conns, '__getitem__'), ['other-conn'], {})
        except Raise:
            c = None
        if c is None or self.getattr(c, 'ws') != WSO:
            self.problems.append(('bystander', "another agent's connection is lost"))
        elif [k for k, v in groups(self).items() for x in v if x == 'other-conn'] != [self.bygroup]:
            self.problems.append(('bystander listing', "the listing of groups does not show another agent's connection once, in its group"))

    def receive(self, ws, n):
        if ws == WSO:
            if n:
                return 'park'
            m = self.module(PROTO)
            return self.message('Register', conn=instance(self, m.ns['ConnectionInfo'], conn_id='other-conn', group_id=self.bygroup), proc_ids=Seq('list', [P2]), access_token=TOK,
                                shutdown_state=self.state('active'))
        if n == 0:
            if ws == WSA:
                return self.register(procs=[P1])
            return self.register(group=self.bgroup, procs=self.bprocs, state='active' if self.bprocs else 'idling')
        opts = ['ConnectionClosedOK', 'ConnectionClosedError']
        if ws == WSB:
            opts.append('park')
        names = ['data', 'idling', 'done']
        if self.shut and self.shut[0] == 'done':
            names = []
        lim = self.max_msgs if ws == WSA else self.b_msgs
        if n <= lim:
            opts += names
        o = opts[self.choose(len(opts), 'what %s receives: %s' % (short(ws), ', '.join(opts)))]
        if o == 'data':
            return self.message('ProcFdData', proc_id=P1)
        if o in ('idling', 'done'):
            self.shut = (o, ws)
            return self.message('ShutDown', shutdown_state=self.state(o))
        return o

    b_msgs = 0

    def receiving(self, ws):
        if self.nmsg.get(ws) == 1 and ws not in self.rec and ws != WSO:
            self.rec[ws] = self.record()
            self.order.append(ws)
            p = self.process(P1)
            if ws == WSA:
                self.queue = queue_of(p) if p is not None else None

    def onfire(self, t):
        r = self.record()
        w = self.getattr(r, 'ws') if r is not None else None
        if r is not None and w not in self.gone:
            self.problems.append(('time-out on open socket', 'a reconnect time-out that was not cancelled fires while the connection is open, and would drop it'))
        n = len(self.events)
        p = self.process(P1)
        self.runtimer(t)
        d = self.delayed.get(id(t[0]))
        if not (isinstance(d, Sym) and d == RT):
            self.problems.append(('time-out duration', 'the reconnect time-out does not last as long as configured'))
        if r is not None:
            if self.record() is not None:
                self.problems.append(('time-out keeps record', 'the reconnect time-out does not remove the connection'))
            msgs = [e for e in self.events[n:] if e[0] == 'deliver']
            mine = [e for e in msgs if p is not None and e[1][0] is queue_of(p) and isinstance(e[1][1], Obj) and e[1][1].cls.name == 'ConnectionTimeout']
            if p is not None and len(mine) != 1:
                self.problems.append(('processes not told', 'when the reconnect time-out fires, a process on the connection is told %d times' % len(mine)))


def histories(rep, pkg, kind, visit, limit=60000, **kw):
    n = 0

    def start(I):
        rt = RT if I.choose(2, 'a reconnect time-out is configured') == 1 else None
        setup(I, rt)
        I.rt = rt
        I.bystander()
        if kind != 'single':
            I.bgroup, I.bprocs = [(GROUP, [P1]), (GROUP, []), (OTHERG, [P1])][I.choose(3, 'second registration: same, without process, other group')]
        if kind == 'overlap':
            I.nest = lambda I: I.serve(WSB)
        I.serve(WSA)
        if kind == 'reconnect':
            I.mid = I.record()
            I.fires = True
            I.serve(WSB)
            I.fires = False
        I.untouched()
        visit(I)
        return I
    for r in explore(type('H', (History,), dict(kw, kind=kind)), pkg, start, limit=limit):
        n += 1
        rep.obligation('histories')
        if r.kind == 'raise':
            rep.violation('history: raises', 'the server raises %s' % r.value.cls.name, r.trace())
            continue
        seen = set()
        for k, what in r.I.problems:
            if k not in seen:
                seen.add(k)
                rep.violation(k, what, r.trace())
    rep.note(**{'histories_' + kind: n})
    return n


def delivery(rep, pkg):
    """Each message that a connection receives is handled once, in order."""
    count = [0]

    def visit(I):
        if WSA not in I.rec:
            return
        count[0] += 1
        if I.queue is None:
            I.problems.append(('no process', 'a process that an agent registers gets no record'))
            return
        d = delivered(I, I.queue)
        sent = [m for w, m in I.got if m.cls.name == 'ProcFdData']
        d = [m for m in d if m.cls.name == 'ProcFdData']
        if len(d) != len(sent) or any(a is not b for a, b in zip(d, sent)):
            I.problems.append(('messages lost', 'a connection received %d messages for a process and delivered %d of them in order' % (len(sent), len(d))))
        reg = [e for e in I.events if e[0] == 'deliver' and e[1][1].cls.name not in ('ProcFdData', 'ProcUnknown', 'ConnectionTimeout')]
        if reg:
            I.problems.append(('message from nowhere', 'a process is sent a %s message that no agent sent' % reg[0][1][1].cls.name))
    histories(rep, pkg, 'single', visit)
    rep.require(count[0], 'no registration', 'the analysis found no way to register a connection')

    def reconcile(I):
        # What the agent no longer knows is unknown; what both know is asked for again.
        if I.bgroup != GROUP or WSB not in I.rec or I.queue is None:
            return
        unknown = [m for m in delivered(I, I.queue) if m.cls.name == 'ProcUnknown']
        if I.live() or I.fired:
            return
        if I.shut and I.shut[1] == WSA and I.shut[0] == 'done':
            return
        p = I.process(P1)
        if not I.bprocs and (len(unknown) != 1 or p is not None):
            I.problems.append(('lost process', 'a process that a reconnecting agent does not know is told so %d times%s' % (len(unknown), '' if p is None else ', and keeps its record')))
        if I.bprocs and (unknown or p is None or queue_of(p) is not I.queue):
            I.problems.append(('process replaced', 'the record of a process does not survive a reconnect'))
        asked = [e for e in I.events if e[0] == 'send' and e[1][0] == WSB and requested(I, e[1][1], P1)]
        if I.bprocs and len(asked) != 1:
            I.problems.append(('no result requested', 'a reconnecting agent is asked %d times for the result of a process' % len(asked)))
    histories(rep, pkg, 'reconnect', reconcile)


def requested(I, data, p):
    if isinstance(data, Sym) and data.op == 'packed':
        m = data.args[0].v
        if isinstance(m, Map):
            d = {k: v for k, v, _ in m.items if I.const(k)}
            return d.get('type') == 'ProcResultRequest' and d.get('proc_id') == p
    return False


def packed_type(data):
    if isinstance(data, Sym) and data.op == 'packed':
        m = data.args[0].v
        if isinstance(m, Map):
            for k, v, _ in m.items:
                if k == 'type':
                    return v
    return None
