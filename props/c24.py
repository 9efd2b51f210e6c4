"""C24: the server's registry of connections."""
from serveloop import *


def problem(I, k, what):
    I.problems.append((k, what))


def visit(I):
    A, B = I.rec.get(WSA), I.rec.get(WSB)
    if WSA not in I.rec:
        return
    accepted = [w for w in (WSA, WSB) if I.rec.get(w) is not None]
    r = I.record()
    done = I.shut is not None and I.shut[0] == 'done'
    diff = I.kind != 'single' and I.bgroup != GROUP
    live = I.live()
    taken = WSB in I.rec
    if diff and taken and A is not None and B is A:
        problem(I, 'group changed', 'an agent that reconnects under another group takes over the connection')
    if diff and I.nmsg.get(WSB) and not taken and r is not None and I.getattr(r, 'ws') != WSA:
        problem(I, 'socket replaced', "a registration under another group replaces the connection's socket")
    if I.record is not None and not done and not diff and taken and A is not None and B is not None and B is not A and not I.fired:
        problem(I, 'record replaced', 'an agent that reconnects gets another connection record')
    if taken and B is None and not I.fired and not done:
        problem(I, 'no record', 'a registered connection has no record')
    if I.kind == 'single' or not taken:
        if A is None:
            problem(I, 'no record', 'a registered connection has no record')
            return
        if I.kind == 'single' or diff:
            if done:
                if r is not None:
                    problem(I, 'not dropped', 'the connection of an agent that has shut down remains')
                if live:
                    problem(I, 'time-out after shutdown', 'a reconnect time-out remains for an agent that has shut down')
            elif not I.fired:
                if r is not A:
                    problem(I, 'dropped', 'the connection of an agent that may reconnect is dropped')
                n = 0 if I.rt is None else 1
                if len(live) != n and WSA in I.gone:
                    problem(I, 'time-out armed' if n == 0 else 'time-out not armed', 'after the socket has gone, %d reconnect time-outs are pending' % len(live))
    elif not done and not diff:
        # The second activation took over.
        if B is not None and r is None and not I.fired:
            problem(I, 'dropped', 'the connection that an agent took over is dropped')
        if r is not None:
            if I.getattr(r, 'ws') != last(I):
                problem(I, 'socket', 'the connection uses the socket that the agent has given up')
            n = 0 if I.rt is None or I.getattr(r, 'ws') not in I.gone else 1
            if len(live) != n:
                problem(I, 'time-outs after takeover', 'after a reconnect, with its socket %s, %d reconnect time-outs are pending' % ('gone' if I.getattr(r, 'ws') in I.gone else 'open', len(live)))
    if I.kind == 'reconnect' and done and taken and I.shut[1] == WSB and (r is not None or live) and not diff and I.ended.get(WSB) == 'return':
        problem(I, 'not dropped', 'the connection of an agent that reconnected and has shut down remains')
    # The record and its group.
    g = {k: [x for x in v if x != 'other-conn'] for k, v in groups(I).items()}
    if r is not None:
        if not (CID in g.get(GROUP, []) and sum(len(x) for x in g.values()) == 1):
            if not (diff and r is not A):
                problem(I, 'group listing', 'the listing of groups does not show the connection once in its group')
        if I.getattr(I.getattr(I.getattr(r, 'info'), 'conn'), 'group_id') != GROUP and not (diff and r is not A):
            problem(I, 'group changed', 'the connection changed its group')
        want = 'active' if I.shut is None else I.shut[0]
        if I.kind == 'single' and I.getattr(r, 'shutdown_state') is not I.state(want):
            problem(I, 'shutdown state', 'after the agent announced %s, its connection is %s' % (want, short(I.getattr(r, 'shutdown_state'))))
        want = I.shut[0] if I.shut and I.shut[1] == WSB else 'active' if I.bprocs else 'idling'
        if I.kind == 'reconnect' and taken and not diff and not done and I.getattr(r, 'shutdown_state') is not I.state(want):
            problem(I, 'shutdown state on reconnect', 'after an agent reconnects as %s, its connection has another state' % want)
    elif any(g.values()):
        problem(I, 'group listing', 'a group lists a connection that is gone')
    # What is pending fires.
    I.timers('end')


def last(I):
    """The socket that was registered last."""
    return I.order[-1] if I.order else None


class Choose(Serve):
    """The choice of a connection for a process."""

    def receive(self, ws, n):
        raise Prune

    def attr(self, v, n):
        if self.isws(v) and n in ('open', 'closed') and v not in self.gone:
            o = self.decide(('open', v, self.epoch), '%s is open' % short(v))
            return o if n == 'open' else not o
        return Serve.attr(self, v, n)

    def awaits(self, v):
        self.change()
        return Sym('event', (self.waits,))


def choice(rep, pkg, part):
    CONNS = [('c1', GROUP), ('c2', GROUP), ('c3', OTHERG)]
    n = 0

    def make(I):
        setup(I, None)
        I.prompt = True
        I.recs = []
        for i, (c, g) in enumerate(CONNS):
            st = ['active', 'idling'][I.choose(2, '%s is active, idling' % c)] if i < (2 if part < 3 else 1) else 'active'
            msg = instance(I, I.module(PROTO).ns['ConnectionInfo'], conn_id=c, group_id=g)
            ws = Sym('ws', (c,), nn=True)
            I.facts[('open', ws, I.epoch)] = True
            I.regs[ws] = I.message('Register', conn=msg, proc_ids=Seq('list', []), access_token=TOK, shutdown_state=I.state(st))
            I.serve(ws)
            I.recs.append((I.call(I.getattr(I.conns, '__getitem__'), [c], {}), g, ws))
        del I.events[:]
        I.prompt = False

    class C(Choose):
        def begin(self):
            Choose.begin(self)
            self.regs = {}
            self.waits = 0

        def receive(self, ws, n):
            if n == 0:
                return self.regs[ws]
            raise Parked

        def suspend(self):
            Choose.suspend(self)
            if not self.prompt:
                self.waits += 1
                if self.waits > 1:
                    raise Prune

        def change(self):
            # While waiting, a connection may change.
            r = self.recs[0][0]
            if self.choose(2, 'c1 turns active') == 1:
                r.attrs['shutdown_state'] = self.state('active')

    def good(I, c):
        r = [x for x in I.recs if x[0] is c]
        if not r:
            return 'something that is no connection of the registry'
        c, g, ws = r[0]
        if g != I.group:
            return 'a connection of another group'
        if I.facts.get(('open', ws, I.epoch)) is not True:
            return 'a connection that is not known to be open'
        if I.getattr(c, 'shutdown_state') is not I.state('active'):
            return 'a connection whose agent is shutting down'
        return None

    def start(I):
        make(I)
        I.group = [GROUP, OTHERG, 'empty-group'][part]
        f = I.module(CONN).ns['choose_connection']
        return I.await_run(I.call(f, [I.conns, I.group], {'timeout': Sym('timeout', ty='float')}))
    returned = 0
    for r in explore(C, pkg, start, limit=60000) if part < 3 else ():
        n += 1
        rep.obligation('choice')
        if r.kind == 'return':
            returned += 1
            bad = good(r.I, r.value)
            if bad:
                rep.violation('choice', 'a process may be started on %s' % bad, r.trace())
        elif r.value.cls.name in ('AssertionError', 'KeyError', 'IndexError', 'AttributeError', 'TypeError'):
            rep.violation('choice: raises', 'the choice of a connection raises %s' % r.value.cls.name, r.trace())
    rep.require(returned or part > 1, 'choice: none', 'the analysis found no way to choose a connection')

    def start2(I):
        make(I)
        I.group = GROUP
        return I.await_run(I.call(I.module(CONN).ns['wait_for_connection'], [I.conns, 'c1'], {}))
    for r in explore(C, pkg, start2) if part == 3 else ():
        n += 1
        rep.obligation('wait')
        if r.kind == 'return':
            if r.value is not r.I.recs[0][0] or r.I.facts.get(('open', r.I.recs[0][2], r.I.epoch)) is not True:
                rep.violation('wait', 'waiting for a connection yields another one or one that is not open', r.trace())
        elif r.value.cls.name in ('AssertionError', 'KeyError', 'AttributeError', 'TypeError'):
            rep.violation('wait: raises', 'waiting for a connection raises %s' % r.value.cls.name, r.trace())

    # A process is started on the chosen connection, and its record refers to it.
    class S(C):
        def awaits(self, v):
            raise Prune

        def sendfails(self, ws):
            return not self.prompt and self.choose(2, 'the send fails') == 1

    def start3(I):
        make(I)
        I.group = GROUP
        return I.await_run(I.call(I.getattr(I.server, 'request_start'), ['new-proc', Sym('spec', nn=True)], {'group_id': GROUP}))
    for r in explore(S, pkg, start3) if part == 3 else ():
        n += 1
        rep.obligation('start')
        sends = [e for e in r.I.events if e[0] == 'send']
        for e in sends:
            ws, data = e[1]
            c = [x for x in r.I.recs if x[2] == ws]
            if not c or c[0][1] != GROUP:
                rep.violation('start: connection', 'a process is started on a connection that was not chosen for it', r.trace())
        if r.kind == 'return':
            p = r.value
            if len(sends) != 1 or packed_type(sends[0][1][1]) != 'ProcStartRequest':
                rep.violation('start: request', 'starting a process sends %d requests' % len(sends), r.trace())
            elif r.I.process('new-proc') is not p or r.I.getattr(p, 'conn_id') != r.I.getattr([x for x in r.I.recs if x[2] == sends[0][1][0]][0][0], 'conn_id'):
                rep.violation('start: record', 'a started process has no record, or one for another connection than its request went to', r.trace())
        elif r.value.cls.name in ('AssertionError', 'KeyError', 'TypeError', 'AttributeError'):
            rep.violation('start: raises', 'starting a process raises %s' % r.value.cls.name, r.trace())
    rep.note(choices=n)


def run(rep):
    pkg = Package()
    Hist(pkg, []).module(SERVER)
    rep.parallel([lambda r, i=i: choice(r, pkg, i) for i in range(4)] + [lambda r, k=k, t=t, b=b: run_one(r, pkg, k, t, b) for k in ('overlap', 'reconnect', 'single') for t in (0, 1)
                                               for b in (0, 1, 2) if b < 2 or k != 'single'])
    return __doc__ + """ The connection handler is interpreted from the sources for whole histories: one activation with up to two messages and every way for its socket to close; a second
        activation for the same agent (same or another group) after the first, with the reconnect time-out elapsing at any suspension; and a second activation at any suspension of
        the first. After each history the registry is compared with what the history implies; the time-outs that remain are fired. The choice of a connection is
        interpreted over a registry of three connections whose sockets may open and close at each suspension."""


class Hist(History):
    def lib(self, name, recv, args, kw):
        if name == 'ipaddress.ip_address':
            return args[0]
        return History.lib(self, name, recv, args, kw)

    def distinct(self, a, b):
        return History.distinct(self, a, b) or self.isaddr(a) and self.isaddr(b) and a != b

    def isaddr(self, v):
        return isinstance(v, Sym) and v.op == 'address'

    def attr(self, v, n):
        if self.kind == 'reconnect' and self.isws(v):
            if n in ('open', 'closed'):
                return (v in self.gone) == (n == 'closed')
            if n == 'remote_address':
                return Seq('tuple', [Sym('address', ty='str'), Sym('port', (v,), ty='int')])
        return History.attr(self, v, n)


def run_one(rep, pkg, kind, rt, b):
    kw = {}
    if kind == 'overlap':
        kw = dict(max_msgs=1)
    elif kind == 'reconnect':
        kw = dict(max_msgs=1, b_msgs=0)
    if rep.tier == 'thorough':
        kw = dict(max_msgs=3 if kind == 'single' else 2, b_msgs=1)
    import serveloop
    n = 0

    def start(I):
        I.rt = RT if rt else None
        setup(I, I.rt)
        # The other agent is of the same group.
        I.bygroup = GROUP if (b if kind == 'single' else rt) else THIRD
        I.bystander()
        I.notes.append((SERVER + ':0', 'a reconnect time-out is configured; second registration: same, without process, other group', (rt, b)))
        I.bgroup, I.bprocs = [(GROUP, [P1]), (GROUP, []), (OTHERG, [P1])][b]
        if kind == 'overlap':
            I.nest = lambda I: I.serve(WSB)
        I.serve(WSA)
        if kind == 'reconnect':
            I.fires = True
            I.serve(WSB)
            I.fires = False
        I.untouched()
        visit(I)
        I.untouched()
        return I
    for r in explore(type('H', (Hist,), dict(kw, kind=kind)), pkg, start, limit=100000):
        n += 1
        rep.obligation('histories')
        if r.kind == 'raise':
            rep.violation('history: raises', 'the server raises %s' % r.value.cls.name, r.trace())
            continue
        seen = set()
        for k, what in r.I.problems:
            if k not in seen:
                seen.add(k)
                rep.violation(k, what, r.trace())
    rep.note(**{'histories_' + kind: n})
