"""C25: the server delivers each message to the process that it concerns."""
from pyserve import *
from common import Missing
import serveloop
from wire import Wire

CID, OTHER = Sym('this conn_id', ty='str'), Sym('other conn_id', ty='str')


class Deliver(Py):
    def distinct(self, a, b):
        return {a, b} == {CID, OTHER} if isinstance(a, Sym) and isinstance(b, Sym) else False

    def attr(self, v, n):
        if v in (Sym('conn', nn=True), Sym('other conn', nn=True)):
            if n == 'conn_id':
                return CID if v.op == 'conn' else OTHER
        return NotImplemented


def setup(I, present=None):
    """A table of processes of which nothing is known."""
    m = I.module(PROC)
    cls = m.ns.get('Processes')
    if not isinstance(cls, Cls):
        raise Missing('class Processes of the server')
    o = I.construct(cls, [], {})
    o.shared = True
    ts = table(I, o)
    if len(ts) != 1:
        raise Missing('the table of processes')
    I.loading = False
    procs = next(iter(ts.values()))
    procs.tag = 'procs'
    I.had = []

    def entry(k):
        c = Sym('conn', nn=True) if I.choose(2, 'process %s is on this connection' % short(k)) == 0 else Sym('other conn', nn=True)
        n = len(I.events)
        p = I.construct(m.ns['Process'], [c, k], {})
        del I.events[n:]
        p.tag = k
        p.shared = True
        I.had.append((k, p))
        return p
    procs.open = entry
    return m, o, procs


def now(I, procs):
    return [(k, v) for k, v, _ in procs.items if v is not MISSING]


def delivered(I):
    return [(e[1][0], e[1][1]) for e in I.events if e[0] == 'deliver']


def requests():
    """The layouts of requests that the agent may echo."""
    ad = Wire.get().adt('proto::IncomingMessage')
    out = []
    for v in ad['variants']:
        out.append((v['name'], [f['name'] for f in v['fields']]))
    return out


def one(rep, pkg, name, make, rule):
    """Checks the delivery of one message in every state of the table."""
    n = 0

    def start(I):
        m, o, procs = setup(I)
        I.m, I.procs, I.o = m, procs, o
        I.msg = make(I)
        I.conn = Sym('conn', nn=True)
        f = I.getattr(o, 'on_message')
        I.call(f, [I.conn, I.msg], {})
    for r in explore(Deliver, pkg, start, limit=200000):
        n += 1
        rep.obligation('delivery')
        I = r.I
        if r.kind == 'raise':
            rep.violation(name + ': raises', 'a %s message from an agent makes the server raise %s, which breaks the connection' % (name, r.value.cls.name), r.trace())
            continue
        bad = rule(I)
        if bad:
            rep.violation('%s: %s' % (name, bad[0]), bad[1], r.trace())
    rep.note(paths=n)
    return n


def exactly(I, want, name):
    """Each of the keys has a record, to which alone the message was delivered."""
    d = delivered(I)
    tab = now(I, I.procs)
    qs = []
    for k in want:
        p = [v for x, v in tab if x == k] or [v for x, v in tab if I.equal(x, k)]
        if not p:
            return 'no record', 'after a %s message for process %s there is no record of it' % (name, short(k))
        p = p[0]
        old = [x for y, x in I.had if y == k]
        if old and old[0] is not p:
            return 'replaced', 'a %s message replaces the record of process %s, so that its updates are lost' % (name, short(k))
        if not old and not (same(p.attrs.get('proc_id'), k) and I.equal(I.getattr(p, 'conn_id'), CID)):
            return 'new record', 'the record that a %s message creates has another process ID or connection' % name
        qs.append(queue_of(p))
    for q in qs:
        n = sum(1 for x, m in d if x is q)
        if n != 1:
            return 'not delivered' if n == 0 else 'delivered twice', 'a %s message is delivered %s times to process it concerns' % (name, n)
    for x, m in d:
        if not any(x is q for q in qs):
            return 'misdelivered', 'a %s message is delivered to a process that it does not concern' % name
        if m is not I.msg:
            return 'altered', 'another message than the %s message is delivered' % name
    for k, v in I.had:
        if not any(y is v for _, y in tab):
            return 'removed', 'a %s message removes the record of process %s' % (name, short(k))
    return None


def run(rep):
    pkg = Package()
    I0 = Deliver(pkg, [])
    try:
        classes = messages(I0)
    except (KeyError, Raise):
        raise Missing('message classes')
    seen = set()
    for c in classes:
        name = c.name
        seen.add(name)
        fields = [n for n, _ in I0.fields(c)]
        mk = lambda I, name=name: instance(I, [x for x in messages(I) if x.name == name][0])
        pid = Sym('msg.proc_id')
        if name in ('ProcDelete', 'ProcUnknown'):
            def rule(I, name=name):
                d = delivered(I)
                old = [p for k, p in I.had if k == pid]
                if any(I.equal(k, pid) for k, _ in now(I, I.procs)):
                    return 'record remains', 'a %s message leaves the record of the process' % name
                if any(not any(y is p for _, y in now(I, I.procs)) for k, p in I.had if k != pid):
                    return 'other removed', 'a %s message removes another record' % name
                if old:
                    q = queue_of(old[0])
                    if len(d) != 1 or d[0][0] is not q or d[0][1] is not I.msg:
                        return 'not delivered', 'a %s message is not delivered once to the process whose record it removes' % name
                elif d:
                    return 'misdelivered', 'a %s message about an unknown process is delivered to another one' % name
        elif name == 'RequestError':
            for req, fs in requests():
                for has in ((False, True) if 'proc_id' in fs else (True,)):
                    if 'proc_id' in fs and not has:
                        continue

                    def mkreq(I, req=req, fs=fs):
                        m = Map([('type', req)] + [(f, Sym('msg.' + f, ty='str')) for f in fs if f != 'specs'])
                        if 'specs' in fs:
                            s = Map()
                            for i in range(I.choose(3, 'number of processes in the request')):
                                s.items.append([Sym('spec', (i,), ty='str'), Sym('specval', (i,)), 0])
                            if len(s.items) == 2:
                                I.facts[('==',) + tuple(sorted((Sym('spec', (0,)), Sym('spec', (1,))), key=repr))] = False
                            m.items.append(['specs', s, 0])
                        return instance(I, [x for x in messages(I) if x.name == 'RequestError'][0], msg=m)

                    def rule(I, fs=fs, req=req):
                        m = I.msg.attrs['msg']
                        want = [Sym('msg.proc_id')] if 'proc_id' in fs else []
                        if 'specs' in fs:
                            want = [k for k, _, _ in [x for x in m.items if x[0] == 'specs'][0][1].items]
                        return exactly(I, want, 'RequestError for ' + req)
                    one(rep, pkg, 'RequestError for ' + req, mkreq, rule)
            continue
        elif name == 'ConnectionTimeout':
            def rule(I):
                d = delivered(I)
                for k, p in I.had:
                    n = sum(1 for q, m in d if q is queue_of(p) and m is I.msg)
                    mine = I.equal(I.getattr(p, 'conn_id'), CID)
                    if mine and n != 1 or not mine and n:
                        return ('not delivered', 'a process on the connection is not told once of its time-out') if mine else (
                            'misdelivered', 'a process on another connection is told of a time-out')
                I.entries(I.procs)
                for k, p in I.had:
                    if I.equal(I.getattr(p, 'conn_id'), CID) and not any(q is queue_of(p) for q, _ in d):
                        return 'not delivered', 'a process on the connection is not told of its time-out'
        elif 'proc_id' in fields:
            rule = lambda I, name=name: exactly(I, [pid], name)
        elif name == 'ProcidList':
            def rule(I):
                if delivered(I):
                    return 'misdelivered', 'a list of IDs is delivered to a process'
                for i in range(I.facts.get(('len', Sym('msg.proc_ids')), 0)):
                    k = Sym('elem', (Sym('msg.proc_ids'), i))
                    if not any(I.equal(x, k) for x, _ in now(I, I.procs)):
                        return 'no record', 'a listed process gets no record'
                for k, v in I.had:
                    if not any(y is v for _, y in now(I, I.procs)):
                        return 'removed', 'a list of IDs removes or replaces a record'
        else:
            def rule(I, name=name):
                if delivered(I):
                    return 'misdelivered', 'a %s message, which names no process, is delivered to one' % name
                for k, v in I.had:
                    if not any(y is v for _, y in now(I, I.procs)):
                        return 'removed', 'a %s message removes or replaces a record' % name
        n = one(rep, pkg, name, mk, rule)
        rep.require(n, name + ': no path', 'the analysis found no way through the dispatch of %s' % name)
    for n in ('ProcResult', 'ProcFdData', 'ProcDelete', 'ProcUnknown', 'RequestError', 'ProcidList'):
        rep.require(n in seen, 'anchor: ' + n, 'there is no %s message' % n)
    updates(rep, pkg)
    serveloop.delivery(rep, pkg)
    rep.note(messages=sorted(seen))
    return __doc__ + """ The dispatch of an agent's messages is interpreted for a message of each class with symbolic fields, in every state of the process table that it can tell apart (with up to two
        further processes, each on this connection or another one); then the updates of a process for each message that it can get, and the loop that receives messages."""


class Updates(Py):
    def awaits(self, v):
        if isinstance(v, Sym) and v.op == 'call' and isinstance(v.args[0], Sym) and v.args[0].op == 'attr' and v.args[0].args[1] in ('get', 'get_nowait'):
            self.event('get', v.args[0].args[0])
            if self.got:
                raise Prune
            self.got = True
            return self.msg
        return NotImplemented

    def lib(self, name, recv, args, kw):
        return Py.lib(self, name, recv, args, kw)


def updates(rep, pkg):
    """What the updates of a process yield for each message."""
    names = [c.name for c in messages(Updates(pkg, []))]
    for name in names:
        out = []
        waits = []

        def start(I):
            m = I.module(PROC)
            I.loading = False
            I.got = False
            p = I.construct(m.ns['Process'], [Sym('conn', nn=True), Sym('PID', ty='str')], {})
            I.p = p
            I.msg = instance(I, [x for x in messages(I) if x.name == name][0])
            I.out = []
            out.append(I)
            g = I.getattr(p, 'updates')
            if not isinstance(g, Gen):
                raise Missing('the updates of a process')
            I.consume(g, lambda v: I.out.append(v))
        res = list(explore(Updates, pkg, start))
        for I in out:
            r = [x for x in res if x.I is I]
            kind = r[0].kind if r else 'waits'
            v = r[0].value if r else None
            rep.obligation('updates')
            tr = r[0].trace() if r else []
            got = [e for e in I.events if e[0] == 'get']
            if got and got[0][1][0] is not queue_of(I.p):
                rep.violation('updates: queue', 'the updates of a process come from another queue than its messages go to')
            f = lambda n: I.msg.attrs[n]
            if name == 'ProcResult':
                good = kind == 'waits' and len(I.out) == 1 and isinstance(I.out[0], Obj) and I.out[0].cls.name == 'Result' and any(x is f('res') for x in I.out[0].attrs.values())
                want = 'yielded as a Result, with further updates to follow'
            elif name == 'ProcFdData':
                good = kind == 'waits' and len(I.out) == 1 and isinstance(I.out[0], Obj)
                if good:
                    a = I.out[0].attrs
                    iv = a.get('interval')
                    good = same(a.get('fd'), f('fd')) and same(a.get('data'), f('data')) and same(a.get('encoding'), f('encoding')) and isinstance(iv, Obj) and same(
                        I.getattr(iv, 'start'), f('start')) and same(I.getattr(iv, 'stop'), f('stop'))
                want = 'yielded with its fd, interval, encoding and data'
            elif name == 'ProcDelete':
                good = kind == 'return' and not I.out
                want = 'the end of the updates'
            elif name in ('ProcUnknown', 'RequestError', 'ConnectionTimeout'):
                good = kind == 'raise' and not I.out and v.cls.name != 'AssertionError'
                if good and name == 'RequestError':
                    good = any(same(x, f('err')) or isinstance(x, Sym) and f('err') in deep(x) for x in v.attrs.values())
                want = 'raised as an error'
            else:
                continue
            if not good:
                rep.violation('updates: ' + name, 'a %s message in the updates of a process should be %s; %s' % (
                    name, want, 'they yield %s and %s' % ([short(x) for x in I.out], kind + (' ' + v.cls.name if kind == 'raise' else ''))), tr)


def deep(s):
    r = [s]
    for x in r:
        if isinstance(x, Sym):
            r += [y for y in x.args if isinstance(y, (Sym, tuple))]
        elif isinstance(x, tuple):
            r += x
    return r
