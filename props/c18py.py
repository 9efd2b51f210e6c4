"""C18: which peers the server lets in."""
from serveloop import *

OTHER_TOK = Sym('token of the peer', ty='str')
NEWCONN = 'new-conn'
ENVTOK = Sym('PROCSTAR_AGENT_TOKEN', ty='str')
SECRETS = (TOK, OTHER_TOK, ENVTOK)


def has_secret(v, depth=0):
    if isinstance(v, Sym):
        return v in SECRETS or any(has_secret(a, depth + 1) for a in v.args)
    if isinstance(v, Held):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_secret(a) for a in v)
    return False


class Peer(Serve):
    """A peer whose first message is arbitrary, while another agent is connected."""
    conf = None         # what the server is configured with

    def lib(self, name, recv, args, kw):
        last = name.rsplit('.', 1)[-1]
        if name == 'ipaddress.ip_address':
            return args[0]
        if name in ('os.environ.get', 'os.getenv') or name == '.get' and isinstance(recv, Sym) and recv == Sym('lib', ('os.environ',)):
            r = self.env(args[0])
            return (args[1] if len(args) > 1 else kw.get('default')) if r is None else r
        if name in ('.absolute', '.with_suffix', '.resolve', '.expanduser', '.with_name'):
            return Sym('path', (recv, name) + tuple(args), nn=True)
        if last in LOGS and (name.startswith('logging.') or isinstance(recv, Sym) and self.islogger(recv)):
            if (last == 'exception' or kw.get('exc_info')) and self.excs:
                args = list(args) + [self.excs[-1]]
        return Serve.lib(self, name, recv, args, kw)

    def env(self, n):
        if not isinstance(n, str):
            return Sym('environ', (n,), ty='str')
        return Sym(n, ty='str') if self.decide(('env', n), '%s is set' % n) else None

    def item(self, v, k):
        if isinstance(v, Sym) and v == Sym('lib', ('os.environ',)):
            r = self.env(k)
            if r is None:
                self.throw('KeyError', k)
            return r
        return NotImplemented

    def configured(self):
        """The token that the server requires."""
        if self.conf == 'given':
            return TOK
        r = self.env('PROCSTAR_AGENT_TOKEN')
        return '' if r is None else r

    def equals(self):
        """Whether this path found the peer's token to be exactly the configured one."""
        c = self.configured()
        for k, r in self.facts.items():
            if r and k[0] == '==' and len(k) == 3 and {0, 1} == {i for i, x in enumerate((OTHER_TOK, c)) if any(same(x, y) for y in k[1:])}:
                return True
        return False

    def receive(self, ws, n):
        m = self.module(PROTO)
        if ws == WSO:
            if n:
                return 'park'
            return self.message('Register', conn=instance(self, m.ns['ConnectionInfo'], conn_id=CID, group_id=THIRD), proc_ids=Seq('list', [P2]), access_token=self.configured(),
                                shutdown_state=self.state('active'))
        if n == 0:
            cs = messages(self)
            opts = ['ConnectionClosedOK', 'ConnectionClosedError', 'garbage', 'Register'] + [c for c in cs if c.name != 'Register']
            o = opts[self.choose(len(opts), 'first message: %s' % ', '.join(x if isinstance(x, str) else x.name for x in opts))]
            self.first = o
            if o == 'Register':
                cid = (CID, NEWCONN)[self.choose(2, 'registers as the connected agent, or a new one')]
                g = (THIRD, GROUP)[self.choose(2, 'group: the same, another')]
                ps = ([], [P2], [P1])[self.choose(3, 'processes: none, of the connected agent, new')]
                return self.message('Register', conn=instance(self, m.ns['ConnectionInfo'], conn_id=cid, group_id=g), proc_ids=Seq('list', ps), access_token=OTHER_TOK,
                                    shutdown_state=self.state('active'))
            return instance(self, o) if isinstance(o, Cls) else o
        if self.first == 'Register' and n == 1 and self.choose(2, 'then: closes, another registration') == 1:
            return self.message('Register', conn=instance(self, m.ns['ConnectionInfo'], conn_id=CID, group_id=THIRD), proc_ids=Seq('list', []), access_token=OTHER_TOK,
                                shutdown_state=self.state('active'))
        return 'ConnectionClosedOK'

    # Where the token shows.

    def event(self, kind, *args):
        Serve.event(self, kind, *args)
        if kind in ('log', 'print') and any(has_secret(a) for a in args):
            self.problems.append(('token logged', 'a log message contains an access token'))

    def snapshot(self):
        """The registry, the processes and the records of both, by identity and content."""
        r = []
        for o in (self.conns, self.procs):
            for n, t in sorted(table(self, o).items()):
                for k, v, _ in t.items:
                    if v is MISSING:
                        continue
                    r.append((n, k, id(v), self.content(v)))
        return r

    def content(self, v, depth=0):
        if isinstance(v, Obj) and depth < 5:
            return tuple((n, self.content(x, depth + 1)) for n, x in sorted(v.attrs.items()))
        if isinstance(v, Seq):
            return (v.kind, tuple(self.content(x, depth + 1) for x in v.items)) if depth < 5 else id(v)
        if isinstance(v, Map):
            return tuple((self.content(k, depth + 1), self.content(x, depth + 1)) for k, x, _ in v.items if x is not MISSING) if depth < 5 else id(v)
        return v


def python(rep, pkg, conf):
    n = {'accepted': 0, 'refused': 0}

    def start(I):
        m = I.module(SERVER)
        I.module(PROC), I.module(CONN)
        I.loading = False
        I.begin()
        s = I.server = I.construct(m.ns['Server'], [], {})
        I.conns, I.procs = I.getattr(s, 'connections'), I.getattr(s, 'processes')
        I.conf = conf
        kw = dict(host='h', port=1, tls_cert=None, reconnect_timeout=None)
        if conf == 'given':
            kw['access_token'] = TOK
        I.await_run(I.call(I.getattr(s, 'run'), [], kw))
        sv = [e for e in I.events if e[0] == 'serve']
        if len(sv) != 1:
            raise Missing('the call that starts the websocket server')
        a, k = sv[0][1]
        I.handler = a[0] if a else k.get('ws_handler') or k.get('handler')
        # The other agent's connection is there already.
        prompt, I.prompt = I.prompt, True
        I.serve(WSO)
        I.prompt = prompt
        if I.ended.get(WSO) != 'parked':
            I.problems.append(('rejected', 'an agent with the configured token is not accepted'))
            return I
        before, ne = I.snapshot(), len(I.events)
        I.prompt = False
        I.tested = True
        I.serve(WSA)
        evs = I.events[ne:]
        acts = [e for e in evs if e[0] in ('deliver',) or e[0] == 'send']
        changed = I.snapshot() != before or I.live()
        I.ok = I.equals() and getattr(I, 'first', None) == 'Register'
        if I.ok:
            n['accepted'] += bool(acts)
            return I
        n['refused'] += 1
        what = getattr(I, 'first', 'nothing')
        what = what if isinstance(what, str) else 'a %s message' % what.name
        if acts:
            I.problems.append(('acts for a stranger', 'the server %s a peer that sent %s without the configured access token' % (
                'sends to' if acts[0][0] == 'send' else 'delivers a message for', what)))
        if changed:
            I.problems.append(('changed by a stranger', 'a peer that sent %s without the configured access token changes connection or process state' % what))
        if WSA not in I.gone:
            I.problems.append(('not closed', 'the connection of a peer that sent %s without the configured access token remains open' % what))
        if I.nmsg.get(WSA, 0) > 1:
            I.problems.append(('heard', 'the server goes on to receive from a peer that sent %s without the configured access token' % what))
        return I
    k = 0
    for r in explore(Peer, pkg, start, limit=60000):
        k += 1
        rep.obligation('first messages')
        if r.kind == 'raise':
            rep.violation('raises', 'the server raises %s' % r.value.cls.name, r.trace())
            continue
        seen = set()
        for x, what in r.I.problems:
            if x not in seen and x != 'handler raises':
                seen.add(x)
                rep.violation(x, what, r.trace())
    rep.require(n['accepted'], 'nobody accepted', 'the analysis found no way to be accepted (%s)' % conf)
    rep.require(n['refused'], 'nobody refused', 'the analysis found no way to be refused (%s)' % conf)
    rep.note(**{'peers_' + conf: k, 'accepted_' + conf: n['accepted'], 'refused_' + conf: n['refused']})


SERVERSIDE = ('PROTOCOL_TLS_SERVER', 'PROTOCOL_TLS')


class Start(Peer):
    def distinct(self, a, b):
        # A path that is given is not the mark for the environment.
        return Peer.distinct(self, a, b) or any(isinstance(x, Sym) and x.op in ('cert path', 'key path') and isinstance(y, Obj) for x, y in ((a, b), (b, a)))


def python_tls(rep, pkg):
    """The server listens with TLS, and uses the configured certificate."""
    seen = [0]
    CERT, KEY = Sym('cert path', nn=True), Sym('key path', nn=True)

    def start(I):
        m = I.module(SERVER)
        I.loading = False
        I.begin()
        I.conf = 'given'
        s = I.construct(m.ns['Server'], [], {})
        c = I.choose(2, 'certificate: from the environment, given')
        kw = dict(host='h', port=1, access_token=TOK)
        if c == 1:
            kw['tls_cert'] = Seq('tuple', [CERT, KEY])
        I.c = c
        I.await_run(I.call(I.getattr(s, 'run'), [], kw))
        return I
    for r in explore(Start, pkg, start, limit=2000):
        rep.obligation('server configurations')
        if r.kind == 'raise':
            continue
        I = r.I
        for e in I.events:
            if e[0] != 'serve':
                continue
            seen[0] += 1
            a, k = e[1]
            ctx = k.get('ssl')
            cert = CERT if I.c == 1 else Sym('PROCSTAR_AGENT_CERT', ty='str') if I.facts.get(('env', 'PROCSTAR_AGENT_CERT')) else None
            okk = isinstance(ctx, Sym) and ctx.op == 'call' and isinstance(ctx.args[0], Sym) and ctx.args[0].op == 'lib' and ctx.args[0].args[0].startswith('ssl.')
            rep.require(okk, 'server without TLS', 'the server listens with %s instead of a TLS context' % short(ctx), r.trace())
            if okk and cert is not None:
                ld = [x for x in I.events if x[0] == 'call' and x[1][0] == Sym('attr', (ctx, 'load_cert_chain'))]
                rep.require(len(ld) == 1 and contains(ld[0][1], cert), 'certificate not used', 'the server does not load the configured certificate', r.trace())
    rep.require(seen[0], 'no server', 'the analysis found no way to start the server')
    rep.note(server_starts=seen[0])


def contains(v, s):
    if isinstance(v, Sym):
        return v == s or any(contains(a, s) for a in v.args)
    if isinstance(v, (tuple, list)):
        return any(contains(a, s) for a in v)
    return False
