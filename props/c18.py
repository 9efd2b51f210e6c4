"""C18: agent connections are encrypted, verified and authenticated."""
from agentloop import *
from c19 import isdial, issend, isnext, with_witness
from pyai import Package
import c10
import c18py
import re

# Rust: whom the agent connects to.

CERT, TOKEN = sym('W:cert'), sym('W:token')


def shows(t, what=TOKEN):
    """Whether the text of a term shows the token: in what a call succeeded with, not in its error."""
    seen = set()

    def go(n):
        if n is what:
            return True
        if id(n) in seen:
            return False
        seen.add(id(n))
        if n.k == 'fld' and n.a[0].k in ('res', 'op') and n.a[1] == 1:
            return False
        return any(go(x) for x in kids(n))
    return go(t)


def kids(n):
    def flat(x):
        if isinstance(x, N):
            yield x
        elif isinstance(x, (tuple, list)):
            for y in x:
                yield from flat(y)
    return flat(n.a)


class Dial(c10.Lazy):
    def __init__(self, prog, rep, cert, token):
        pair = lambda k, v: agg('tuple', 0, mk('str', k), v)
        vs = [pair('OTHER_VARIABLE', sym('W:other value'))] + ([pair('PROCSTAR_AGENT_CERT', CERT)] if cert else []) + ([pair('PROCSTAR_AGENT_TOKEN', TOKEN)] if token else [])
        c10.Lazy.__init__(self, prog, c10.iterator(c10.seq(*vs)))
        self.want = lambda p, c: 'dial' if isdial(p) else 'root' if p.endswith('TlsConnectorBuilder::add_root_certificate') else None
        self.rep, self.cert = rep, cert
        self.vals = {'PROCSTAR_AGENT_CERT': CERT if cert else None, 'PROCSTAR_AGENT_TOKEN': TOKEN if token else None}
        self.nfmt = 0
        self.formats = {}

    def on_call(self, st, c, path, vals):
        if path in ('std::env::var', 'std::env::var_os'):
            k = models.value(self.eng, st, vals[0])
            if k.k == 'str' and k.a[0] in self.vals:
                v = self.vals[k.a[0]]
                return agg('Result', 0, v) if v is not None else agg('Result', 1, sym('W:unset'))
            return None
        r = c10.Lazy.on_call(self, st, c, path, vals)
        if r is not None:
            return r
        if path.startswith(('core::fmt::rt::Argument', 'core::fmt::Formatter', 'core::fmt::builders', 'core::fmt::Write', 'std::io', 'log::')) or 'fmt::Debug' in path or 'fmt::Display' in path:
            for v in vals:
                v = models.freeze(self.eng, st, models.value(self.eng, st, v))
                if shows(v):
                    self.formatted(st, c, path, v)
        if self.want(path, c):
            return Collect.on_call(self, st, c, path, vals)
        return None

    def formatted(self, st, c, path, v):
        if path.startswith(('core::fmt::Arguments', 'log::')) or v.k == 'op' and str(v.a[0]).startswith('core::fmt::'):
            return      # made of what was already seen
        self.nfmt += 1
        ty = None
        if path.startswith('core::fmt::rt::Argument'):
            ts = [a for a in c.get('targs') or () if isinstance(a, int)]
            tr = 'core::fmt::' + {'new_debug': 'Debug', 'new_display': 'Display'}.get(path.rsplit('::', 1)[-1], '?')
            ty = [self.prog.P.types[a]['s'] for a in ts]
            if ty and all(re.fullmatch(r'&*([iu](8|16|32|64|128|size)|bool|f32|f64)', t) for t in ty):
                return      # at most its length
            for t in ty:
                t = t.lstrip('&')
                k = '<%s as %s>::fmt' % (t, tr)
                if k in self.lib().fns:
                    s = (k, v)
                    if s not in self.formats:
                        self.formats[s] = impl_shows(self.rep, self.lib(), k, v)
                    if not self.formats[s]:
                        return
        self.rep.violation('token formatted: ' + self.prog.fns[st.fr.key]['path'].split('::{closure')[0], 'the access token becomes text for people (%s of %s)' % (path, ty or show(v, 4)), st.trace())

    _lib = None

    def lib(self):
        if Dial._lib is None:
            Dial._lib = Prog('lib')
        return Dial._lib


def impl_shows(rep, prog, key, v):
    """Whether an implementation of Debug or Display shows the token in a value."""
    found = []
    T = [v]

    class Mon:
        def on_call(self, st, c, path, vals):
            if path.startswith('core::fmt') or 'fmt::Debug' in path or 'fmt::Display' in path:
                for x in vals:
                    x = models.freeze(self.eng, st, models.value(self.eng, st, x))
                    if shows(x) and x is not v:
                        found.append((path, x))
            return None

        def on_end(self, st, kind, *a):
            pass
    m = Mon()
    e = absint.Eng(prog.P, [m], name=key, opaque=lambda k: k in prog.fns and not prog.local(k))
    m.eng = e
    e.start(key, [ref(('V', v)), sym('formatter')])
    e.run()
    rep.engine(e)
    return bool(found)


WEAK = ('danger_accept_invalid_certs', 'danger_accept_invalid_hostnames', 'disable_built_in_roots', 'use_sni', 'set_verify', 'set_verify_hostname', 'NoVerifier', 'dangerous',
        'danger_', 'min_protocol_version', 'with_custom_certificate_verifier')


def rust(rep, prog, cert, token):
    parts = Parts(prog)
    key = parts.connect
    if key is None:
        raise Missing('no function that connects and registers')
    P = prog.P
    rel = lambda x: isdial(x) or issend(x) or isnext(x) or any(s in x for s in ('BTreeMap', 'watch::', 'rmp_serde', 'native_tls', 'env::var', 'fmt', 'log::'))
    args, cells = with_witness(prog, key)
    mon = Dial(prog, rep, cert, token)
    import absint as ai
    ai.Eng.logging = True
    try:
        m = paths(prog, key, None, mon=mon, args=args, cells=cells, max_states=300000, opaque=prog.opaque(rel, leaves=True), rep=rep)
    finally:
        ai.Eng.logging = False
    n = 0
    for p in m.paths:
        roots = [e for e in p.evs if e[0] == 'root']
        for e in roots:
            rep.require(cert and any_node(e[1][1], lambda x: x is CERT) is not None, 'other root', 'the agent trusts a certificate that is not the configured one: %s' % show(e[1][1], 6), p.trace)
        ds = [e for e in p.evs if e[0] == 'dial']
        for e in ds:
            n += 1
            s = ', '.join(show(a, 5) for a in e[1])
            rep.require(len(roots) <= 1 and (not cert or len(roots) == 1), 'roots', 'the agent connects with %d additional root certificates' % len(roots), p.trace)
            us = [a for a in e[1] if a.k == 'fld' and a.a[0].k == 'sym' and a.a[0].a[0] == 'connection'] or [a for a in e[1] if any_node(a, lambda x: x.k == 'sym' and x.a[0] in ('connection', 'self')) is not None]
            rep.require(us and us[0] is e[1][0] and us[0].k == 'fld', 'other URL', "the agent connects to another address than its connection's: %s" % s, p.trace)
            cn = e[1][-1]
            # With no connector the library uses one with the system's roots.
            okk = cn.k == 'agg' and (cn.a[1] == 0 and not cert or cn.a[1] == 1 and is_tls(cn.a[2][0]))
            rep.require(okk, 'connector', 'the agent connects with %s instead of a TLS connector with the configured trust' % show(cn, 6), p.trace)
        r = p.result
        if p.kind == 'return' and r is not None:
            rep.require(not shows(r), 'token kept', 'the access token is kept beyond the registration: %s' % show(r, 6), p.trace)
    if token:
        rep.note(token_formats=mon.nfmt)
    rep.require(n, 'no connection', 'the analysis found no way to connect')
    rep.note(**{'dials_%d%d' % (cert, token): n})


def is_tls(v):
    """Connector::NativeTls of what a builder built."""
    if v.k != 'agg' or 'Connector' not in str(v.a[0]) or len(v.a[2]) != 1:
        return False
    b = v.a[2][0]
    while b.k == 'fld':
        b = b.a[0]
    return b.k in ('res', 'op') and 'native_tls::TlsConnectorBuilder::build' in str(b.a[0])


class Urls:
    def __init__(self, rep, prog, run):
        self.rep, self.prog, self.run = rep, prog, run
        self.n = 0

    def on_call(self, st, c, path, vals):
        if c.get('key') == self.run:
            self.n += 1
            u = []
            for v in vals:
                f = models.freeze(self.eng, st, models.value(self.eng, st, v))
                x = any_node(f, lambda n: n.k in ('res', 'op') and str(n.a[0]).startswith('url::') and 'parse' in str(n.a[0]))
                if x is not None:
                    u.append((x, f))
            if not self.rep.require(u, 'unknown URL', "the agent's connection has an unknown address", st.trace()):
                return False
            x, f = u[0]
            a = x.a[1] if x.k == 'op' else x.a[2]
            parts = c10.fmt(a[0])
            if parts is None and a[0].k == 'str':
                parts = [a[0].a[0]]
            s = parts[0] if parts and isinstance(parts[0], str) else None
            self.rep.require(s is not None and s.startswith('wss://'), 'not wss', 'the agent connects to %s: not by wss://' % show(a[0], 6), st.trace())
            up = any_node(f, lambda n: n.k in ('op', 'res') and str(n.a[0]).startswith('url::') and '::set_' in str(n.a[0]))
            self.rep.require(up is None, 'URL changed', 'the address of the connection is changed after it is made', st.trace())
            return False
        if path.startswith('url::') and path.rsplit('::', 1)[-1] in ('set_scheme',):
            self.rep.violation('URL changed', "the scheme of the connection's address is changed", st.trace())
        return None

    def on_end(self, st, kind, *a):
        pass


def url(rep, prog):
    from climb import owner, callers
    parts = Parts(prog)
    P = prog.P
    # The functions that run the agent without being given a connection.
    todo, done, tops = [parts.run], set(), set()
    while todo:
        k = todo.pop()
        if k in done:
            continue
        done.add(k)
        f = prog.fns[k]
        if any('agent::Connection' in P.types[f['locals'][i]]['s'] for i in range(1, f['argc'] + 1)):
            todo += callers(prog, k)
        else:
            tops.add(k)
    rep.require(tops, 'no agent', 'no function runs the agent')
    n = 0
    for k in sorted(tops):
        u = Urls(rep, prog, parts.run)
        base = prog.opaque(lambda x: x.startswith('url::') or 'process::exit' in x)
        e = absint.Eng(prog.P, [u], opaque=lambda j: j == parts.run or base(j), name=k)
        u.eng = e
        if prog.P.types[prog.fns[k]['locals'][0]]['k'] == 'coroutine':
            from paths import start_async, default_args
            start_async(e, k, default_args(prog, k))
        else:
            from paths import default_args
            e.start(k, default_args(prog, k))
        e.run()
        rep.engine(e)
        n += u.n
    rep.require(n, 'agent not run', 'the analysis found no way to run the agent')
    rep.note(agent_runs=n, agent_roots=[prog.fns[k]['path'] for k in tops])


def verification(rep, prog):
    """Nothing anywhere weakens the verification."""
    n = 0
    for k, f in prog.fns.items():
        if not prog.local(k):
            continue
        for x in prog.G.ext.get(k, ()):
            n += 1
            w = [s for s in WEAK if s in x]
            if w and ('tls' in x.lower() or 'ssl' in x.lower() or 'danger' in x):
                rep.violation('verification weakened: %s in %s' % (x.rsplit('::', 1)[-1], f['path'].split('::{closure')[0]), '%s calls %s' % (f['path'], x))
            if x.endswith('TlsConnectorBuilder::identity'):
                continue
            # Other ways to open a connection than the analysed one.
            if any(s in x for s in ('tokio_tungstenite::client_async', 'tokio_tungstenite::connect::', 'tungstenite::client', 'TcpStream::connect')) and 'closure' not in x and not isdial(x):
                rep.violation('another way to connect: ' + f['path'].split('::{closure')[0], '%s calls %s' % (f['path'], x))
    conn = {k for k in prog.fns if prog.local(k) and any(isdial(x) for x in prog.G.ext[k])}
    parts = Parts(prog)
    reach = prog.G.reach(parts.connect) if parts.connect else set()
    rep.require(conn and all(k in reach or k == parts.connect for k in conn), 'another connection', 'a function other than the analysed one connects: %s' % sorted(conn))
    rep.note(external_calls=n)


class Only:
    """Of another property's obligations, those about the token."""

    def __init__(self, rep):
        self.rep = rep
        self.tier = rep.tier

    def require(self, cond, key, msg, trace=None):
        self.rep.obligation('inherited variables')
        if not cond and 'TOKEN' in key + msg:
            self.rep.violation(key, msg, trace)
        return cond

    def violation(self, key, msg, trace=None, **kw):
        if 'TOKEN' in key + msg:
            self.rep.violation(key, msg, trace)

    def __getattr__(self, n):
        return getattr(self.rep, n)


def inherited(rep, prog):
    from startp import start_fn
    start = start_fn(prog)
    for k in c10.builders(prog):
        if k in prog.G.reach(start):
            c10.check_builder(Only(rep), prog, k)


def run(rep):
    pkg = Package()
    c18py.Peer(pkg, []).module(c18py.SERVER)
    prog = Prog.get()
    jobs = [lambda r, c=c: c18py.python(r, pkg, c) for c in ('given', 'environment')]
    jobs.append(lambda r: c18py.python_tls(r, pkg))
    jobs += [lambda r, c=c, t=t: rust(r, prog, c, t) for c in (0, 1) for t in (0, 1) if (c, t) != (0, 1)]
    jobs.append(lambda r: (url(r, prog), verification(r, prog), inherited(r, prog)))
    rep.parallel(jobs)
    return __doc__ + """ The server's connection handler, interpreted from the sources while another agent is connected: the peer's first message is arbitrary (nothing, garbage, any message,
        a registration with an arbitrary token, as the connected agent or a new one); unless the path has established that the token equals the configured one, nothing may be
        sent or delivered, no record may change and the socket is closed.  No log message on any path contains a token.  The server's socket has a TLS context on every
        configuration.  The agent's connecting function is interpreted for each configuration of certificate and token: it dials its connection's address with a TLS
        connector built from a builder that nothing weakens and to which at most the configured certificate was added; the token reaches only the encoded registration:
        every formatting of a term that contains it is followed into the Debug implementation.  The connection's address is formatted to begin with wss://."""
