"""C19: the agent registers, stays connected and gives up as configured."""
from agentloop import *
from c16 import strip, Msgs, OUT, IN


def isdial(path):
    return 'connect_async' in path and '{' not in path


def encoded(term):
    """The message that a term to be sent is the encoding of."""
    e = any_node(term, lambda x: x.k in ('op', 'res') and 'rmp_serde' in x.a[0] and 'to_vec' in x.a[0])
    if e is None:
        return None
    a = e.a[1] if e.k == 'op' else e.a[2]
    return strip(a[0])


def registers(rep, prog, parts):
    """The connecting function: dial, register, be confirmed."""
    P = prog.P
    key = parts.connect
    if key is None:
        raise Missing('no function that connects and registers')
    ms = Msgs(P)

    def want(path, c):
        return 'dial' if isdial(path) else 'send' if issend(path) else 'next' if isnext(path) else 'decode' if 'rmp_serde' in path and 'from_slice' in path else None

    def act(eng, st, label, c, path, vals):
        # With its result, so that what is found out about that is kept.
        if label == 'decode':
            r = eng.fresh(st, path, eng.site(st), *[models.value(eng, st, v) for v in vals])
            eng.monitors[0].add(st, 'decoded', [r])
            return r
        return None
    rel = lambda x: isdial(x) or issend(x) or isnext(x) or 'BTreeMap' in x or 'watch::' in x or 'rmp_serde' in x
    args, cells = with_witness(prog, key)
    m = paths(prog, key, want, act=act, args=args, cells=cells, max_states=300000, opaque=prog.opaque(rel, leaves=True), rep=rep)
    n = {'ok': 0, 'err': 0}
    REG = variant_index(P, IN, 'Registered')
    for p in m.paths:
        eng = m.engine
        evs = p.evs
        r = p.result
        if not rep.require(p.kind == 'return' and r is not None and r.k == 'agg' and r.a[0] == RES, 'connect end', 'connecting ends by %s' % p.kind, p.trace):
            continue
        decs = [e[1][0] for e in evs if e[0] == 'decoded']
        labels = [l for l in p.labels() if not l.startswith('decode')]
        sends = [e for e in evs if e[0] == 'send']
        rep.require(labels.count('dial') <= 1 and labels[:1] in ([], ['dial']), 'dial', 'connecting does not begin by connecting, once: %s' % labels, p.trace)
        if sends:
            g = encoded(sends[0][1][-1])
            if rep.require(g is not None and ms.variant(g) == 'Register', 'first message', 'the first message sent is not the registration: %s' % (
                    ms.variant(g) if g is not None else show(sends[0][1][-1], 4)), p.trace):
                ids = ms.field(g, OUT, 'Register', 'proc_ids')
                rep.require(any_node(ids, lambda x: x is sym('W:id')) is not None, 'process IDs', 'the registration does not have the ID of every process: %s' % show(ids, 6), p.trace)
                s = ms.field(g, OUT, 'Register', 'shutdown_state')
                rep.require(any_node(s, iswatched) is not None or s.k == 'old' and iswatched(s.a[0]), 'shutdown state', 'the registration does not have the present shutdown state: %s' % show(s, 6), p.trace)
                for fl, ad in (('conn', 'ConnectionInfo'), ('proc', 'ProcessInfo')):
                    x = ms.field(g, OUT, 'Register', fl)
                    rep.require(any_node(x, lambda y: y.k == 'sym') is not None, 'registration: ' + fl, 'the registration has other %s' % fl, p.trace)
            rep.require(len(sends) == 1, 'sends more', 'more than the registration is sent before it is confirmed', p.trace)
            if 'next' in labels:
                rep.require(labels.index('send') < labels.index('next'), 'awaits first', 'the answer is awaited before the registration is sent', p.trace)
        if r.a[1] == 1:
            n['err'] += 1
            continue
        n['ok'] += 1
        if not rep.require(labels == ['dial', 'send', 'next'], 'order', 'connecting succeeds after %s instead of connecting, registering and being confirmed' % labels, p.trace):
            continue
        okk = any(eng.variant(p.st, t) == 0 and eng.variant(p.st, mk('fld', t, 0, 0)) == REG for t in decs)
        rep.require(okk, 'not confirmed', 'connecting succeeds although the answer was not found to be the confirmation of registration', p.trace)
        sent = [t for t in p.facts if t.k == 'res' and t.a[0] == 'await' and any_node(t, lambda x: x.k in ('op', 'res') and issend(str(x.a[0]))) is not None]
        rep.require(not any(eng.variant(p.st, t) == 1 for t in sent), 'send failed', 'connecting succeeds although the registration could not be sent', p.trace)
    for k in n:
        rep.require(n[k], 'connect: no ' + k, 'no path of connecting ends in %s' % k)
    rep.note(connect_paths=len(m.paths))


def run(rep):
    prog = Prog.get()
    parts, m = explore(rep, prog, 'C19')
    registers(rep, prog, parts)
    return __doc__ + """ The connecting function: on every path it connects, sends as first message a registration with the ID of an arbitrary process of
        the table and the shutdown state, and succeeds only after an answer that decodes as confirmation.  The connection loop, for all outcomes of each operation
        and any number of rounds: notifications are subscribed to before the registration snapshot is taken; after a failure it waits the initial interval
        if the last attempt succeeded, else the previous one times the multiplier, compared with the maximum; it ends with an error only on a failed attempt
        after the count was compared with the maximum, and without error only if shutdown was found done."""
