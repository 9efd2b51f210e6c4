from agentloop import *


def loop(rep, prog, h, key):
    """The connection loop hands every message that it receives to the handler, and sends every answer; the wrapper of the handler decodes and encodes."""
    parts, m = explore(rep, prog, 'C16')
    if parts.wrap != parts.key:
        wrapper(rep, prog, parts)


def wrapper(rep, prog, parts):
    P = prog.P
    key = parts.key
    msg = None
    V = [v['name'] for v in P.tdef[MSG]['variants']]

    def want(path, c):
        if c.get('key') == key:
            return 'handle'
        return None
    m = paths(prog, parts.wrap, want, opaque=lambda k: k == key, max_states=100000, rep=rep, awaits=(key,))
    f = prog.fns[parts.wrap]
    M = next(a for i, a in enumerate(default_args(prog, parts.wrap), 1) if P.types[f['locals'][i]]['s'] == MSG)
    n = {}
    for p in m.paths:
        eng = m.engine
        v = eng.variant(p.st, M)
        name = V[v] if v is not None else 'other'
        hs = [e for e in p.evs if e[0] == 'handle']
        r = p.result
        s = p.show(5)[:300]
        if not rep.require(p.kind == 'return' and r.k == 'agg' and r.a[0] == RES, 'wrapper end', 'handling a message ends by %s' % s, p.trace):
            continue
        if name == 'Binary':
            pay = mk('fld', M, v, 0)
            dec = [t for t in p.facts if t.k in ('op', 'res') and 'from_slice' in t.a[0] and any_node(t, lambda x: x is pay) is not None]
            bad = any(eng.variant(p.st, t) == 1 for t in dec)
            if bad:
                n['undecodable'] = n.get('undecodable', 0) + 1
                rep.require(r.a[1] == 0 and r.a[2][0] is NONE and not hs, 'undecodable message', 'an undecodable message is not just survived: %s' % s, p.trace)
                continue
            if not rep.require(len(hs) == 1 and any(any_node(a, lambda x: x.k == 'fld' and x.a[0].k in ('op', 'res') and 'from_slice' in x.a[0].a[0] and any_node(
                    x, lambda y: y is pay) is not None) is not None for a in hs[0][1]), 'request not handled once',
                    'a request that was received is not handled exactly once, as decoded: %s' % s, p.trace):
                continue
            ans = next((e[1][1] for e in p.evs if e[0] == 'await'), None)
            av = eng.variant(p.st, ans) if ans is not None else None
            if av == 0:
                n['no answer'] = n.get('no answer', 0) + 1
                rep.require(r.a[1] == 0 and r.a[2][0] is NONE, 'answer invented', 'an answer is sent to a request that has none: %s' % s, p.trace)
            elif av == 1:
                if r.a[1] == 0:
                    n['answer'] = n.get('answer', 0) + 1
                    a1 = mk('fld', ans, 1, 0)
                    e = any_node(r, lambda x: x.k in ('op', 'res') and 'rmp_serde' in x.a[0] and 'to_vec' in x.a[0])
                    arg = (e.a[1] if e.k == 'op' else e.a[2]) if e is not None else ()
                    rep.require(e is not None and any(x is a1 for x in arg) and r.a[2][0].k == 'agg' and r.a[2][0].a[1] == 1, 'answer changed',
                                'what is sent is not the encoding of the answer: %s' % s, p.trace)
                    rep.require(e is None or 'to_vec_named' in e.a[0], 'answer encoding', 'answers are not encoded as maps by name: %s' % s, p.trace)
                else:
                    rep.require(any_node(r, lambda x: x.k in ('op', 'res') and 'to_vec' in x.a[0]) is not None, 'answer lost', 'an answer is not sent: %s' % s, p.trace)
            else:
                rep.violation('answer ignored', 'the answer to a request is ignored: %s' % s, p.trace)
        else:
            rep.require(not hs, 'handled: ' + name, 'a message that is not a request is handled: %s' % s, p.trace)
            if name == 'Ping':
                n['ping'] = n.get('ping', 0) + 1
                x = r.a[2][0]
                rep.require(r.a[1] == 0 and any_node(r, lambda y: y.k == 'agg' and y.a[0] == MSG and V[y.a[1] or 0] == 'Pong' and y.a[2][0] is mk('fld', M, v, 0)) is not None,
                            'ping', 'a ping is not answered by a pong with its payload: %s' % s, p.trace)
    for k in ('undecodable', 'no answer', 'answer'):
        rep.require(n.get(k), 'wrapper: no ' + k, 'no path of the message handler has %s' % k)
    rep.note(message_paths=len(m.paths))
