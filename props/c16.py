"""C16: each agent request gets the right answer, about the right process."""
from handlers import *

IN = 'procstar::proto::IncomingMessage'
OUT = 'procstar::proto::OutgoingMessage'
EFFECTS = ('map ', 'notify', 'watch')


def strip(n):
    while n is not None and n.k == 'ref' and n.a[0][0] in 'VD' and not n.a[1]:
        n = n.a[0][1]
    return n


class Msgs:
    """Names of the variants and fields of the two message types."""

    def __init__(self, P):
        self.P = P

    def field(self, term, adt, variant, name):
        """A field of a message."""
        vi = variant_index(self.P, adt, variant)
        fs = self.P.tdef[adt]['variants'][vi]['fields']
        for i, f in enumerate(fs):
            if f[0] == name:
                if term.k == 'agg':
                    return strip(term.a[2][i])
                return mk('fld', term, vi, i)
        raise Missing('no field %s of message %s' % (name, variant))

    def variant(self, term):
        if term.k == 'agg' and term.a[0] == OUT:
            return self.P.tdef[OUT]['variants'][term.a[1] or 0]['name']
        return None


def not_running(eng, st, rec, h, P):
    """Whether a record was found to be of a process that is not running."""
    if eng.variant(st, mk('fld', rec, 0, h.WAIT)) == 1:
        return True
    ei = field_index(P, 'procstar::procs::Proc', 'errors')
    e = mk('fld', rec, 0, ei)
    lo, hi, _ = eng.rng(st, op('len', e))
    return lo >= 1


def run(rep):
    prog = Prog.get()
    P = prog.P
    h = Handlers(prog)
    key = h.agent_fn()
    ms = Msgs(P)
    m = h.run(key, rep=rep)
    M = h.argname(key, IN)
    eng = m.eng
    names = [v['name'] for v in P.tdef[IN]['variants']]
    seen = {}
    for p in m.paths:
        st = p.st
        if not rep.require(p.kind == 'return', 'handler end: ' + p.kind, 'the handler of agent requests ends by %s' % p.kind, p.trace):
            continue
        vs = variants(eng, st, M, len(names))
        r = p.result
        if r.k != 'agg' or r.a[0] != OPT:
            rep.violation('answer unknown', 'an answer cannot be determined: %s' % show(r, 5), p.trace)
            continue
        ans = strip(r.a[2][0]) if r.a[1] == 1 else None
        for v in vs:
            if names[v] not in RULES:
                rep.violation('request unknown: ' + names[v], 'no answer is documented for request %s' % names[v], p.trace)
                continue
            seen.setdefault(names[v], []).append(p)
            R(rep, h, ms, p, eng, M, names[v], ans).check()
    for n in names:
        rep.require(n in seen, 'request not handled: ' + n, 'no path handles request %s' % n)
    for n, need in OUTCOMES.items():
        got = {R.label(ms, p) for p in seen.get(n, ())}
        for x in need:
            rep.require(x in got, 'outcome missing: %s %s' % (n, x), 'request %s is never answered by %s' % (n, x))
    listing(rep, prog, h, ms, key)
    from c16loop import loop
    loop(rep, prog, h, key)
    rep.note(handler_paths=len(m.paths), paths_by_request={k: len(v) for k, v in seen.items()})
    return __doc__ + """ Path-sensitive abstract interpretation of the request handler: the summary of each path (conditions, operations with their
        arguments, answer) is matched against the documented protocol, per request type: which operation, on the record found under exactly the
        requested ID, which answer, with which fields, and no effect when an error is answered.  With an arbitrary process W in the table, the list of
        processes must include W."""


OUTCOMES = {'ProcStartRequest': ['none', 'RequestError'], 'ProcidListRequest': ['ProcidList'], 'ProcResultRequest': ['ProcResult', 'ProcUnknown'],
            'ProcSignalRequest': ['none', 'RequestError', 'ProcUnknown'], 'ProcFdDataRequest': ['ProcFdData', 'RequestError', 'ProcUnknown'],
            'ProcDeleteRequest': ['none', 'RequestError', 'ProcUnknown'], 'Registered': ['RequestError']}


class R:
    """The rules for one path and request."""

    def __init__(self, rep, h, ms, p, eng, M, req, ans):
        self.rep, self.h, self.ms, self.p, self.eng, self.M, self.req, self.ans = rep, h, ms, p, eng, M, req, ans
        self.av = ms.variant(ans) if ans is not None else 'none'

    @staticmethod
    def label(ms, p):
        r = p.result
        return ms.variant(strip(r.a[2][0])) if r.a[1] == 1 else 'none'

    def need(self, cond, key, msg):
        return self.rep.require(cond, '%s: %s' % (self.req, key), msg + ' (%s)' % self.p.show(5)[:400], self.p.trace)

    def arg(self, name):
        return self.ms.field(self.M, IN, self.req, name)

    def out(self, name):
        return self.ms.field(self.ans, OUT, self.av, name)

    def is_error(self):
        """The answer must echo the request, with a reason, and nothing may have been done."""
        self.need(self.out('msg') is self.M, 'request not echoed', 'the request error does not echo the original request')
        e = self.out('err')
        self.need(e.k != 'undef' and not (e.k == 'str' and not e.a[0]), 'no reason', 'the request error gives no reason')
        self.nothing('a refused request')

    def nothing(self, what):
        for e in self.p.evs:
            self.need(not e[0].startswith(EFFECTS) and not e[0].endswith(' ok'), 'effect of failure', '%s has an effect: %s' % (what, e[0]))

    def ops(self, *labels):
        """The operations on the path, all of which must be of these."""
        for e in self.p.evs:
            self.need(e[0].split(' ')[0] in labels, 'other operation', 'the request does something else: %s' % e[0])
        return [e for e in self.p.evs]

    def record(self):
        """The record under the requested ID."""
        return lambda n: any_node(n, lambda x: x.k == 'op' and x.a[0] == 'map_val' and x.a[1][1] is self.arg('proc_id')) is not None and any_node(
            n, lambda x: x.k == 'op' and x.a[0] == 'map_val' and x.a[1][1] is not self.arg('proc_id')) is None

    def found(self):
        return found(self.eng, self.p.st, self.arg('proc_id'))

    def unknown(self):
        self.need(self.out('proc_id') is self.arg('proc_id'), 'unknown: other id', 'the unknown-process message names another process')
        self.need(self.found() is False, 'unknown: but known', 'a process is reported as unknown without having been looked up in vain')
        self.nothing('a request about an unknown process')

    def known(self):
        self.need(self.found() is True, 'not found', 'the request is carried out without the process having been found')

    def check(self):
        RULES[self.req](self)

    def unexpected(self):
        self.need(False, 'answer ' + str(self.av), 'the request is answered by %s' % self.av)


def registered(r):
    if r.av == 'RequestError':
        r.is_error()
    else:
        r.unexpected()


def start(r):
    evs = r.ops('start')
    ok_ = [e for e in evs if e[0] == 'start ok']
    bad = [e for e in evs if e[0] == 'start err']
    for e in evs:
        r.need(strip(e[1][0]) is r.arg('specs'), 'other specs', 'what is started is not what was requested: %s' % show(e[1][0], 4))
    if r.av == 'none':
        r.need(len(ok_) == 1 and not bad, 'start lost', 'a start request is accepted without the processes having been started exactly once')
    elif r.av == 'RequestError':
        r.is_error()
        r.need(len(evs) == 1, 'not tried', 'a start request is refused without having been tried')
        r.need(any_node(r.out('err'), lambda n: n is sym('start error')) is not None, 'other reason', 'the reason given is not why the start failed')
    else:
        r.unexpected()


def lst(r):
    r.ops()
    if r.av != 'ProcidList':
        r.unexpected()


def result(r):
    r.ops('result')
    if r.av == 'ProcResult':
        r.known()
        r.need(r.out('proc_id') is r.arg('proc_id'), 'other id', 'the result carries another process ID')
        res = r.out('res')
        r.need(res.k == 'res' and res.a[0].split('::')[-1] in {x.split('::')[-1] for x in r.h.results} and r.record()(strip(res.a[2][0])), 'other result',
               'the result is not that of the requested process: %s' % show(res, 5))
    elif r.av == 'ProcUnknown':
        r.unknown()
    else:
        r.unexpected()


def signal(r):
    evs = r.ops(*KILLS)
    for e in evs:
        t = strip(e[1][0])
        r.need(t.k == 'fld' and t.a[2] == r.h.PID and r.record()(t.a[0]), 'other pid', 'the signal is not sent to the pid of the requested process: %s' % show(t, 5))
        r.need(strip(e[1][1]) is r.arg('signum'), 'other signal', 'the signal sent is not the one requested: %s' % show(e[1][1], 4))
    if r.av == 'none':
        r.known()
        r.need([e[0] for e in evs] == ['kill ok'], 'not sent', 'a signal request is accepted without the signal having been sent once')
    elif r.av == 'RequestError':
        r.known()
        r.is_error()
    elif r.av == 'ProcUnknown':
        r.need(not evs, 'sent', 'a signal is sent though the process is reported as unknown')
        r.unknown()
    else:
        r.unexpected()


def fddata(r):
    evs = r.ops('data')
    if r.av == 'ProcFdData':
        r.known()
        for f in ('proc_id', 'fd', 'start'):
            r.need(r.out(f) is r.arg(f), 'other ' + f, 'the data message has another %s: %s' % (f, show(r.out(f), 5)))
        d = r.out('data')
        src = any_node(d, lambda n: n.k == 'res' and n.a[0].split('::')[-1] in {x.split('::')[-1] for x in r.h.datas})
        if not r.need(src is not None and d.k == 'fld', 'data', 'the data is not what the process\'s descriptor returned: %s' % show(d, 5)):
            return
        enc = r.out('encoding')
        r.need(enc.k == 'fld' and enc.a[0] is d.a[0], 'encoding', 'the encoding is not that of the data')
        st = r.out('stop')
        r.need(st.k == 'op' and st.a[0] == 'Add' and set(st.a[1]) == {r.arg('start'), op('len', d)}, 'stop',
               'the end is not the start plus the length of the data: %s' % show(st, 5))
        h, a, b = [strip(x) for x in src.a[2][:3]]
        r.need(a is r.arg('start'), 'range start', 'the data is not read from the requested start: %s' % show(a, 4))
        rs = r.arg('stop')
        v = r.eng.variant(r.p.st, rs)
        good = b is rs or v == 0 and b is NONE or v == 1 and b.k == 'agg' and b.a[1] == 1 and strip(b.a[2][0]) is mk('fld', rs, 1, 0)
        r.need(good, 'range stop', 'the data is not read to the requested stop: %s' % show(b, 4))
        r.need(r.record()(h), 'other process', 'the data is of another process: %s' % show(h, 5))
        fdsel(r, h)
    elif r.av == 'RequestError':
        r.is_error()
        r.need(r.found() is not False, 'unknown process', 'a request about an unknown process is answered by a request error')
        for e in evs:
            t = e[1][-1]
            r.need(not (r.eng.variant(r.p.st, t) == 0 and r.eng.variant(r.p.st, mk('fld', t, 0, 0)) == 1), 'refused', 'a request for data is refused though there is data')
    elif r.av == 'ProcUnknown':
        r.unknown()
    else:
        r.unexpected()


def fdsel(r, h):
    """The descriptor whose data is taken is that which was named."""
    fd = r.arg('fd')
    num = mk('fld', h.a[0], h.a[1], 0) if h.k == 'fld' else None
    good = False
    for t, f in r.p.facts.items():
        if t.k == 'op' and t.a[0] == 'Eq' and num in t.a[1] and f == ('r', 1, 1, EMPTY):
            x = t.a[1][0] if t.a[1][1] is num else t.a[1][1]
            std = [(i, n) for i, n in enumerate(('stdin', 'stdout', 'stderr')) if r.eng.truth(r.p.st, op('Eq', fd, S(n))) == 1]
            if std:
                good = x is I(std[0][0])
            else:
                good = any_node(x, lambda n: n is fd) is not None and any_node(x, lambda n: n.k in ('op', 'res') and 'parse' in str(n.a[0])) is not None
    r.need(good, 'other fd', 'the data is not of the descriptor that was named: %s' % show(h, 5))


def delete(r):
    evs = r.ops('map', 'notify', 'watch')
    rem = [e for e in evs if e[0] in ('map remove', 'map remove_entry')]
    for e in evs:
        if e[0].startswith('map') and r.h.table(e[0], e[1]):
            r.need(e in rem and strip(e[1][1]) is r.arg('proc_id'), 'other removed', 'the request removes something else: %s' % show(e[1][-1], 4))
    if r.av == 'none':
        r.known()
        r.need(len(rem) == 1, 'not deleted', 'a delete request is accepted without the process having been deleted')
    elif r.av == 'RequestError':
        r.known()
        r.is_error()
        vs = set()
        for t in r.p.facts:
            any_node(t, lambda x: x.k == 'cont' and x.a[0].k == 'op' and x.a[0].a[0] == 'map_val' and x.a[0].a[1][1] is r.arg('proc_id') and vs.add(x) is None and False)
        r.need(not any(not_running(r.eng, r.p.st, v, r.h, r.h.prog.P) for v in vs), 'refused', 'deletion of a process that is not running is refused')
    elif r.av == 'ProcUnknown':
        r.unknown()
    else:
        r.unexpected()


RULES = {'Registered': registered, 'ProcStartRequest': start, 'ProcidListRequest': lst, 'ProcResultRequest': result, 'ProcSignalRequest': signal,
         'ProcFdDataRequest': fddata, 'ProcDeleteRequest': delete}


def listing(rep, prog, h, ms, key):
    """With an arbitrary process W in the table, its ID is in the list, and nothing is that is not a key of the table."""
    args, cells = with_witness(prog, key)
    M = h.argname(key, IN)
    vi = variant_index(prog.P, IN, 'ProcidListRequest')
    m = h.run(key, rep=rep, args=args, cells=cells)
    n = 0
    for p in m.paths:
        if p.facts.get(M) != ('v', vi) or p.result.k != 'agg' or p.result.a[1] != 1:
            continue
        ans = strip(p.result.a[2][0])
        if ms.variant(ans) != 'ProcidList':
            continue
        n += 1
        ids = ms.field(ans, OUT, 'ProcidList', 'proc_ids')
        inc = ids.k == 'seq' and any(s[0] == 'one' and any_node(s[-1], lambda x: x is sym('W:id')) is not None for s in ids.a[0])
        rep.require(inc, 'list incomplete', 'the list of processes leaves out some process: %s' % show(ids, 6), p.trace)
        if ids.k == 'seq':
            for s in ids.a[0]:
                okk = s[0] == 'star' or any_node(s[-1], lambda x: x is sym('W:id') or x is sym('table') or x.k == 'elem') is not None
                rep.require(okk, 'list invents', 'the list has an ID that is not of the table: %s' % show(ids, 6), p.trace)
    rep.require(n > 0, 'list not analysed', 'no path answers with a list')
