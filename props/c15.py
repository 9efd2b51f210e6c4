"""C15: the HTTP service answers every request as documented."""
from handlers import *
from c16 import strip, not_running

ROUTES = {'/procs': ('GET', 'POST'), '/procs/:id': ('GET', 'DELETE'), '/procs/:id/signals/:signum': ('POST',), '/procs/:id/output/:fd/data': ('GET',)}
PARTS = 'http::request::Parts'
METHODS = 'http::method::Inner'
NAMES = {'GET': 'Get', 'POST': 'Post', 'DELETE': 'Delete', 'PUT': 'Put', 'HEAD': 'Head', 'OPTIONS': 'Options', 'PATCH': 'Patch'}


def norm(pattern):
    """A route pattern, with parameters by position."""
    return tuple('*' if x[:1] in ':{' else x for x in pattern.strip('/').split('/'))


def calls(n, last):
    """Terms that are results of calls of functions with a last name."""
    return n.k in ('op', 'res') and (n.a[0] == last or str(n.a[0]).endswith('::' + last))


def cargs(n):
    return n.a[1] if n.k == 'op' else n.a[2]


def router(rep, prog):
    """The route patterns and the values they are matched to."""
    P = prog.P
    fs = [k for k, f in prog.fns.items() if prog.local(k) and any('matchit' in x and x.endswith('::insert') for x in prog.G.ext[k])]
    if not fs:
        raise Missing('no function that inserts routes')
    r = []
    for k in sorted(fs):
        m = paths(prog, k, lambda path, c: 'insert' if 'matchit' in path and path.endswith('::insert') else None, rep=rep)
        best = max((p for p in m.paths if p.kind == 'return'), key=lambda p: len(p.evs), default=None)
        for e in best.evs if best else ():
            pat, v = strip(e[1][1]), strip(e[1][2])
            if pat.k == 'str' and (v.k == 'int' or v.k == 'agg'):
                r.append((pat.a[0], v.a[0] if v.k == 'int' else v.a[1] or 0))
            else:
                rep.violation('route unknown', 'a route cannot be determined: %s' % show(pat, 4))
    return r


class H:
    """What each path of the dispatcher answers, and to what."""

    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        P = self.P = prog.P
        self.h = Handlers(prog)
        self.key = self.h.http_fn()
        self.routes = router(rep, prog)
        self.midx = field_index(P, PARTS, 'method')
        # Of the http crate, in its order.
        self.mnames = [v['name'] for v in P.tdef[METHODS]['variants']] if METHODS in P.tdef else [
            'Options', 'Get', 'Post', 'Put', 'Delete', 'Head', 'Trace', 'Connect', 'Patch', 'ExtensionInline', 'ExtensionAllocated']

    def run(self, **kw):
        return self.h.run(self.key, rep=self.rep, **kw)

    def route(self, p):
        """Possible patterns for a path: a list, [] if the path was found not to match; None if it was not matched."""
        at = next((t for t in p.facts if calls(t, 'at') and 'path' in show(t, 4)), None)
        if at is None:
            at = next((t for f in p.facts for t in [any_node(f, lambda n: calls(n, 'at') and 'path' in show(n, 4))] if t is not None), None)
        if at is None:
            return None
        self.at = at
        v = p.st and self.eng.variant(p.st, at)
        if v == 1:
            return []
        val = mk('fld', mk('fld', at, 0, 0), 0, field_index(self.P, 'matchit::router::Match', 'value'))
        r = []
        self.value = val
        dv = self.eng.variant(p.st, val)
        lo, hi, ex = self.eng.rng(p.st, val)
        for pat, x in self.routes:
            if dv is not None and dv != x:
                continue
            f = p.facts.get(val)
            if f and f[0] == 'nv' and x in f[1]:
                continue
            if lo <= x <= hi and x not in ex:
                r.append(pat)
        return r

    def methods(self, p):
        """Possible methods on a path."""
        r = set(self.mnames)
        for t in p.facts:
            n = t
            if n.k == 'fld' and n.a[1:] == (0, 0):
                n = n.a[0]
            if n.k == 'op' and n.a[0] == 'discr':
                n = n.a[1][0]
            if n is not t and (n.k == 'fld' and n.a[1:] == (0, self.midx) and n.a[0].k == 'fld' and calls(n.a[0].a[0], 'into_parts') or calls(n, 'method')):
                r &= {self.mnames[i] for i in variants(self.eng, p.st, t, len(self.mnames))}
        return r

    def status(self, r):
        s = any_node(r, lambda n: calls(n, 'status') and len(cargs(n)) > 1)
        if s is None:
            n = any_node(r, lambda n: n.k == 'agg' and 'StatusCode' in str(n.a[0]))
        else:
            n = strip(cargs(s)[1])
        i = any_node(n, lambda x: x.k == 'int') if n is not None else None
        return i.a[0] if i is not None else None

    def body(self, r):
        b = any_node(r, lambda n: calls(n, 'body') and len(cargs(n)) > 1)
        return strip(cargs(b)[1]) if b is not None else r

    def ctype(self, r):
        hd = any_node(r, lambda n: calls(n, 'header') and len(cargs(n)) > 2)
        c = strip(cargs(hd)[2]) if hd is not None else None
        s = any_node(c, lambda n: n.k == 'str') if c is not None else None
        return s.a[0] if s is not None else None

    def is_param(self, n, pos, pattern):
        """Whether a term is a parameter of the path, by its position in the pattern."""
        name = pattern.strip('/').split('/')[pos].strip(':{}*')
        return any_node(n, lambda x: calls(x, 'get') and len(cargs(x)) > 1 and any_node(cargs(x)[0], lambda y: y is self.at) is not None
                        and strip(cargs(x)[1]) is S(name)) is not None

    def param(self, p, pos, pattern):
        name = pattern.strip('/').split('/')[pos].strip(':{}*')
        for t in p.facts:
            x = any_node(t, lambda x: calls(x, 'get') and len(cargs(x)) > 1 and any_node(cargs(x)[0], lambda y: y is self.at) is not None
                         and any_node(cargs(x)[1], lambda y: y is S(name)) is not None)
            if x is not None:
                return mk('fld', x, 1, 0)
        return None


class R:
    """The rules for one path."""

    def __init__(self, hh, p, pattern, method):
        self.hh, self.p, self.pattern, self.method = hh, p, pattern, method
        self.eng = hh.eng
        self.s = hh.status(p.result)
        self.name = '%s %s' % (method, pattern)

    def need(self, cond, key, msg):
        return self.hh.rep.require(cond, '%s: %s' % (self.name, key), msg + ' (%s)' % self.p.show(5)[:400], self.p.trace)

    def nothing(self):
        for e in self.p.evs:
            self.need(not e[0].startswith(('map ', 'notify', 'watch')) and not e[0].endswith(' ok'), 'effect of failure', 'a request that fails has an effect: %s' % e[0])

    def only(self, *labels):
        for e in self.p.evs:
            self.need(e[0].split(' ')[0] in labels, 'other operation', 'the request does something else: %s' % e[0])

    def id(self):
        return self.hh.param(self.p, 1, self.pattern)

    def found(self):
        i = self.id()
        return found(self.eng, self.p.st, i) if i is not None else None

    def record(self, n):
        i = self.id()
        return any_node(n, lambda x: x.k == 'op' and x.a[0] == 'map_val' and x.a[1][1] is i) is not None and any_node(
            n, lambda x: x.k == 'op' and x.a[0] == 'map_val' and x.a[1][1] is not i and any_node(x.a[1][0], lambda y: y is sym('procs')) is not None) is None

    def common(self):
        """Failures; whether it is a success."""
        s = self.s
        if not self.need(s is not None, 'no status', 'the status of an answer cannot be determined'):
            return False
        if s >= 500:
            # Only if the answer cannot be encoded.
            self.need(any(f == ('v', 1) and (calls(t, 'to_string') or calls(t, 'to_value')) for t, f in self.p.facts.items()), 'internal error',
                      'a request is answered by %d though the answer could be encoded' % s)
            return False
        if 200 <= s < 300:
            self.need(s == 200, 'success status', 'success is reported by status %d' % s)
            return True
        self.need(400 <= s < 500, 'status %d' % s, 'a request is answered by status %d' % s)
        self.nothing()
        self.need(s != 405, '405', 'a documented method is answered by 405')
        if s == 404:
            self.need('/:id' in self.pattern and self.found() is False, '404', 'a request is answered by 404 though the process was not looked up in vain')
        else:
            self.need('/:id' not in self.pattern or self.found() is not False, 'unknown process', 'a request about an unknown process is answered by %d' % s)
            b = self.hh.body(self.p.result)
            none = any_node(b, lambda n: calls(n, 'to_value') and strip(cargs(n)[0]) is NONE)
            self.need(none is None, 'no message', 'a refused request is answered without an error message')
        return False


def procs_get(r):
    r.only('result')
    if r.common():
        pass
    else:
        r.need(r.s >= 500, 'refused', 'listing processes is refused')


def procs_post(r):
    r.only('start')
    st = [e for e in r.p.evs]
    good = r.common()
    hh = r.hh
    for e in st:
        a = strip(e[1][0])
        d = any_node(a, lambda n: calls(n, 'from_slice') or calls(n, 'from_reader') or calls(n, 'from_str'))
        r.need(d is not None and 'serde_json' in str(d.a[0]) and any_node(d, lambda n: n.k == 'res' and n.a[0] == 'await' or calls(n, 'collect')) is not None, 'other specs',
               'what is started is not what the request body says: %s' % show(a, 5))
        ct = [t for t, f in r.p.facts.items() if t.k == 'op' and t.a[0] in ('Eq', 'Ne') and any(strip(x) is S('application/json') for x in t.a[1])
              and f[:3] == (('r', 1, 1) if t.a[0] == 'Eq' else ('r', 0, 0))]
        r.need(ct, 'content type', 'processes are started though the content type was not found to be JSON')
    if good:
        r.need([e[0] for e in st] == ['start ok'], 'not started', 'starting is answered by success without the processes having been started once')
    else:
        for e in st:
            b = hh.body(r.p.result)
            r.need(r.s >= 500 or any_node(b, lambda n: n is sym('start error')) is not None, 'other reason', 'the error message is not why the start failed')


def records(r):
    """The record of the process named, as it was looked at."""
    i = r.id()
    vs = set()
    for t in r.p.facts:
        any_node(t, lambda x: x.k == 'cont' and x.a[0].k == 'op' and x.a[0].a[0] == 'map_val' and x.a[0].a[1][1] is i and vs.add(x) is None and False)
    return vs


def id_get(r):
    r.only('result')
    r.need(r.found() is not True or r.s == 200 or r.s >= 500, 'refused', 'a request for the result of a process is refused')
    if r.common():
        r.need(r.found() is True, 'not found', 'a process is answered without having been found')
        b = r.hh.body(r.p.result)
        res = any_node(b, lambda n: n.k == 'res' and n.a[0].split('::')[-1] in {x.split('::')[-1] for x in r.hh.h.results})
        r.need(res is not None and r.record(strip(res.a[2][0])), 'other result', 'the result is not that of the process named: %s' % (show(res, 5) if res is not None else None))
        i = r.id()
        r.need(any_node(b, lambda n: calls(n, 'json') and any(any_node(x, lambda y: y is i) is not None for x in cargs(n)[1:2])) is not None
               or any_node(b, lambda n: n is i) is not None, 'other id', 'the result is not given under the ID of the process')


def id_delete(r):
    r.only('map', 'notify', 'watch')
    i = r.id()
    rem = [e for e in r.p.evs if e[0] in ('map remove', 'map remove_entry')]
    for e in r.p.evs:
        if e[0].startswith('map') and r.hh.h.table(e[0], e[1]):
            r.need(e in rem and strip(e[1][1]) is i, 'other removed', 'the request removes something else: %s' % show(e[1][-1], 4))
    if r.common():
        r.need(r.found() is True and len(rem) == 1, 'not deleted', 'deletion is answered by success without the process having been removed')
        for e in rem:
            r.need(any(not_running(r.eng, r.p.st, v, r.hh.h, r.hh.P) for v in records(r)), 'running', 'a process is removed without having been found not to be running')
    elif r.found() is True and r.s is not None and r.s < 500:
        r.need(not any(not_running(r.eng, r.p.st, v, r.hh.h, r.hh.P) for v in records(r)), 'refused', 'deletion of a process that is not running is refused')
        r.need(r.s == 409, 'not a conflict', 'deletion of a running process is answered by %d instead of 409' % r.s)


def signal(r):
    r.only(*KILLS)
    for e in r.p.evs:
        t = strip(e[1][0])
        r.need(t.k == 'fld' and t.a[2] == r.hh.h.PID and r.record(t.a[0]), 'other pid', 'the signal is not sent to the pid of the process named: %s' % show(t, 5))
        sg = strip(e[1][1])
        r.need(r.hh.is_param(sg, 3, r.pattern), 'other signal', 'the signal sent is not the one named: %s' % show(sg, 4))
    if r.common():
        r.need(r.found() is True and [e[0] for e in r.p.evs] == ['kill ok'], 'not sent', 'a signal request is answered by success without the signal having been sent once')
    elif r.found() is True and not r.p.evs and r.s is not None and r.s < 500 and any(r.eng.variant(r.p.st, mk('fld', v, 0, r.hh.h.WAIT)) == 1 for v in records(r)):
        r.need(r.s == 409, 'not a conflict', 'a signal to a process that has terminated is answered by %d instead of 409' % r.s)


def data(r):
    r.only('data')
    if r.common():
        hh = r.hh
        r.need(r.found() is True, 'not found', 'data is answered without the process having been found')
        b = hh.body(r.p.result)
        src = any_node(b, lambda n: n.k == 'res' and n.a[0].split('::')[-1] in {x.split('::')[-1] for x in hh.h.datas})
        ev = [e for e in r.p.evs]
        if not r.need(len(ev) == 1, 'no data', 'data is answered without having been obtained'):
            return
        hd = strip(ev[0][1][0])
        r.need(r.record(hd), 'other process', 'the data is of another process: %s' % show(hd, 5))
        # The whole of it.
        r.need(strip(ev[0][1][1]) is I(0) and strip(ev[0][1][2]) is NONE, 'range', 'not all of the data is answered')
        fdsel(r, hd)
        if src is None:
            t = mk('fld', ev[0][1][-1], 0, 0)
            r.need(r.eng.variant(r.p.st, t) == 0, 'data lost', 'the answer is empty though there is data: %s' % show(b, 4))
            return
        r.need(b.k == 'fld' and b.a[2] == field_index(hh.P, 'procstar::fd::FdData', 'data'), 'data changed', 'the answer is not the data as it is: %s' % show(b, 5))
        enc = mk('fld', b.a[0], b.a[1], field_index(hh.P, 'procstar::fd::FdData', 'encoding'))
        v = r.eng.variant(r.p.st, enc)
        ct = hh.ctype(r.p.result)
        if v == 0:
            r.need(ct == 'application/octet-stream', 'content type', 'data that is not text is answered as %s' % ct)
        elif v == 1:
            r.need(ct is not None and ct.replace(' ', '').lower() == 'text/plain;charset=utf-8', 'content type', 'UTF-8 text is answered as %s' % ct)
        else:
            r.need(False, 'content type', 'the content type does not depend on the encoding')
    elif r.s is not None and r.s < 500:
        for e in r.p.evs:
            r.need(r.eng.variant(r.p.st, e[1][-1]) == 1, 'refused', 'a request for data is refused though there is no error')


def fdsel(r, h):
    """The descriptor whose data is taken is that which was named."""
    num = mk('fld', h.a[0], h.a[1], 0) if h.k == 'fld' else None
    good = False
    for t, f in r.p.facts.items():
        if t.k == 'op' and t.a[0] == 'Eq' and num in t.a[1] and f == ('r', 1, 1, EMPTY):
            x = t.a[1][0] if t.a[1][1] is num else t.a[1][1]
            std = None
            for u, g in r.p.facts.items():
                if u.k == 'op' and u.a[0] == 'Eq' and g == ('r', 1, 1, EMPTY) and any(r.hh.is_param(y, 3, r.pattern) for y in u.a[1]):
                    for i, n in enumerate(('stdin', 'stdout', 'stderr')):
                        if S(n) in [strip(y) for y in u.a[1]]:
                            std = i
            if std is not None:
                good = x is I(std)
            else:
                good = r.hh.is_param(x, 3, r.pattern) and any_node(x, lambda n: n.k in ('op', 'res') and 'parse' in str(n.a[0])) is not None
    r.need(good, 'other fd', 'the data is not of the descriptor that was named: %s' % show(h, 5))


RULES = {('/procs', 'GET'): procs_get, ('/procs', 'POST'): procs_post, ('/procs/:id', 'GET'): id_get, ('/procs/:id', 'DELETE'): id_delete,
         ('/procs/:id/signals/:signum', 'POST'): signal, ('/procs/:id/output/:fd/data', 'GET'): data}
OUTCOMES = {('/procs', 'GET'): {200}, ('/procs', 'POST'): {200, 400}, ('/procs/:id', 'GET'): {200, 404}, ('/procs/:id', 'DELETE'): {200, 404, '4xx'},
            ('/procs/:id/signals/:signum', 'POST'): {200, 404, '4xx'}, ('/procs/:id/output/:fd/data', 'GET'): {200, 404, '4xx'}}


def run(rep):
    prog = Prog.get()
    hh = H(rep, prog)
    known = {norm(k): k for k in ROUTES}
    have = {}
    for pat, v in hh.routes:
        rep.require(norm(pat) in known, 'route: ' + pat, 'route %s is not documented' % pat)
        have[norm(pat)] = pat
    for k in ROUTES:
        rep.require(norm(k) in have, 'route missing: ' + k, 'there is no route %s' % k)
    vals = [v for _, v in hh.routes]
    rep.require(len(set(vals)) == len(vals), 'routes ambiguous', 'two routes have the same number')
    m = hh.run()
    hh.eng = m.eng
    got = {}
    n = 0
    for p in m.paths:
        if not rep.require(p.kind == 'return', 'handler end: ' + p.kind, 'the HTTP handler ends by %s' % p.kind, p.trace):
            continue
        rt = hh.route(p)
        s = hh.status(p.result)
        if rt is None or not rt:
            if s is not None and s >= 500 or rt is not None and hh.eng.variant(p.st, hh.at) != 1:
                # No route has this number.
                continue
            rep.require(rt is not None and s == 404, 'unknown path', 'a request for an unknown path is answered by %s' % s, p.trace)
            for e in p.evs:
                rep.violation('unknown path: effect', 'a request for an unknown path has an effect: %s' % e[0], p.trace)
            continue
        for pat in rt:
            doc = known.get(norm(pat))
            if doc is None:
                continue
            ms = hh.methods(p)
            rest = set(ms)
            for meth in ROUTES[doc]:
                v = NAMES[meth]
                if v not in ms:
                    continue
                rest.discard(v)
                n += 1
                r = R(hh, p, doc, meth)
                r.pattern = pat
                RULES[(doc, meth)](r)
                got.setdefault((doc, meth), set()).add(r.s)
            if rest and not (s is not None and s >= 500):
                rep.require(s == 405 or rest <= {'Head', 'Options'}, 'other method: ' + doc, 'method %s on %s is answered by %s' % (sorted(rest)[0], doc, s), p.trace)
                for e in p.evs:
                    rep.violation('other method: effect: ' + doc, 'a method that is not allowed has an effect: %s' % e[0], p.trace)
    for k, need in OUTCOMES.items():
        g = got.get(k, set())
        for x in need:
            rep.require(x in g or x == '4xx' and any(400 <= (y or 0) < 500 and y != 404 for y in g) or x == 400 and any(400 <= (y or 0) < 500 for y in g),
                        'outcome missing: %s %s %s' % (k[1], k[0], x), '%s %s is never answered by %s' % (k[1], k[0], x))
    listing(rep, prog, hh)
    loopback(rep, prog)
    rep.note(dispatch_paths=len(m.paths), route_method_paths=n)
    return __doc__ + """ Path summaries of the HTTP dispatcher (conditions, operations with their arguments, answer) matched against the documented
        table of routes and methods: which operation on the record found under exactly the ID in the path, which status, error messages, no effect of
        failures; 404 and 405 exactly for unknown paths and methods.  The listening address is a loopback constant on every path to bind."""


def listing(rep, prog, hh):
    args, cells = with_witness(prog, hh.key)
    m = hh.run(args=args, cells=cells)
    hh.eng = m.eng
    n = 0
    for p in m.paths:
        rt = hh.route(p)
        if p.kind != 'return' or not rt or norm(rt[0]) != ('procs',) or 'Get' not in hh.methods(p) or hh.status(p.result) != 200:
            continue
        n += 1
        b = hh.body(p.result)
        w = any_node(b, lambda x: x.k == 'seq' and any(y[0] == 'one' and any_node(y[-1], lambda z: z is sym('W:id')) is not None and any_node(
            y[-1], lambda z: z.k == 'res' and z.a[0].split('::')[-1] in {q.split('::')[-1] for q in hh.h.results} and any_node(z, lambda q: q is sym('W:rec')) is not None) is not None
            for y in x.a[0]))
        rep.require(w is not None, 'list incomplete', 'the answer to GET /procs leaves out some process, or its result: %s' % show(b, 8)[:500], p.trace)
    rep.require(n > 0, 'list not analysed', 'no path answers with the processes')


def loopback(rep, prog):
    """Listeners of the service are bound to loopback addresses."""
    P, G = prog.P, prog.G
    lst = lambda x: 'TcpListener' in x and x.endswith('::bind') or 'UnixListener' in x and x.endswith('::bind') or 'TcpSocket' in x and x.endswith(('::bind', '::listen'))
    fs = [k for k in prog.fns if prog.local(k) and any(lst(x) for x in G.ext[k])]
    if not fs:
        raise Missing('no function that binds the listener')
    n = 0
    roots = {}
    for k in fs:
        f = prog.fns[k]
        root = k
        if '{closure' in f['path']:
            rs = [j for j, g in prog.fns.items() if prog.local(j) and g['kind'] == 'Item' and '{closure' not in g['path'] and k in G.edges[j] | {k} and P.types[g['locals'][0]]['k'] == 'coroutine']
            rs = [j for j in rs if f['path'].startswith(prog.fns[j]['path'])]
            root = rs[0] if rs else k
        roots[root] = 1
    for k in sorted(roots):
        m = paths(prog, k, lambda path, c: 'bind' if lst(path) else None, rep=rep)
        for p in m.paths:
            for e in p.evs:
                n += 1
                a = e[1][0]
                ok_ = loop_addr(a)
                rep.require(ok_, 'listening address', 'the service listens on an address that is not a constant loopback address: %s' % show(a, 8), p.trace)
    rep.require(n > 0, 'no listener', 'the analysis found no listener')
    rep.note(bind_paths=n)


def loop_addr(a):
    """Whether an address term is of the loopback interface."""
    s = any_node(a, lambda n: n.k == 'str' and n.a[0])
    if s is not None:
        return s.a[0].startswith(('127.', '[::1]', 'localhost'))
    if any_node(a, lambda n: calls(n, 'LOCALHOST')) is not None:
        return True

    def ints(n):
        n = strip(n)
        if n.k == 'seq':
            return [y[-1].a[0] if y[0] in ('one', 'e') and y[-1].k == 'int' else None for y in n.a[0]]
        if n.k == 'agg':
            return [strip(x).a[0] if strip(x).k == 'int' else None for x in n.a[2]]
        return None
    q = []

    def visit(n):
        i = ints(n)
        if i and len(i) == 4 and all(x is not None for x in i):
            q.append(i)
        return False
    any_node(a, visit)
    return bool(q) and all(i[0] == 127 for i in q)
