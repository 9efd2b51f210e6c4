"""C07: signals are delivered only to the recorded, unreaped pid."""
import signal as pysignal
import c15
import c16
from c09 import installer, kinds_of
from handlers import *
from c16 import strip, Msgs, IN


class Kill:
    """Each call that sends a signal."""

    def __init__(self, rep, prog, h, root, then=None):
        self.rep, self.prog, self.h, self.root, self.then = rep, prog, h, root, then
        self.n = 0

    def on_call(self, st, c, path, vals):
        n = sysname(path)
        if n not in KILLS:
            return None
        if n == 'raise' or path.startswith(('std::', 'core::')):
            return None
        eng = self.eng
        if n == 'syscall':
            return None
        v = [models.value(eng, st, x) for x in vals]
        self.n += 1
        self.rep.require(n == 'kill', 'sent by ' + n, 'a signal is sent by %s' % n, st.trace())
        p = v[0]
        is_pid = p.k == 'fld' and p.a[2] == self.h.PID and any_node(p.a[0], lambda x: x.k == 'cont') is not None
        self.rep.require(is_pid, 'not a recorded pid', 'a signal is sent to something other than the pid recorded of a process: %s' % show(p, 6), st.trace())
        if is_pid:
            self.rep.require(eng.variant(st, mk('fld', p.a[0], p.a[1], self.h.WAIT)) == 0, 'maybe reaped',
                             'a signal is sent to a pid whose process was not found to be unreaped', st.trace())
        out = []
        for what, r in (('ok', I(0)), ('err', I(-1))):
            s = st.copy()
            s.note('%s: %s' % (n, what))
            out.append((s, r))
        return out

    def on_suspend(self, st):
        pass


def table(rep, prog):
    """Signal names are looked up in a table that has the right numbers."""
    P = prog.P
    r = [k for k, f in prog.fns.items() if prog.local(k) and f['argc'] == 0 and '{closure' not in f['path']
         and P.types[f['locals'][0]]['s'] in ('std::collections::hash::map::HashMap<&str, i32>', 'alloc::collections::btree::map::BTreeMap<&str, i32>')]
    n = 0
    names = set()
    for k in r:
        m = paths(prog, k, lambda p, c: None, rep=rep)
        for p in m.paths:
            if p.kind != 'return' or p.result.k != 'seq':
                continue
            for s in p.result.a[0]:
                x = s[-1]
                if x.k == 'agg' and len(x.a[2]) == 2 and x.a[2][0].k == 'str' and x.a[2][1].k == 'int':
                    nm, num = x.a[2][0].a[0], x.a[2][1].a[0]
                    n += 1
                    names.add(nm)
                    want = getattr(pysignal, nm if nm.startswith('SIG') else 'SIG' + nm, None)
                    rep.require(want is not None and int(want) == num, 'signal number: ' + nm, '%s is taken for %d, not %s' % (nm, num, want and int(want)), p.trace)
    if r and n:
        for s in ('SIGTERM', 'SIGINT', 'SIGKILL', 'SIGQUIT', 'SIGUSR1', 'SIGUSR2', 'SIGHUP'):
            rep.require(s in names or s[3:] in names, 'signal missing: ' + s, 'the name %s is not known' % s)
    rep.note(signal_names=n)
    return n


def run(rep):
    prog = Prog.get()
    P, G = prog.P, prog.G
    h = Handlers(prog)
    iskill = lambda x: sysname(x) in KILLS and sysname(x) not in ('raise', 'syscall')
    direct = {k for k in prog.fns if prog.local(k) and any(iskill(x) and not x.startswith('decl') for x in G.ext[k])}
    if not direct:
        raise Missing('no function that sends signals')
    reach = {k for k in G.callers(lambda k: k in direct) if prog.local(k)}
    seen = set()
    # The agent's handler.
    key = h.agent_fn()
    m = h.run(key, rep=rep)
    seen |= m.engine.fns_seen
    ms = Msgs(P)
    M = h.argname(key, IN)
    names = [v['name'] for v in P.tdef[IN]['variants']]
    n = 0
    for p in m.paths:
        for v in variants(m.eng, p.st, M, len(names)):
            evs = [e for e in p.evs if e[0].split(' ')[0] in KILLS]
            for e in evs:
                n += 1
                rep.require(names[v] == 'ProcSignalRequest', 'agent: other request', 'a signal is sent on request %s' % names[v], p.trace)
                if names[v] == 'ProcSignalRequest':
                    check(rep, h, m.eng, p, e, ms.field(M, IN, names[v], 'proc_id'), lambda x: strip(x) is ms.field(M, IN, names[v], 'signum'), 'agent')
            if names[v] == 'ProcSignalRequest' and p.kind == 'return' and p.result.k == 'agg':
                done = [e[0] for e in evs] == ['kill ok']
                rep.require(done == (p.result.a[1] == 0), 'agent: ' + ('reported as failed' if done else 'silently dropped'),
                            'a signal request is %s' % ('answered by an error though the signal was sent' if done else 'not carried out, but not answered by an error'), p.trace)
    rep.require(n, 'agent: none', 'the analysis found no signal sent for the agent')
    # HTTP.
    hh = c15.H(rep, prog)
    m = hh.run()
    hh.eng = m.eng
    seen |= m.engine.fns_seen
    n = 0
    nums = table(rep, prog)
    for p in m.paths:
        evs = [e for e in p.evs if e[0].split(' ')[0] in KILLS]
        rt = hh.route(p) or []
        sig = [x for x in rt if 'signal' in x]
        for e in evs:
            n += 1
            if rep.require(len(rt) == 1 and sig and hh.methods(p) == {'Post'}, 'http: other request', 'a signal is sent on another request', p.trace):
                pos = next((i for i, x in enumerate(sig[0].strip('/').split('/')) if i > 1 and x[:1] in ':{'), None)

                def right(x):
                    x = strip(x)
                    if not hh.is_param(x, pos, sig[0]):
                        return False
                    if x.k == 'op' and x.a[0] == 'map_val':
                        return nums and strip(x.a[1][1]).k == 'fld'
                    return any_node(x, lambda y: y.k in ('op', 'res') and 'parse' in str(y.a[0])) is not None and x.k == 'fld'
                check(rep, h, m.eng, p, e, hh.param(p, 1, sig[0]), right, 'http')
        if sig and hh.methods(p) == {'Post'} and p.kind == 'return':
            s = hh.status(p.result)
            done = [e[0] for e in evs] == ['kill ok']
            if s is not None and s < 500:
                rep.require(done == (s < 300), 'http: ' + ('reported as failed' if done else 'silently dropped'),
                            'a signal request is %s' % ('answered by an error though the signal was sent' if done else 'not carried out, but answered by %s' % s), p.trace)
    rep.require(n, 'http: none', 'the analysis found no signal sent over HTTP')
    # Signals to all, at shutdown.
    ki = installer(prog)
    kinds = kinds_of(prog, h)
    mon = Kill(rep, prog, h, ki)
    e = absint.Eng(P, [mon], opaque=lambda k: k in kinds, name=ki)
    e.max_states = 600000
    args, cells = with_witness(prog, ki)
    start_async(e, ki, args, cells)
    e.run()
    rep.engine(e)
    seen |= e.fns_seen
    rep.require(mon.n, 'shutdown: none', 'the analysis found no signal sent at shutdown')
    # Anything else that can send a signal.
    for k in sorted(reach):
        if k in seen or G.reach(k) & seen & reach:
            continue
        mon = Kill(rep, prog, h, k)
        e = absint.Eng(P, [mon], name=k)
        e.start(k, default_args(prog, k))
        e.run()
        seen |= e.fns_seen
        rep.engine(e)
    # All call sites lie in what was analysed.
    sites = 0
    for k in sorted(reach):
        for b in prog.fns[k]['blocks']:
            c = (b['t'][1].get('const') or {}).get('fn') if b['t'][0] == 'call' else None
            if c and (c.get('key') in reach or iskill(c.get('path') or '')):
                sites += 1
                above = any(y in seen for y in G.reach(k) & reach) and k not in seen
                rep.require(k in seen or above, 'unanalysed: ' + k, 'signals can be sent from %s, which was not analysed' % k)
    rep.note(call_sites=sites, functions_that_send=sorted(prog.fns[k]['path'] for k in direct))
    return __doc__ + """ All paths of both request handlers and of the signal handlers: each kill has the pid field of a record of the table as its
        target, under facts that the record's termination is not set and, for a request, that the record is the one found under exactly the requested ID;
        the number is the requested one (names by a table whose every entry is compared with the platform's numbers); what was not sent is answered by an
        error.  The call graph shows that no other code sends signals."""


def check(rep, h, eng, p, e, pid, right, where):
    t = strip(e[1][0])
    rec = t.a[0] if t.k == 'fld' and t.a[2] == h.PID else None
    rep.require(e[0].split(' ')[0] == 'kill', where + ': by ' + e[0].split(' ')[0], 'a signal is sent by %s' % e[0].split(' ')[0], p.trace)
    ok_ = rec is not None and rec.k == 'cont' and any_node(rec.a[0], lambda x: x.k == 'op' and x.a[0] == 'map_val' and x.a[1][1] is pid) is not None
    rep.require(ok_, where + ': other pid', 'the signal is not sent to the recorded pid of the process requested: %s' % show(t, 6), p.trace)
    rep.require(e[1][-1] is I(1), where + ': maybe reaped', 'a signal is sent to a pid whose process was not found to be unreaped', p.trace)
    rep.require(right(e[1][1]), where + ': other signal', 'the signal sent is not the one requested: %s' % show(strip(e[1][1]), 6), p.trace)
