"""C20: every change is announced, once, with the right content."""
from agentloop import *
from climb import *
from c08 import tables, op_args, calls, removers, RECORDS, PROCS
import c06
import reap
from c16 import Msgs, OUT, strip

EQS = ('Eq', 'eq', 'streq')


class Table:
    """What an operation does to the table, and what it announces."""

    def __init__(self, rep, prog, name):
        self.rep, self.prog, self.name = rep, prog, name
        P = prog.P
        self.i = field_index(P, PROCS, 'procs', 'BTreeMap<')
        self.names = [v['name'] for v in P.tdef[NOTI]['variants']]
        self.n = {}

    def need(self, cond, key, msg, st):
        self.n['obl'] = self.n.get('obl', 0) + 1
        return self.rep.require(cond, '%s: %s' % (key, self.name), 'in %s, %s' % (self.name, msg), st.trace())

    def segs(self, st):
        t = st.cells.get(TABLE)
        v = t.a[2][self.i] if t is not None and t.k == 'agg' else None
        return v.a[0] if v is not None and v.k == 'seq' else None

    def said(self, st):
        for m in st.mon:
            if isinstance(m, tuple) and m[0] == 'said':
                return m[1]
        return ()

    def same(self, st, a, b):
        a, b = strip(a), strip(b)
        if a is b:
            return True
        r = models.eq_term(self.eng, st, a, b)
        return self.eng.truth(st, r) is True

    def keys(self, segs):
        """Keys that are in a table, apart from any others."""
        return [s[2].a[2][0] for s in segs if s[0] == 'one' and s[2].k == 'agg']

    def has(self, st, segs, k):
        """Whether the table has a key: True, False, None (maybe)."""
        if any(self.same(st, x, k) for x in self.keys(segs)):
            return True
        if any(s[0] == 'del' and self.same(st, s[1], k) for s in segs):
            return False
        if any(s[0] in ('base', 'star') for s in segs):
            return None
        # Not one of those that are left.
        return False

    def on_call(self, st, c, path, vals):
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::receiver_count'):
            self.n['counts'] = self.n.get('counts', 0) + 1
            for tag, r in (('nobody', I(0)), ('one', I(1)), ('somebody', I(2))):
                if tag in st.mon:
                    return r
            out = []
            for r in (I(0), I(1), I(2)):
                s = st.copy()
                if r.k == 'int' and r.a[0] == 0:
                    s.mon = s.mon | {'nobody'}
                else:
                    s.mon = s.mon | ({'somebody'} if r.a[0] > 1 else {'somebody', 'one'})
                out.append((s, r))
            return out
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::send'):
            v = models.freeze(self.eng, st, models.value(self.eng, st, vals[1]))
            if v.k != 'agg' or v.a[0] != NOTI:
                return None
            kind = self.names[v.a[1] or 0]
            k = models.value(self.eng, st, v.a[2][0]) if v.a[2] else None
            segs = self.segs(st)
            if kind in ('Start', 'Delete') and segs is not None:
                self.n['announcements'] = self.n.get('announcements', 0) + 1
                h = self.has(st, segs, k)
                self.need(h is not (kind == 'Delete'), '%s announced early' % kind,
                          'the %s is announced before it is done' % ('deletion of a process' if kind == 'Delete' else 'start of a process'), st)
            # Of the processes that are not followed, there may be any number.
            if kind in ('Start', 'Delete') and not (k.k == 'fld' and any_node(k, lambda x: x.k == 'elem') is not None) and k.k != 'elem' and len(self.said(st)) < 8:
                st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'said')) | {('said', self.said(st) + ((kind, k),))}
            out = []
            if 'nobody' in st.mon or 'somebody' not in st.mon:
                s = st.copy()
                s.mon = s.mon | {'send failed'}
                s.note('nobody is listening')
                out.append((s, err(sym('send error'))))
            if 'nobody' not in st.mon:
                out.append((st.copy(), ok(I(1))))
            return out
        return None

    def on_suspend(self, st):
        self.check(st)

    def check(self, st):
        segs = self.segs(st)
        if segs is None:
            return
        said = self.said(st)
        silent = 'nobody' in st.mon
        before, after = self.keys(self.t0), self.keys(segs)
        count = lambda kind, k: sum(1 for q, x in said if q == kind and self.same(st, x, k))
        for k in before:
            gone = not any(x is k for x in after)
            n = count('Delete', k)
            if gone:
                self.n['deletions'] = self.n.get('deletions', 0) + 1
                self.need(n == 1 or silent and n == 0, 'Delete not announced' if n == 0 else 'Delete announced again', 'the deletion of a process is announced %d times' % n, st)
            else:
                self.need(n == 0, 'Delete announced', 'the deletion of a process is announced although it is not deleted', st)
        for s in segs:
            if s[0] == 'del':
                n = count('Delete', s[1])
                self.need(n == 1 or silent and n == 0, 'Delete not announced' if n == 0 else 'Delete announced again', 'the deletion of a process is announced %d times' % n, st)
        for k in after:
            if any(x is k for x in before):
                continue
            self.n['insertions'] = self.n.get('insertions', 0) + 1
            n = count('Start', k)
            self.need(n == 1 or silent and n == 0, 'Start not announced' if n == 0 else 'Start announced again', 'the start of a process is announced %d times' % n, st)
        for q, x in said:
            if q == 'Start':
                self.need(any(self.same(st, x, k) for k in after if not any(y is k for y in before)), 'other Start', 'the start of some other process is announced', st)

    def on_end(self, st, kind, *a):
        if kind == 'return':
            self.n['ends'] = self.n.get('ends', 0) + 1
            self.check(st)

    def on_panic(self, st, what):
        fr = st.fr
        while fr is not None and not self.prog.local(fr.key):
            fr = fr.up
        if 'send failed' in st.mon and fr is not None and any(
                x.startswith('tokio::sync::broadcast::Sender') and x.endswith('::send') for x in self.prog.G.ext[fr.key]):
            self.need(False, 'announcing fails', 'a change panics because it could not be announced', st)


def check_table(rep, prog, key):
    f = prog.fns[key]
    name = f['path'].split('::', 1)[-1]
    w, ts = tables(prog)
    h = Handlers(prog)
    out = {}
    asy = prog.P.types[f['locals'][0]]['k'] == 'coroutine'
    for tn, t in ts:
        args, si = op_args(prog, key, w)
        for i in range(f['argc']):
            s = prog.P.types[f['locals'][i + 1]]['s']
            if s in ('alloc::string::String', '&alloc::string::String', '&str') and removable(prog, key):
                v = sym('W:id')
                args[i] = ref(('V', v)) if s.startswith('&') else v
        m = Table(rep, prog, name)
        m.t0 = t.a[2][m.i].a[0]
        e = absint.Eng(prog.P, [m], opaque=lambda k: k in h.opq, name=name, explore_unwind=False)
        e.max_states = 200000
        m.eng = e
        mon = frozenset({('table', ref(TABLE))})
        if asy:
            start_async(e, key, args, {TABLE: t}, mon)
        else:
            e.start(key, args, cells={TABLE: t}, mon=mon)
        e.run()
        rep.engine(e)
        for k, v in m.n.items():
            out[k] = out.get(k, 0) + v
    return out


def removable(prog, key):
    return any(k in prog.G.reach(key) for k in removers(prog))


def inserters(prog):
    return calls(prog, lambda p, ta: p.startswith(MAPS) and p.rsplit('::', 1)[-1] in ('insert', 'try_insert', 'entry', 'append', 'extend') and any(RECORDS in s for s in ta))


def messages(rep, prog, parts):
    """What a notification is turned into."""
    P = prog.P
    key = parts.n2m
    h = Handlers(prog)
    ms = Msgs(P)
    args, cells = with_witness(prog, key)
    f = prog.fns[key]
    n = {}
    N0 = None
    for i in range(f['argc']):
        t = P.types[f['locals'][i + 1]]['s']
        if t == NOTI:
            N0 = args[i]
    for vi, var in enumerate(P.tdef[NOTI]['variants']):
        name = var['name']
        nf = len(var['fields'])
        pay = [sym('W:id')] if name in ('Start', 'NotRunning', 'Delete') else [sym('payload')] * nf
        runs = [(pay, True)] if name not in ('Start', 'NotRunning') else [(pay, True), ([sym('other id')], None)]
        for py, _ in runs:
            a = [agg(NOTI, vi, *py) if x is N0 else x for x in args]
            m = h.Mon(h)
            paths(prog, key, None, opaque=lambda k: k in h.opq, mon=m, args=a, cells=cells, rep=rep)
            for p in m.paths:
                r = p.result
                s = p.show(5)[:300]
                if not rep.require(p.kind == 'return' and r is not None and r.k == 'agg', 'message end: ' + name, 'making the message about %s ends by %s' % (name, s), p.trace):
                    continue
                n[name] = n.get(name, 0) + 1
                g = r.a[2][0] if r.a[1] == 1 else None
                v = ms.variant(g) if g is not None else None
                if name == 'Delete':
                    rep.require(v == 'ProcDelete' and ms.field(g, OUT, v, 'proc_id') is py[0], 'message: Delete', 'a deletion is announced by %s' % s, p.trace)
                elif name == 'ShutDown':
                    rep.require(v == 'ShutDown' and ms.field(g, OUT, v, 'shutdown_state') is py[0], 'message: ShutDown', 'a change of the shutdown state is announced by %s' % s, p.trace)
                elif name in ('Start', 'NotRunning'):
                    if g is None:
                        rep.require(py[0] is not sym('W:id'), 'no message: ' + name, 'no message is made of %s although the process is in the table' % name, p.trace)
                        continue
                    res = [e for e in p.evs if e[0] == 'result']
                    rec = strip(res[-1][1][0]) if res else None
                    right = rec is not None and (any_node(rec, lambda x: x is sym('W:rec')) is not None if py[0] is sym('W:id') else any_node(
                        rec, lambda x: x.k == 'op' and x.a[0] in ('map_val', 'map_ent') and x.a[1][1] is py[0]) is not None or any_node(rec, lambda x: x is sym('W:rec')) is not None)
                    rep.require(v == 'ProcResult' and ms.field(g, OUT, v, 'proc_id') is py[0] and right and any_node(
                        ms.field(g, OUT, v, 'res'), lambda x: x.k in ('res', 'op') and str(x.a[0]) in h.results) is not None,
                        'message: ' + name, '%s is announced by %s' % (name, s), p.trace)
    for v in P.tdef[NOTI]['variants']:
        rep.require(n.get(v['name']), 'no message path: ' + v['name'], 'no path makes a message of %s' % v['name'])
    rep.note(message_paths=sum(n.values()))


class Ended(c06.Mon):
    """Only what C06 says of announcements."""

    def need(self, cond, key, msg, st):
        if 'announced' in key or 'announcement' in key:
            return c06.Mon.need(self, cond, key, msg, st)
        return cond


def run(rep):
    prog = Prog.get()
    m = Ended(rep, prog)
    with part(rep):
        reap.explore(rep, prog, m)
        rep.require(m.n.get('task ends'), 'no task ends', 'the analysis found no end of a task of a process')
    rep.note(terminations=m.n.get('task ends'))
    parts, m = explore(rep, prog, 'C20')
    messages(rep, prog, parts)
    tot = {}

    def check(b, k):
        for n, v in check_table(b, prog, k).items():
            tot[n] = tot.get(n, 0) + v
    import startp
    start = startp.start_fn(prog)
    keys = [k for k in sorted(set(removers(prog)) | set(inserters(prog))) if not (k == start or start in prog.G.reach(k))]
    climb(rep, prog, keys, check)
    for n in ('deletions', 'insertions', 'announcements'):
        rep.require(tot.get(n), 'no ' + n, 'the analysis of the operations on the table found no ' + n)
    rep.note(operations=[prog.fns[k]['path'] for k in keys], **tot)
    return __doc__ + """ Each operation that changes the table of processes is analysed for tables of none, one, two and arbitrarily many: each record removed
        or added is announced exactly once, under its ID, after the change, nothing else is announced, and no failure of announcing makes it panic (state changes
        and terminations: C08 and C06).  Each notification is turned into the message about the process it names, with the result of that process's record.
        In the agent's connection loop, every notification received is turned into a message, every message made is sent, once, and after missed
        notifications the agent registers anew."""
