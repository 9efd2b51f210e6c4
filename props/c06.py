"""C06: every child is reaped once and its termination fully recorded."""
from reap import *

FIELDS = ('wait_info', 'proc_stat', 'stop_time', 'elapsed')


class Mon(Life):
    def on_other(self, st, c, path, vals):
        if path == 'tokio::signal::unix::signal':
            v = models.value(self.eng, st, vals[0])
            if any_node(v, lambda n: n.k in ('op', 'res') and 'child' in str(n.a[0])) is not None or any_node(v, lambda n: n.k == 'int' and n.a[0] == 17) is not None:
                st.mon = st.mon | {'armed'}
        return None

    def at_fork(self, st):
        self.need('armed' in st.mon, 'SIGCHLD not armed', 'a child is forked before notification of its death is armed', st)

    def on_wait(self, st, c, n, path, vals):
        eng = self.eng
        pid = self.tag(st, 'pid')
        v = [models.value(eng, st, x) for x in vals]
        self.need('task' in st.mon and pid is not None and v[0] is pid, 'wait for another pid',
                  'a wait is not for the pid of this process: %s' % show(v[0], 5), st)
        o = v[2] if n in ('wait4', 'waitpid') else None
        self.need(o is not None and o.k == 'int' and o.a[0] == WNOHANG, 'wait options',
                  'a wait blocks, or returns for other than termination: options %s' % (show(o, 4) if o is not None else '?'), st)
        self.need('reaped' not in st.mon, 'waited again', 'a reaped pid is waited for again', st)
        out = []
        s = st.copy()
        s.note('%s: not yet terminated' % n)
        out.append((s, I(0)))
        s = st.copy()
        for a in vals[1:]:
            # Results: status and resource usage.
            if a.k == 'ref':
                cell, p = eng.deref(s, a)
                eng.store(s, cell, p, eng.fresh(s, 'wait result', eng.site(s), I(vals.index(a))))
        s.mon = s.mon | {'reaped'}
        s.note('%s: reaped' % n)
        out.append((s, v[0]))
        self.count('reaps')
        return out

    def complete(self, st, where):
        """The record at a point where others can observe it."""
        if 'task' not in st.mon:
            return
        rec = self.record(st)
        if not self.need(rec is not None and rec.k == 'agg', 'no record', 'the process has no record when it is waited for', st):
            return
        vals = {f: self.field(rec, f) for f in FIELDS}
        done = 'reaped' in st.mon
        self.count('observations')
        for f, v in vals.items():
            isset = not (v.k == 'agg' and v.a[1] == 0 or v.k == 'undef')
            if f == 'proc_stat':
                if done:
                    self.need(isset, 'record incomplete: ' + f, 'the record of a reaped process can be observed, at %s, without its %s' % (where, f), st)
                continue
            if done:
                self.need(isset, 'record incomplete: ' + f, 'the record of a reaped process can be observed, at %s, without its %s' % (where, f), st)
            else:
                self.need(not isset, 'record early: ' + f, 'the record of a running process has a %s, at %s' % (f, where), st)
        if done:
            w = vals['wait_info']
            self.need(any_node(w, lambda n: n.k == 'res' and n.a[0] == 'wait result' and n.a[2][0].a[0] == 1) is not None, 'status not recorded',
                      'the recorded termination has not the status that the wait returned: %s' % show(w, 5), st)
            self.need(any_node(w, lambda n: n.k == 'res' and n.a[0] == 'wait result' and n.a[2][0].a[0] == 3) is not None, 'usage not recorded',
                      'the recorded termination has not the resource usage that the wait returned: %s' % show(w, 5), st)
            pid = self.tag(st, 'pid')
            self.need(any_node(vals['proc_stat'], lambda n: n is pid) is not None, 'statistics of another', 'the recorded statistics are not of this pid', st)
            si = self.field(rec, 'start_instant')
            e = vals['elapsed']
            self.need(any_node(e, lambda n: n is si) is not None, 'elapsed from start', 'the elapsed time is not computed from the start: %s' % show(e, 5), st)

    def on_suspend(self, st):
        self.complete(st, 'a suspension')

    def on_notify(self, st, var, payload):
        if 'task' not in st.mon:
            if var == self.notrunning:
                self.need(False, 'early announcement', 'a process is announced as not running outside of the task that waits for it', st)
            return
        self.complete(st, 'an announcement')
        if var == self.notrunning:
            self.count('announcements')
            self.need('reaped' in st.mon, 'announced before reaped', 'a process is announced as not running before it was reaped', st)
            self.need('announced' not in st.mon, 'announced twice', 'a process is announced twice as not running', st)
            self.need(payload and payload[0] is self.tag(st, 'recid'), 'announced other id',
                      'the announcement is for another id than the record: %s' % (show(payload[0], 5) if payload else '?'), st)
            st.mon = st.mon | {'announced'}

    def on_end(self, st, kind, *a):
        if 'task' in st.mon:
            self.count('task ends')
            self.need('reaped' in st.mon, 'task ends unreaped', 'the task of a process ends without the process having been reaped', st)
            self.need('announced' in st.mon, 'not announced', 'a reaped process is not announced as not running', st)


def run(rep):
    prog = Prog.get()
    m = Mon(rep, prog)
    explore(rep, prog, m)
    rep.note(**{k.replace(' ', '_'): v for k, v in m.n.items()})
    for k in ('process tasks', 'reaps', 'observations', 'announcements', 'task ends'):
        rep.require(m.n.get(k), 'no ' + k, 'the analysis found no %s' % k)
    return __doc__
