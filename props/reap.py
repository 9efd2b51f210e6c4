"""The life of a started process in the parent: used by C03, C05, C06 and C20."""
from startp import *

WNOHANG = 1


class Life(ForkMon):
    """Follows the parent after fork, and, apart, the task that it spawns for the process."""

    def __init__(self, rep, prog):
        self.rep = rep
        self.prog = prog
        P = prog.P
        self.n = {}
        self.waiters = prog.G.callers(lambda k: any(sysname(x) in ('wait4', 'waitpid', 'wait', 'waitid') for x in prog.G.ext[k]))
        self.notrunning = P.vidx('procstar::procs::Notification', 'NotRunning')
        self.startvar = P.vidx('procstar::procs::Notification', 'Start')

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def need(self, cond, key, msg, st):
        return self.rep.require(cond, key, msg, st.trace())

    def fork(self, st, c, path):
        # The child is analysed elsewhere.
        self.at_fork(st)
        return [x for x in ForkMon.fork(self, st, c, path) if 'child' not in x[0].mon]

    def at_fork(self, st):
        pass

    def tag(self, st, name):
        for m in st.mon:
            if isinstance(m, tuple) and m[0] == name:
                return m[1]
        return None

    def parent(self, st, pid):
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] in ('pid', 'rec', 'recid', 'startid'))) | {('pid', pid)}

    def on_spawn(self, st, f):
        if 'task' in st.mon:
            return
        if any_node(f, lambda n: n.k == 'cor' and n.a[0] in self.waiters):
            self.count('process tasks')
            self.spawned(st, f)
            self.eng.branch(st, f, {'task'})

    def spawned(self, st, f):
        pass

    def notification(self, v):
        """(variant, payload) of a notification."""
        if v.k == 'agg' and str(v.a[0]).endswith('Notification'):
            return v.a[1] or 0, v.a[2]
        return None

    def on_call(self, st, c, path, vals):
        n = sysname(path)
        if n in ('fork', 'vfork'):
            return self.fork(st, c, path)
        if n in ('wait4', 'waitpid', 'wait', 'waitid'):
            return self.on_wait(st, c, n, path, vals)
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::send'):
            r = self.notification(models.value(self.eng, st, vals[1]))
            if r:
                self.on_notify(st, *r)
            return None
        if path.startswith('alloc::collections::btree::map::BTreeMap') and path.endswith('::insert'):
            v = vals[2]
            if v.k == 'ref':
                x = self.eng.load(st, *self.eng.deref(st, v))
                if x.k == 'agg' and x.a[0] == 'procstar::procs::Proc':
                    self.on_record(st, models.value(self.eng, st, vals[1]), v, x)
                    return None
        if path.startswith('tokio::sync::broadcast::Sender') and path.endswith('::receiver_count'):
            # Somebody listens.
            return I(1)
        return self.on_other(st, c, path, vals)

    def on_record(self, st, key, r, rec):
        st.mon = st.mon | {('rec', r), ('recid', key)}

    def on_wait(self, st, c, n, path, vals):
        return None

    def on_notify(self, st, var, payload):
        pass

    def on_other(self, st, c, path, vals):
        return None

    def record(self, st):
        """The process record of the table, as it is in this state."""
        r = self.tag(st, 'rec')
        if r is None:
            return None
        cell, path = self.eng.deref(st, r)
        return self.eng.load(st, cell, path)

    def field(self, rec, name):
        P = self.prog.P
        i = P.fidx('procstar::procs::Proc', name)
        if isinstance(i, tuple):
            i = i[-1]
        if rec.k == 'agg':
            return rec.a[2][i] if i < len(rec.a[2]) else None
        return models.fld(rec, i) if hasattr(models, 'fld') else None


def explore(rep, prog, mon, rel=lambda x: False):
    start = start_fn(prog)

    def relevant(x):
        return (sysname(x) in ('fork', 'wait4', 'waitpid') or x.startswith('tokio::sync::broadcast::Sender') and x.endswith('::send')
                or x in ('std::process::exit', 'tokio::signal::unix::signal')
                or rel(x))
    # Closures of the bodies of the tasks, such as those of join!.
    bodies = [k for k in mon.waiters if prog.local(k) and prog.fns[k].get('cor') is not None] or [k for k in mon.waiters if k.endswith('}')]
    within = {k for k in prog.fns if any(k.startswith(b + '::{') for b in bodies)}
    e = absint.Eng(prog.P, [mon], opaque=prog.opaque(relevant, leaves=True, keep=prog.table_insert() | prog.record_writers() | within), name=start, inline_tasks=True)
    e.start(start, start_args(prog, start))
    e.run()
    rep.engine(e)
    return e
