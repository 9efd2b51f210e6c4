"""C02: a forked child never runs service code."""
from startp import *


class Mon(ForkMon):
    def __init__(self, rep):
        self.rep = rep
        self.ends = {}
        self.nchild = 0

    def end(self, st, how):
        self.ends[how] = self.ends.get(how, 0) + 1

    def on_sys(self, st, c, path, n, vals):
        if n in EXECS and 'child' in st.mon:
            self.end(st, 'exec')
        return None

    def on_spawn(self, st, *a):
        self.rep.require('child' not in st.mon, 'child spawns task', 'the forked child spawns a task of the service', st.trace())

    def on_suspend(self, st, *a):
        self.rep.require('child' not in st.mon, 'child suspends', 'the forked child returns to the event loop', st.trace())

    def on_end(self, st, kind, *a):
        if 'child' not in st.mon:
            return
        self.end(st, kind)
        self.rep.require(kind not in ('return', 'resume', 'suspend', 'unwind'), 'child ' + {'return': 'returns', 'resume': 'unwinds', 'unwind': 'unwinds'}.get(kind, kind),
                         'a forked child %s into the code of the service: %s' % (
                             {'return': 'returns', 'resume': 'unwinds (panics)', 'unwind': 'unwinds (panics)'}.get(kind, kind), a[:1]), st.trace())


def run(rep):
    prog = Prog.get()
    P, G = prog.P, prog.G
    start = start_fn(prog)
    rel = ext('fork', 'execve', 'exit', *EXECS)
    mon = Mon(rep)
    e = absint.Eng(P, [mon], opaque=prog.opaque(lambda x: rel(x) or x == 'std::process::exit'), explore_unwind=True, explore_assert=True, name=start)
    e.start(start, start_args(prog, start))
    e.run()
    rep.engine(e)
    rep.note(child_ends=mon.ends)
    rep.require(sum(mon.ends.values()) > 0, 'no child', 'the analysis found no forked child')
    # Every fork of the program is in what was analysed.
    for k in sorted(prog.fns):
        if any(sysname(x) in ('fork', 'vfork') for x in G.ext[k]):
            main = prog.one('procstar::main')
            p = G.path(main, lambda y: y == k, avoid={start})
            rep.require(p is None, 'fork elsewhere', 'a process can be forked without going through %s: %s' % (start, p))
    return __doc__ + """ Forward abstract interpretation, including every panic and unwind edge, of the function that forks; on every path that has seen
        fork return 0 the function must end in exec or in the termination of the process and must not return, unwind out, suspend or spawn."""
