"""Common to the properties about starting processes."""
from common import *
import models

SYSCALLS = ('close', 'dup2', 'dup', 'dup3', 'open', 'openat', 'fcntl', 'setsid', 'execve', 'execv', 'execvp', 'execvpe', 'write', 'mkostemp', 'pipe2',
            'pipe', 'setpgid', 'kill', 'fork', 'vfork')
EXECS = ('execve', 'execv', 'execvp', 'execvpe', 'execl', 'fexecve', 'execveat', 'posix_spawn', 'posix_spawnp')


def sysname(path):
    if path.startswith('libc::'):
        return path.rsplit('::', 1)[-1]
    return None


def start_fn(prog):
    """The outermost synchronous functions that fork."""
    G = prog.G
    forks = [k for k in prog.fns if any(sysname(x) in ('fork', 'vfork') for x in G.ext[k])]
    if not forks:
        raise Missing('no call of fork')
    callers = G.callers(lambda k: k in forks)
    # From the entry points: the first local function that is not async, main
    # or a request handler, i.e. the one that takes a map of specs.
    r = [k for k in callers if prog.local(k) and takes_specs(prog, k)]
    # Keep the innermost functions that take all specs.
    top = [k for k in r if not any(j != k and j in G.reach(k) and k not in G.reach(j) for j in r)]
    if not top:
        raise Missing('no function that starts processes from a map of specs')
    return sorted(top)[0]


def takes_specs(prog, k):
    f = prog.fns[k]
    if f['cor'] or f['kind'] != 'Item' or '{closure' in f['path']:
        return False
    for i in range(1, f['argc'] + 1):
        s = prog.P.types[f['locals'][i]]['s']
        if 'Map<alloc::string::String, procstar::spec::Proc' in s:
            return True
    return False


def start_args(prog, k, specs=None, table=None):
    """Symbolic arguments by type."""
    f = prog.fns[k]
    args = []
    for i in range(1, f['argc'] + 1):
        t = prog.P.types[f['locals'][i]]
        nm = 'specs' if 'spec::Proc' in t['s'] else ('procs' if 'SharedProcs' in t['s'] else 'arg%d' % i)
        v = sym(nm)
        if nm == 'specs' and specs is not None:
            v = specs
        if t['k'] == 'ref':
            v = ref(('V', v))
        args.append(v)
    return args


class ForkMon:
    """Splits on the outcome of fork; tags child states."""

    # A predicate on functions: those from which a fork is reachable; set to
    # leave out of the analysis what else is done outside of the child.
    forking = None

    def skip(self, st, key):
        if self.forking is None or 'child' in st.mon:
            return False
        f = self.eng.F.get(key)
        return f is not None and f['crate'] == 'procstar' and f['kind'] == 'Item' and key not in self.forking and not self.scalars(key)

    def child_only(self, prog):
        self.scalars = prog.scalar
        self.forking = prog.G.callers(lambda k: any(sysname(x) in ('fork', 'vfork', 'exit', '_exit', 'abort') or x in ('std::process::exit', 'std::process::abort')
                                                    for x in prog.G.ext[k]))

    def fork(self, st, c, path):
        eng = self.eng
        r = eng.fresh(st, 'fork', eng.site(st))
        out = []
        s = st.copy()
        s.mon = s.mon | {'child'}
        s.note('fork: in the child')
        out.append((s, I(0)))
        s = st.copy()
        s.note('fork: in the parent')
        eng.refine(s, r, 1, INF, EMPTY)
        self.parent(s, r)
        out.append((s, r))
        s = st.copy()
        s.note('fork fails')
        out.append((s, I(-1)))
        return out

    def parent(self, st, pid):
        pass

    def on_call(self, st, c, path, vals):
        n = sysname(path)
        if n in ('fork', 'vfork'):
            return self.fork(st, c, path)
        if n:
            return self.on_sys(st, c, path, n, vals)
        return None

    def on_sys(self, st, c, path, n, vals):
        return None


INF = float('inf')
