"""The descriptor tables of the service and of the forked child, for one or two processes of a request."""
from startp import *
import c16

CLOEXEC = 0o2000000     # O_CLOEXEC
FD = 'procstar::spec::Fd'
CREATES = ('pipe2', 'pipe', 'mkostemp', 'mkstemp', 'open', 'openat', 'open64', 'dup', 'dup2', 'dup3', 'fcntl', 'fcntl64', 'creat', 'mkostemps')


def parsers(prog):
    """Functions from a descriptor's name to its number."""
    r = []
    for k, f in prog.fns.items():
        if prog.local(k) and f['argc'] == 1 and f['kind'] == 'Item' and not f['cor'] and '{closure' not in f['path']:
            a, b = prog.P.types[f['locals'][1]]['s'], prog.P.types[f['locals'][0]]['s']
            if a.startswith('&') and a.endswith('str') and b.startswith('core::result::Result<i32'):
                r.append(k)
    return r


def reg(st, what):
    for m in st.mon:
        if isinstance(m, tuple) and m and m[0] == what:
            return m[1]
    return None


def setreg(st, what, v):
    st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m and m[0] == what)) | {(what, v)}


class Sim(ForkMon):
    """A descriptor table: {number: (description, close-on-exec) or None if closed}; a number that is not in it has
    what it has in the service.  Numbers are terms; whether two of them are the same is decided, once, when it matters."""

    def __init__(self, rep, prog, key=''):
        self.rep, self.prog, self.key = rep, prog, key
        self.n = {}
        self.sites = {}
        self.written = set()
        self.parse = set(parsers(prog))
        self.unparsed = 0

    def count(self, what):
        self.n[what] = self.n.get(what, 0) + 1

    # Aliases.

    def alias(self, st, a, b):
        """True, False or None if undecided."""
        if a is b:
            return True
        ra, rb = self.eng.rng(st, a), self.eng.rng(st, b)
        if ra[0] == ra[1] and rb[0] == rb[1]:
            return ra[0] == rb[0]
        if ra[0] > rb[1] or rb[0] > ra[1]:
            return False
        if self.isnum(a) and self.isnum(b) and 'N:dup' not in (a.a[0], b.a[0]):
            # Names of different descriptors of a process.
            return False
        d = dict(reg(st, 'alias') or ())
        r = d.get(frozenset((a, b)))
        if r is not None:
            return r
        # Two that were obtained from the kernel and are open at the same time differ.
        if self.isnew(a) and self.isnew(b):
            return False
        return None

    # Sites that create the descriptors the child reports through; set after a first run.
    own = frozenset()

    def isnew(self, a):
        return a.k == 'sym' and str(a.a[0])[:2] in ('K:', 'E:')

    def iserr(self, a):
        return a.k == 'sym' and str(a.a[0])[:2] == 'E:'

    def decide(self, st, a, b):
        """States in which it is decided."""
        r = self.alias(st, a, b)
        if r is not None:
            return [st]
        if not self.isnew(a) and not self.isnew(b):
            # Numbers of the request: other than each other.
            self.setalias(st, a, b, False)
            return [st]
        if not self.may(st, a, b):
            self.setalias(st, a, b, False)
            return [st]
        s = st.copy()
        self.setalias(s, a, b, True)
        s.note('the kernel returns the number %s' % show(b if self.isnew(a) else a, 3))
        self.setalias(st, a, b, False)
        return [st, s]

    def may(self, st, a, b):
        """Whether to consider that they are the same number."""
        return not self.iserr(a) and not self.iserr(b)

    def setalias(self, st, a, b, val):
        d = dict(reg(st, 'alias') or ())
        d[frozenset((a, b))] = val
        setreg(st, 'alias', frozenset(d.items()))

    def on_assume(self, st, t, val):
        if t.k == 'op' and t.a[0] in ('Eq', 'Ne') and len(t.a[1]) == 2:
            a, b = t.a[1]
            eq = bool(val) == (t.a[0] == 'Eq')
            if (self.isnew(a) or self.isnew(b)) and not (a.k == 'int' or b.k == 'int') or self.isnum(a) and self.isnum(b):
                r = self.alias(st, a, b)
                if r is None:
                    self.setalias(st, a, b, eq)
                elif r != eq:
                    return False

    def isnum(self, a):
        return a.k == 'sym' and str(a.a[0]).startswith('N:')

    # The table.

    def table(self, st):
        return dict(reg(st, 'fds') or ())

    def entry(self, st, a):
        """(key, entry) of a number."""
        t = self.table(st)
        for k, v in t.items():
            if self.alias(st, k, a):
                return k, v
        return a, ('inherited', a), False

    def get(self, st, a):
        for k, v in self.table(st).items():
            if self.alias(st, k, a):
                return v
        return (mk('op', 'inherited', (a,)), False)

    def put(self, st, a, v):
        t = self.table(st)
        for k in list(t):
            if self.alias(st, k, a):
                del t[k]
        t[a] = v
        setreg(st, 'fds', frozenset(t.items()))

    def split(self, st, *nums):
        """States in which these numbers are told apart from those of the table."""
        out = [st]
        for a in nums:
            nxt = []
            for s in out:
                ss = [s]
                for k in list(self.table(s)):
                    ss = [z for y in ss for z in self.decide(y, k, a)]
                nxt += ss
            out = nxt
        return out

    def new(self, st, desc, clo):
        n = reg(st, 'count') or 0
        setreg(st, 'count', n + 1)
        site = self.eng.site(st)
        a = sym(('E:%d' if site in self.own else 'K:%d') % n)
        self.sites[a] = site
        self.eng.refine(st, a, 0, 2**31 - 1, EMPTY)
        self.put(st, a, (desc, clo))
        return a

    def side(self, st):
        return 'child' if 'child' in st.mon else 'service'

    def on_call(self, st, c, path, vals):
        if c.get('key') in self.parse:
            v = models.freeze(self.eng, st, models.value(self.eng, st, vals[0]))
            r = self.parsed(st, v)
            if r is not None:
                return ok(r)
        if path == 'std::fs::remove_file':
            return self.remove(st, vals)
        return ForkMon.on_call(self, st, c, path, vals)

    def parsed(self, st, v):
        if v.k == 'sym' and str(v.a[0]).startswith('NAME:'):
            a = sym('N:' + str(v.a[0])[5:])
            self.eng.refine(st, a, 0, 2**31 - 1, EMPTY)
            return a
        return None

    def bad(self, st, what, key, msg):
        self.rep.violation('%s%s' % (self.key, key), msg, st.trace())

    def fails(self, st, n, vals):
        """Whether to consider that a call fails, too."""
        return False

    def on_sys(self, st, c, path, n, vals):
        eng = self.eng
        v = [models.value(eng, st, x) for x in vals]
        num = lambda i: v[i]
        if n in ('close', 'dup', 'dup2', 'dup3', 'fcntl', 'fcntl64'):
            out = []
            for s in self.split(st, *(v[:2] if n in ('dup2', 'dup3') else v[:1])):
                out += self.apply(s, c, n, v)
            out2 = out
        elif n in ('pipe2', 'pipe', 'mkostemp', 'mkstemp', 'open', 'openat', 'open64', 'openat64', 'creat', 'mkostemp64'):
            s = st.copy()
            out2 = self.apply(s, c, n, v, vals)
        elif n == 'write':
            if 'child' in st.mon and v[0] in self.sites:
                self.written.add(self.sites[v[0]])
            return None
        elif n in EXECS:
            self.count('exec')
            self.at_exec(st)
            return False
        else:
            return None
        if self.fails(st, n, v):
            s = st.copy()
            s.note('%s fails' % n)
            self.failed(s, n, v)
            out2.append((s, I(-1)))
        return out2

    def failed(self, st, n, v):
        pass

    def flag(self, st, v):
        """The close-on-exec bit of open flags; None if unknown."""
        if v.k == 'int':
            return bool(v.a[0] & CLOEXEC)
        lo, hi, _ = self.eng.rng(st, v)
        if lo == hi:
            return bool(int(lo) & CLOEXEC)
        if v.k == 'op' and v.a[0] == 'BitOr':
            r = [self.flag(st, x) for x in v.a[1]]
            return True if True in r else None if None in r else False
        return False

    def apply(self, st, c, n, v, vals=None):
        eng = self.eng
        self.count('%s in the %s' % (n, self.side(st)))
        if n in ('pipe2', 'pipe'):
            m = reg(st, 'count') or 0
            clo = n == 'pipe2' and self.flag(st, v[1])
            a = self.new(st, mk('op', 'pipe', (I(m), S('r'))), clo)
            b = self.new(st, mk('op', 'pipe', (I(m), S('w'))), clo)
            self.made(st, n, (a, b), clo)
            cell, path = eng.deref(st, vals[0])
            eng.store(st, cell, path, mk('agg', 'array', 0, (a, b)))
            return [(st, I(0))]
        if n in ('mkostemp', 'mkstemp', 'mkostemp64'):
            m = reg(st, 'count') or 0
            clo = n != 'mkstemp' and self.flag(st, v[1])
            a = self.new(st, mk('op', 'tmp', (I(m),)), clo)
            self.made(st, n, (a,), clo)
            return [(st, a)]
        if n in ('open', 'open64', 'openat', 'openat64'):
            w = v[1:] if 'at' in n else v
            w = [models.freeze(eng, st, x) for x in w]
            clo = self.flag(st, w[1])
            a = self.new(st, mk('op', 'file', tuple(w)), clo)
            self.made(st, n, (a,), clo)
            return [(st, a)]
        e = self.get(st, v[0])
        if n == 'close':
            self.closing(st, v[0], e)
            self.put(st, v[0], None)
            return [(st, I(0))] if e is not None else []
        if e is None:
            # EBADF.
            self.badfd(st, n, v[0])
            return []
        if n == 'dup':
            a = self.new(st, e[0], False)
            self.made(st, n, (a,), False)
            return [(st, a)]
        if n in ('dup2', 'dup3'):
            if n == 'dup2' and self.alias(st, v[0], v[1]):
                return [(st, v[1])]
            self.onto(st, v[0], v[1], e)
            self.put(st, v[1], (e[0], n == 'dup3' and bool(self.flag(st, v[2]))))
            return [(st, v[1])]
        if n in ('fcntl', 'fcntl64'):
            cmd = v[1].a[0] if v[1].k == 'int' else None
            if cmd == 1:        # F_GETFD
                return [(st, I(1 if e[1] else 0))]
            if cmd == 2:        # F_SETFD
                x = v[2]
                lo, hi, _ = eng.rng(st, x)
                if x.k == 'int' or lo == hi:
                    self.put(st, v[0], (e[0], bool(int(x.a[0] if x.k == 'int' else lo) & 1)))
                else:
                    self.bad(st, n, 'flags', 'descriptor flags are set to %s' % show(x))
                return [(st, I(0))]
            if cmd in (0, 1030):        # F_DUPFD, F_DUPFD_CLOEXEC
                a = self.new(st, e[0], cmd == 1030)
                self.made(st, n, (a,), cmd == 1030)
                return [(st, a)]
        return [(st, eng.fresh(st, 'libc::' + n, eng.site(st), *v))]

    # Hooks.

    def remove(self, st, vals):
        return ok(UNIT)

    def made(self, st, n, nums, clo):
        pass

    def closing(self, st, a, e):
        pass

    def onto(self, st, a, b, e):
        pass

    def badfd(self, st, n, a):
        pass

    def at_exec(self, st):
        pass

    def show(self, st):
        return ', '.join('%s -> %s' % (show(k, 3), 'closed' if e is None else show(e[0], 4) + (' (cloexec)' if e[1] else '')) for k, e in sorted(
            self.table(st).items(), key=lambda x: str(x[0])))


def request(prog, procs):
    """The specs of a request: [(id, [(name, fd spec)])] of one or more processes."""
    P = prog.P
    fields = [f[0] for f in P.tdef['procstar::spec::Proc']['variants'][0]['fields']]
    one = lambda i, *vs: ('one', 'req%d' % i, vs[0])
    items = []
    for i, (pid, fds) in enumerate(procs):
        fs = mk('seq', tuple(('one', ('fd', i, j), tup(nm, sp)) for j, (nm, sp) in enumerate(fds)))
        vals = [fs if f == 'fds' else some(sym('EXE%d' % i)) if f == 'exe' else sym('%s%d' % (f, i)) for f in fields]
        items.append(('one', ('proc', i), tup(pid, mk('agg', 'procstar::spec::Proc', 0, tuple(vals)))))
    return mk('seq', tuple(items))


def simulate(rep, prog, m, procs, facts=None, limit=None, keep=()):
    start = start_fn(prog)
    rel = lambda x: sysname(x) in CREATES + EXECS + ('write', 'close', 'fork', 'exit', '_exit') or x in ('std::process::exit', 'std::fs::remove_file', 'libc::unix::unlink') or x.endswith('from_raw_fd_checked') or x.endswith('from_raw_fd')
    opq = prog.opaque(rel)
    # Constructors of what holds descriptors, and what decides how files are opened.
    def holds(f):
        s = [prog.P.types[t]['s'] for t in f['locals'][:f['argc'] + 1]]
        return 'procstar::fd::' in s[0] and not f['cor'] or any('spec::OpenFlag' in x for x in s[1:])
    keep = set(keep) | {k for k, f in prog.fns.items() if prog.local(k) and not f['cor'] and holds(f)}
    parse = m.parse | {k for k, f in prog.fns.items() if f['argc'] == 0 and f['kind'] == 'Item' and not f['cor'] and prog.P.types[f['locals'][0]]['k'] == 'struct' or k in keep}
    def opaque(k):
        return opq(k) and k not in parse and not ('{closure' in k and 'procstar::fd::' in prog.P.types[prog.fns[k]['locals'][0]]['s'])
    e = absint.Eng(prog.P, [m], opaque=opaque, name=start)
    if limit:
        e.max_states = limit
    e.precise = 8
    e.start(start, start_args(prog, start, specs=request(prog, procs)), facts=facts)
    e.run()
    if rep is not None:
        rep.engine(e)
    return e
