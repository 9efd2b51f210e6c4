"""C11: the descriptors of an executed program are those its spec names."""
from fdsim import *
from paths import paths

RDONLY, WRONLY, RDWR, CREAT, EXCL, TRUNC, APPEND = 0, 1, 2, 0o100, 0o200, 0o1000, 0o2000
# Open flags by what a spec names; for Default, of stdin, of stdout and stderr, and of others.
OFLAGS = dict(Read=RDONLY, Write=WRONLY | CREAT | TRUNC, Create=WRONLY | CREAT | EXCL, Replace=WRONLY | TRUNC, Append=WRONLY | APPEND,
              CreateAppend=WRONLY | CREAT | APPEND, ReadWrite=RDWR | CREAT | TRUNC)
DEFAULT = {0: 'Read', 1: 'Write', 2: 'Write', None: 'ReadWrite'}
# Bits that make no difference to what the program sees.
IGNORED = 0o100000 | 0o400       # O_LARGEFILE, O_NOCTTY
STD = {'stdin': 0, 'stdout': 1, 'stderr': 2}


def number(name):
    return sym('N:' + name)


def name(n):
    return sym('NAME:' + n)


class Wired(Sim):
    """want(mon, st): {number: description or None if closed} of what the program shall have."""

    def __init__(self, rep, prog, key, want):
        Sim.__init__(self, rep, prog, key)
        self.want = want
        self.execs = 0

    def may(self, st, a, b):
        if self.iserr(a) or self.iserr(b):
            return False
        return True

    def at_exec(self, st):
        self.execs += 1
        want = self.want(self, st)
        if want is None:
            return
        for a, d in want.items():
            e = self.get(st, a)
            have = e[0] if e else None
            ok_ = d(have) if callable(d) else have is d
            if not ok_:
                self.bad(st, 'exec', 'refers to other', 'fd %s is executed as %s, not as specified; descriptors: %s' % (
                    show(a, 3), show(have, 5) if have is not None else 'closed', self.show(st)))
            elif e and e[1]:
                self.bad(st, 'exec', 'close-on-exec', 'fd %s is closed by the execution of the program (it is close-on-exec); descriptors: %s' % (show(a, 3), self.show(st)))
        for k, e in self.table(st).items():
            if any(self.alias(st, k, a) for a in want):
                continue
            if self.isnew(k):
                if e and not e[1]:
                    self.bad(st, 'exec', 'left open', 'a set-up descriptor (%s) is left open in the program: %s' % (show(e[0], 4), self.show(st)))
            elif e is None or e[0] is not mk('op', 'inherited', (k,)):
                self.bad(st, 'exec', 'other fd', 'fd %s, which is not specified, is altered: %s' % (show(k, 3), self.show(st)))


def isfile(path, flags, mode=None):
    def f(st_d):
        d = st_d
        if d is None or d.k != 'op' or d.a[0] != 'file':
            return False
        a = d.a[1]
        p = any_node(a[0], lambda x: x is path)
        if p is None or a[1].k != 'int':
            return False
        if a[1].a[0] & ~(CLOEXEC | IGNORED) != flags:
            return False
        return mode is None or a[2] is mode or not flags & CREAT
    return f


def default_flags(m, st, a):
    lo, hi, ex = m.eng.rng(st, a)
    if lo == hi and lo in DEFAULT:
        return [OFLAGS[DEFAULT[lo]]]
    s = {n for n in (0, 1, 2) if lo <= n <= hi and n not in ex}
    r = {OFLAGS[DEFAULT[n]] for n in s}
    if hi > 2:
        r.add(OFLAGS[DEFAULT[None]])
    return sorted(r)


def wired(rep, prog, own, key, procs, want, least=1):
    m = Wired(rep, prog, key, want)
    m.own = own
    simulate(rep, prog, m, procs)
    rep.require(m.execs >= least, key + 'no exec', 'the analysis found no execution of a program in this case')
    for k, v in m.n.items():
        CALLS[k] = CALLS.get(k, 0) + v
    return m


CALLS = {}


def initial(a):
    return mk('op', 'inherited', (a,))


def piped(end, n=None):
    return lambda d: d is not None and d.k == 'op' and d.a[0] == 'pipe' and d.a[1][1] is S(end) and (n is None or d.a[1][0] is n)


def run(rep):
    prog = Prog.get()
    P = prog.P
    start = start_fn(prog)
    vs = {v['name']: (i, [f[0] for f in v['fields']]) for i, v in enumerate(P.tdef[FD]['variants'])}

    def spec(v, **kw):
        i, fs = vs[v]
        return mk('agg', FD, i, tuple(kw.get(f, sym('%s.%s' % (v, f))) for f in fs))
    parse = parsers(prog)
    if not parse:
        raise Missing('no function from the name of a descriptor to its number')
    # The pipe that the child reports through.
    m = Sim(rep, prog)
    m.bad = lambda *a: None
    simulate(None, prog, m, [(sym('ID0'), [(name('a'), spec('Inherit'))])])
    own = frozenset(m.written)
    rep.require(own, 'no error pipe', 'the child writes to no descriptor')
    A, B = number('a'), number('b')
    one = lambda sp: [(sym('ID0'), [(name('a'), sp)])]

    wired(rep, prog, own, 'none: ', [(sym('ID0'), [])], lambda m, st: {})
    wired(rep, prog, own, 'Inherit: ', one(spec('Inherit')), lambda m, st: {A: initial(A)})
    wired(rep, prog, own, 'Close: ', one(spec('Close')), lambda m, st: {A: lambda d: d is None})
    O = sym('N:dup')
    wired(rep, prog, own, 'Dup: ', one(spec('Dup', fd=O)), lambda m, st: {A: lambda d: d is initial(O) or m.alias(st, A, O) and d is initial(A), O: lambda d: d is initial(O) or m.alias(st, A, O) and d is initial(A)})
    oi = {v['name']: i for i, v in enumerate(P.tdef['procstar::spec::OpenFlag']['variants'])}
    for k in ('Null', 'File'):
        for fl, i in oi.items():
            sp = spec(k, flags=mk('agg', 'procstar::spec::OpenFlag', i, ()))
            path = S('/dev/null') if k == 'Null' else sym('File.path')
            mode = None if k == 'Null' else sym('File.mode')

            def want(m, st):
                fs = default_flags(m, st, A) if fl == 'Default' else [OFLAGS.get(fl)]
                return {A: lambda d: len(fs) == 1 and isfile(path, fs[0], mode)(d)}
            wired(rep, prog, own, '%s %s: ' % (k, fl), one(sp), want, 3 if fl == 'Default' else 2)
    modes = {v['name']: i for i, v in enumerate(P.tdef['procstar::spec::CaptureMode']['variants'])}
    cap = lambda m: spec('Capture', mode=mk('agg', 'procstar::spec::CaptureMode', modes[m], ()))
    wired(rep, prog, own, 'Capture memory: ', one(cap('Memory')), lambda m, st: {A: piped('w')}, 2)
    wired(rep, prog, own, 'Capture tempfile: ', one(cap('TempFile')), lambda m, st: {A: lambda d: d is not None and d.k == 'op' and d.a[0] == 'tmp'}, 2)

    # Two descriptors, in the order given: a duplicate of the first.
    for k, sp, d in (('capture', cap('Memory'), piped('w')), ('tempfile', cap('TempFile'), lambda d: d is not None and d.k == 'op' and d.a[0] == 'tmp'),
                     ('file', spec('File', flags=mk('agg', 'procstar::spec::OpenFlag', oi['Append'], ())), isfile(sym('File.path'), OFLAGS['Append']))):
        def want(m, st):
            e = m.get(st, A)
            return {A: d, B: lambda x: e is not None and x is e[0]}
        apart(rep, prog, own, '%s and dup: ' % k, [(sym('ID0'), [(name('a'), sp), (name('b'), spec('Dup', fd=A))])], want)

        def want(m, st):
            return {B: d, A: lambda x: x is initial(B)}
        apart(rep, prog, own, 'dup and %s: ' % k, [(sym('ID0'), [(name('a'), spec('Dup', fd=B)), (name('b'), sp)])], want)

    # Two captures.
    def want(m, st):
        a, b = m.get(st, A), m.get(st, B)
        return {A: lambda d: piped('w')(d) and (b is None or d is not b[0]), B: lambda d: d is not None and d.k == 'op' and d.a[0] == 'tmp'}
    apart(rep, prog, own, 'two captures: ', [(sym('ID0'), [(name('a'), cap('Memory')), (name('b'), cap('TempFile'))])], want)

    # A pipe between two processes, whichever comes first.
    i0, i1 = sym('ID0'), sym('ID1')
    wr = lambda i: (i, [(name('a'), spec('PipeWrite'))])
    rd = lambda i, j: (i, [(name('b'), spec('PipeRead', proc_id=j, fd=name('a')))])
    for key, procs, first, last in (('writer first: ', [wr(i0), rd(i1, i0)], (A, 'w'), (B, 'r')), ('reader first: ', [rd(i0, i1), wr(i1)], (B, 'r'), (A, 'w'))):
        m = Piped(rep, prog, key, first, last)
        m.own = own
        simulate(rep, prog, m, procs)
        rep.require(len(m.ids) == 1, key + 'other pipe', 'the two processes are connected to different pipes: %s' % sorted(show(x) for x in m.ids))
        rep.require(m.seen >= {0, 1}, key + 'no exec', 'the analysis found no execution of both processes')
    named(rep, prog, parse)
    collisions(rep, prog, own, spec, cap)
    rep.note(calls=CALLS)
    return __doc__ + """ The start of a request is interpreted with a table of descriptors for the service and each child, for each kind of descriptor, open flag and capture mode,
        and for each of the cases that the kernel hands out the target's number or another one; at each execution of a program the table is compared with the spec."""


class Apart(Wired):
    """Numbers that the kernel hands out are not among the targets; the case that they are is told once, by collisions."""

    def may(self, st, a, b):
        return False


def apart(rep, prog, own, key, procs, want):
    m = Apart(rep, prog, key, want)
    m.own = own
    simulate(rep, prog, m, procs)
    rep.require(m.execs, key + 'no exec', 'the analysis found no execution of a program in this case')


class Piped(Apart):
    def __init__(self, rep, prog, key, first, last):
        Apart.__init__(self, rep, prog, key, self.ends)
        self.order = (first, last)
        self.seen = set()
        self.ids = set()

    def parent(self, st, pid):
        setreg(st, 'forked', (reg(st, 'forked') or 0) + 1)

    def ends(self, m, st):
        n = min(reg(st, 'forked') or 0, 1)
        self.seen.add(n)
        t, end = self.order[n]
        e = self.get(st, t)
        if e is not None and piped(end)(e[0]):
            self.ids.add(e[0].a[1][0])
        return {t: piped(end)}


def named(rep, prog, parse):
    """Names of descriptors."""
    for k in sorted(parse):
        for nm, n in STD.items():
            c = paths(prog, k, lambda p, c: None, args=[ref(('V', S(nm)))], rep=rep)
            rs = [p for p in c.paths if p.kind == 'return']
            rep.require(rs and all(p.result is ok(I(n)) for p in rs), 'name ' + nm, '%s is fd %s' % (nm, [show(p.result, 4) for p in rs]), rs[0].trace if rs else None)
        x = sym('NAME')
        c = paths(prog, k, lambda p, c: None, args=[ref(('V', x))], rep=rep)
        for p in c.paths:
            r = p.result
            if p.kind != 'return' or r is None or r.k != 'agg' or r.a[1] != 0:
                continue
            v = r.a[2][0]
            if v.k == 'int':
                good = any(t.k == 'op' and t.a[0] == 'Eq' and x in t.a[1] and S(nm) in t.a[1] and f[:2] == (1, 1) for nm, n in STD.items() if n == v.a[0] for t, f in p.facts.items()) or any(
                    p.facts.get(x) == S(nm) for nm in STD)
                good = good or any(t.k == 'op' and any(y.k == 'str' and STD.get(y.a[0]) == v.a[0] for y in t.a[1] if isinstance(y, N)) for t in p.facts)
            else:
                good = v.k == 'fld' and v.a[0].k in ('op', 'res') and 'parse' in str(v.a[0].a[0]) and any_node(v, lambda y: y is x) is not None
            rep.require(good, 'number of a name', 'the name of a descriptor may stand for %s' % show(v, 5), p.trace)


class Clash(Wired):
    """The kernel handed out, for another purpose, the number of a target."""

    def __init__(self, rep, prog, which, want):
        Wired.__init__(self, rep, prog, 'collision: ', want)
        self.which = which

    def may(self, st, a, b):
        return self.which(a, b)

    def bad(self, st, what, key, msg):
        self.rep.violation(self.key + self.what, msg, st.trace())


def collisions(rep, prog, own, spec, cap):
    A, B = number('a'), number('b')

    def errs(m, st):
        d = {}
        for k, e in m.table(st).items():
            if m.iserr(k):
                pass
        # The end it writes to is still in place.
        w = [k for k, e in m.table(st).items() if e is not None and piped('w')(e[0]) and e[0].a[1][0].a[0] in m.errids]
        if not w:
            m.bad(st, 'exec', '', 'the child puts a specified fd in the place of the pipe that it reports errors through: %s' % m.show(st))
        return None
    m = Clash(rep, prog, lambda a, b: m.iserr(a) != m.iserr(b) and A in (a, b), errs)
    m.what = 'error pipe replaced'
    m.own = own
    m.errids = {0}
    m.made = lambda st, n, nums, clo: m.errids.add(m.get(st, nums[0])[0].a[1][0].a[0]) if m.iserr(nums[0]) else None
    simulate(rep, prog, m, [(sym('ID0'), [(name('a'), spec('Dup', fd=sym('N:dup')))])])
    for sp in (cap('Memory'), cap('TempFile'), spec('PipeWrite')):
        d = (lambda x: x is not None and x.k == 'op' and x.a[0] in ('tmp', 'pipe'))
        m = Clash(rep, prog, lambda a, b: not m.iserr(a) and not m.iserr(b) and A in (a, b), lambda m, st: {B: d})
        m.what = 'set-up descriptor replaced'
        m.own = own
        simulate(rep, prog, m, [(sym('ID0'), [(name('a'), spec('Dup', fd=sym('N:dup'))), (name('b'), sp)])])
