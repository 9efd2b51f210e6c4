"""C23: no request and no process can crash the service."""
import itertools
import re
import absint
import agentloop
import c04
import c13
import c15
import models
from absint import N, I, any_node, mk, op, show
from startp import *
from handlers import *

# Panic for some arguments, or end the service.
SITES = re.compile(r'^core::panicking::|^std::panicking|^std::rt::(panic|begin_panic)|process::(exit|abort)$|^libc::(\w+::)*(_?exit|abort|raise)$|Index(Mut)?(<.*>)?(\sfor .*)?>::index(_mut)?$'
                   r'|(Option|Result)::<.*>::(unwrap|expect|unwrap_err|expect_err)$|::(copy_from_slice|clone_from_slice|copy_within|split_at|split_at_mut|swap_remove|split_off|rotate_left|rotate_right)$'
                   r'|(Vec|VecDeque|String|SmallVec)(::<.*>)?::(remove|insert|drain|truncate|insert_str|replace_range|with_capacity|resize|reserve|swap)$|::from_elem$|::(chunks|chunks_exact|windows|step_by|div_euclid|rem_euclid)$'
                   r'|(Duration|Instant|SystemTime|DateTime<.*>|NaiveDateTime|TimeDelta)(\s\w+)* as core::ops|Duration::from_secs_f(32|64)|::from_digit$|::to_digit$|unreachable_unchecked$|unwrap_unchecked$')
BYRANGE = re.compile(r'::(copy_from_slice|clone_from_slice|split_at|split_at_mut|swap_remove|split_off|rotate_left|rotate_right|chunks|chunks_exact|windows|step_by)$|(Vec|VecDeque|SmallVec)(::<.*>)?::(remove|insert|drain|swap)$'
                     r'|String::(remove|insert|drain|insert_str|replace_range|truncate)$')
TIMES = re.compile(r'(Duration|Instant|SystemTime|DateTime<.*>|NaiveDateTime|TimeDelta)(\s\w+)* as core::ops|Duration::from_secs_f(32|64)$')
SIZES = re.compile(r'::(from_elem|with_capacity|resize|reserve)$')
# What fails only for reasons other than a request or a process: poisoned locks (no panic while one is held), formatting of the service's own data, channels whose
# other end the service keeps, registration of constants, facts about the system.
SOUND = re.compile(r'(RwLock|Mutex)(::<.*>)?::(read|write|lock)$|^serde_json::(\w+::)*to_(value|string|string_pretty|vec|writer)|matchit::.*::insert$|^tokio::signal::.*::signal$|sysconf|gethostname|getpwuid|getgrgid|get_hostname'
                   r'|from_static$|^tokio::signal::unix::(Signal|RxFuture)::(recv|poll_recv)$|Rc::<T, A>::(into_inner|try_unwrap)$|^lazy_static|OnceCell|OnceLock|getrlimit|getcwd|current_dir|current_exe|::now$|std::env::(vars|args)|getuid|geteuid|getpid|/proc/uptime')
GROW = re.compile(r'Vec::<.*>::(extend_from_slice|append)$|Extend<.*>>::extend$|(String)::(push|push_str)$')
IO = re.compile(r'(FileExt|Read|BufRead|Write|Seek)(<.*>)?>?::(read|write|seek|flush|rewind|stream)\w*$')
SENDS = re.compile(r'tokio::sync::(watch|broadcast)::Sender::<T>::send$')
# What depends on requests, peers or processes although it has no such arguments.
SOURCES = re.compile(r'::(recv|next|collect|read|read_exact|read_to_end|read_to_string|read_line|accept|wait4|waitpid|waitid|frame|poll_frame|try_recv|fetch|connect)$')
# System calls that fail when there is too little of something, which requests can use up.
RESOURCE = ('fork', 'vfork', 'clone', 'pipe', 'pipe2', 'mkstemp', 'mkostemp', 'dup', 'socket', 'epoll_create', 'eventfd', 'pidfd_open', 'openat', 'open', 'open64', 'creat', 'memfd_create', 'tmpfile')
# ... or because of what a request names or a process does.
NAMED = ('kill', 'killpg', 'read', 'readv', 'write', 'writev', 'execve', 'execv', 'chdir', 'unlink', 'sendto', 'recvfrom', 'stat', 'lstat', 'setrlimit', 'setpriority', 'setuid', 'setgid')
# What system calls return on success.
RET0 = ('close', 'kill', 'killpg', 'fstat', 'stat', 'pipe', 'pipe2', 'unlink', 'chdir', 'setpriority', 'setrlimit', 'gethostname', 'fsync')
RETN = ('open', 'openat', 'open64', 'mkstemp', 'mkostemp', 'read', 'write', 'lseek', 'dup', 'fcntl', 'setsid', 'socket', 'sysconf', 'creat', 'memfd_create')
# Results of formatting a process's text.
PROC = ['0 (', None, ') S 0 0']


FINDS = ('split_once', 'rsplit_once', 'find', 'rfind')


def fname(n):
    return str(n.a[0]).rsplit('::', 1)[-1]


def base(n):
    return n.a[0].split('::')[-1].split('#')[0]


def strip(t):
    while isinstance(t, N) and (t.k == 'ref' and t.a[0][0] in 'VD' and not t.a[1]):
        t = t.a[0][1]
    return t


def args(t):
    return t.a[1] if t.k == 'op' else t.a[2]


def isapp(t):
    return isinstance(t, N) and t.k in ('op', 'res')


def text_of(t):
    """The literal text in a format."""
    out = []

    def f(n):
        if n.k == 'agg' and n.a[0] == 'array' and n.a[2] and all(x.k == 'int' for x in n.a[2]):
            out.append(''.join(chr(x.a[0]) if 32 <= x.a[0] < 127 else '\0' for x in n.a[2]))
        elif n.k == 'str':
            out.append(str(n.a[0]))
        return False
    any_node(t, f)
    return '\0'.join(out)


def proc_file(t):
    """What is known of the text read from a file of /proc: a list of clean segments and None for what a process determines."""
    if not (isapp(t) and fname(t) in ('read_to_string', 'read', 'read_to_end')):
        return None
    s = text_of(t)
    if '/proc/' not in s:
        return None
    e = s.rstrip('\0').rsplit('/', 1)[-1].rsplit('\0', 1)[-1]
    if e == 'stat':
        return PROC
    if e in ('comm', 'cmdline', 'environ', 'status', 'maps', 'cwd', 'exe', 'mountinfo'):
        return [None]
    return ['0 0 0 0']


class Taint:
    def __init__(self):
        self.memo = {}
        self.sg = {}

    def split(self, sg, c, last):
        """(certainly found, before, after) of the first or last occurrence of a character."""
        r = range(len(sg)) if not last else range(len(sg) - 1, -1, -1)
        for i in r:
            s = sg[i]
            if s is None:
                return any(x is not None and c in x for x in sg), [None], [None]
            if c in s:
                a, b = s.split(c, 1) if not last else s.rsplit(c, 1)
                return True, sg[:i] + [a], [b] + sg[i + 1:]
        return None, [None] if None in sg else sg, [None] if None in sg else sg

    def segs(self, t):
        t = strip(t)
        r = self.sg.get(t)
        if r is None:
            self.sg[t] = ()
            r = self.sg[t] = self.segs_(t) or ()
        return r or None

    def segs_(self, t):
        if t.k == 'fld':
            p = proc_file(t.a[0])
            if p:
                return p
            # A side of a split.
            b = t.a[0]
            if b.k == 'fld' and isapp(b.a[0]) and fname(b.a[0]) in ('split_once', 'rsplit_once') and b.a[1] == 1:
                x = b.a[0]
                s = self.segs(args(x)[0])
                c = self.char(args(x)[1])
                if s:
                    if c is None:
                        return [None] if None in s else s
                    return self.split(s, c, fname(x)[0] == 'r')[1 + t.a[2]]
            return self.segs(b)
        if t.k == 'elem':
            s = self.segs(t.a[0])
            return s and ([None] if None in s else s)
        if isapp(t) and str(t.a[0]).startswith('slice:'):
            return self.cut(t)
        if isapp(t) and args(t):
            s = self.segs(args(t)[0])
            if fname(t) in FINDS:
                return None
            if s and fname(t) not in ('trim', 'trim_end', 'trim_start', 'to_string', 'to_owned', 'clone', 'as_str', 'deref', 'into', 'from', 'as_ref'):
                return [None] if None in s else s
            return s
        return None

    def pos(self, v, t):
        """The position in a text, (segment, offset), that a number means; both known to exist."""
        v, t = strip(v), strip(t)
        if t.k == 'int':
            sg = self.segs(v)
            return (0, t.a[0]) if sg and sg[0] is not None and t.a[0] <= len(sg[0]) else None
        if t.k == 'op' and t.a[0] == 'len' and strip(args(t)[0]) is v:
            sg = self.segs(v)
            return sg and (len(sg) - 1, len(sg[-1] or ''))
        if t.k == 'op' and t.a[0] == 'Add':
            for x, y in ((0, 1), (1, 0)):
                x, y = strip(t.a[1][x]), strip(t.a[1][y])
                if y.k == 'int':
                    p = self.pos(v, x)
                    sg = self.segs(v)
                    return (p[0], p[1] + y.a[0]) if p and sg[p[0]] is not None and 0 <= p[1] + y.a[0] <= len(sg[p[0]]) else None
            return None
        if t.k == 'fld' and t.a[2] == 0 and isapp(t.a[0]) and fname(t.a[0]) in ('find', 'rfind') and strip(args(t.a[0])[0]) is v:
            sg, c = self.segs(v), self.char(args(t.a[0])[1])
            if not sg or not c:
                return None
            last = fname(t.a[0]) == 'rfind'
            for i in (range(len(sg) - 1, -1, -1) if last else range(len(sg))):
                if sg[i] is None:
                    return None
                if c in sg[i]:
                    return i, (sg[i].rfind(c) if last else sg[i].find(c))
        return None

    def ends(self, k, v, a):
        """The positions that bound a part of a text, or None."""
        v = strip(v)
        sg = self.segs(v)
        if not sg or k not in ('Range', 'RangeTo', 'RangeFrom'):
            return None
        x = (0, 0) if k == 'RangeTo' else self.pos(v, a[0])
        y = (len(sg) - 1, len(sg[-1] or '')) if k == 'RangeFrom' else self.pos(v, a[-1])
        return (x, y) if x and y and x <= y else None

    def cut(self, t):
        v, a = args(t)[0], args(t)[1:]
        sg = self.segs(v)
        if not sg:
            return None
        e = self.ends(t.a[0][6:], v, a)
        if not e:
            return [None] if None in sg else sg
        (i, m), (j, n) = e
        if i == j:
            return [sg[i][m:n] if sg[i] is not None else None]
        return [sg[i] and sg[i][m:]] + sg[i + 1:j] + [sg[j] and sg[j][:n]]

    def char(self, t):
        t = strip(t)
        if t.k == 'int':
            return chr(t.a[0])
        if t.k == 'str':
            return str(t.a[0])
        return None

    def __call__(self, t):
        t = strip(t)
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = False
            r = self.memo[t] = self.eval(t)
        return r

    def eval(self, t):
        if not isinstance(t, N) or t.k in ('int', 'str', 'fn', 'undef', 'bot', 'bytes', 'float', 'unit'):
            return False
        if t.k == 'sym':
            return not str(t.a[0]).startswith(('log level', 'static'))
        s = self.segs(t)
        if s:
            return None in s
        if isapp(t):
            n, a = str(t.a[0]), args(t)
            f = n.rsplit('::', 1)[-1]
            if n.startswith('os error '):
                return n[9:] in RESOURCE or n[9:] in NAMED
            if SOUND.search(n) or SOUND.search(n.replace('future ', '')):
                return False
            if f in FINDS and len(a) > 1:
                s = self.segs(a[0])
                if s:
                    c = self.char(a[1])
                    return None in s if c is None else self.split(s, c, f[0] == 'r')[0] is not True and None in s
            if f == 'max_value':
                return False
            if SOURCES.search(n):
                return proc_file(t) is None or any(self(x) for x in a)
            return any(self(x) for x in a)
        return any(self(x) for x in t.a if isinstance(x, N)) or any(self(y) for x in t.a if isinstance(x, tuple) for y in x if isinstance(y, N))


class Values:
    """Small models of the numbers that a condition is about."""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st

    def atoms(self, ts):
        out = []

        def f(t):
            t = strip(t)
            if t.k == 'int':
                return
            if isapp(t):
                n = fname(t)
                if n in ('integer_min', 'min', 'integer_max', 'max', 'saturating_sub', 'saturating_add', 'IntToInt', 'cast', 'trunc64', 'into', 'from', 'try_into', 'unwrap', 'Add', 'Sub', 'Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                    for x in args(t):
                        f(x)
                    return
            if t not in out:
                out.append(t)
        for t in ts:
            f(t)
        return out

    def ev(self, t, env):
        return c13.ev(t, env)

    def models(self, ts, values=(0, 1, 2, 3, 1000000)):
        """Valuations of the atoms of some terms that the path's conditions allow; None if there are too many."""
        ats = self.atoms(ts)
        rel = [(t, f) for t, f in self.st.facts.items() if f[0] == 'r']
        # What conditions relate them to.
        more = True
        while more and len(ats) < 6:
            more = False
            for t, f in rel:
                a = self.atoms([t])
                if len(a) <= 3 and any(x in ats for x in a):
                    for x in a:
                        if x not in ats and len(ats) < 6:
                            ats.append(x)
                            more = True
        if len(ats) > 6:
            return None
        P = type('P', (), {})()
        P.facts = self.st.facts
        for v in itertools.product(values, repeat=len(ats)):
            env = dict(zip(ats, v))
            if c13.consistent(P, env, self.eng):
                yield env

    def possible(self, pred, *ts):
        """Whether some valuation makes a condition on some terms true."""
        for env in self.models(ts):
            try:
                x = [self.ev(t, env) for t in ts]
            except c13.Unknown:
                return True
            if pred(*x):
                return True
        return False


class Mon(ForkMon):
    def __init__(self, rep, prog, what, env, starting=False):
        self.rep, self.prog, self.what, self.taint = rep, prog, what, env.taint
        self.routes, self.channels, self.parsers, self.books, self.starting = env.routes, env.channels, env.parsers, env.books, starting
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        self.rep.obligation(k)

    def f(self, st, v):
        return models.freeze(self.eng, st, models.value(self.eng, st, v) if isinstance(v, N) else v)

    def local(self, st):
        """The function of the service in which something happens, and what it called."""
        f = up = st.fr
        while up is not None and not (up.key in self.prog.fns and self.prog.local(up.key)):
            f, up = up, up.up
        return f, up

    def where(self, st):
        _, up = self.local(st)
        return self.prog.fns[up.key]['path'].split('::{')[0] if up is not None else self.what

    def alarm(self, st, key, msg):
        self.rep.violation(key, '%s (in %s)' % (msg, self.where(st)), st.trace())

    def on_call(self, st, c, path, vals):
        n = sysname(path)
        eng = self.eng
        if n in ('fork', 'vfork'):
            out = self.fork(st, c, path)
            for s, v in out:
                if v.k == 'int' and v.a[0] == -1:
                    s.mon = s.mon | {('os', n)}
            return out
        if 'child' in st.mon:
            return False
        if path.endswith('::last_os_error'):
            t = [m[1] for m in st.mon if isinstance(m, tuple) and m[0] == 'os']
            # The failure that is being dealt with.
            st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] in ('os', 'failed'))) | {('failed', t[0] if t else '?')}
            return op('os error ' + (t[0] if t else '?'))
        if n in RET0 or n in RETN or n in ('dup2', 'wait4', 'waitpid', 'execve'):
            self.count('system calls')
            st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] in ('os', 'failed')))
            s = st.copy()
            s.mon = s.mon | {('os', n)}
            out = [(s, I(-1))] if n in RESOURCE or n in NAMED or n == 'execve' else []
            s = st.copy()
            if n in RET0:
                out.append((s, I(0)))
            elif n in RETN:
                r = eng.fresh(s, path, eng.site(s), *[self.f(s, v) for v in vals])
                eng.refine(s, r, 0, absint.INF, absint.EMPTY)
                out.append((s, r))
            elif n == 'dup2':
                out.append((s, models.value(eng, s, vals[1])))
            elif n != 'execve':
                out.append((s, I(0)))
                s = st.copy()
                out.append((s, models.value(eng, s, vals[0])))
            if n in ('wait4', 'waitpid'):
                for s, v in out[1:]:
                    # As eng.fresh: what is returned through pointers is new.
                    eng.fresh(s, path, eng.site(s))
            return out
        if GROW.search(path):
            # What is in buffers does not matter here.
            return models.UNIT
        _, up = self.local(st)
        direct = up is not None and up is st.fr
        if path.endswith('::receiver_count'):
            r = eng.fresh(st, path, eng.site(st), self.f(st, vals[0]))
            st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'receivers')) | {('receivers', r)}
            return r
        if direct and IO.search(path):
            return eng.fresh(st, path, eng.site(st), *[self.f(st, v) for v in vals])
        if direct and TIMES.search(path):
            self.count('time computations')
            for v in vals:
                v = self.f(st, v)
                if self.taint(v) and not self.clock(v):
                    self.alarm(st, 'time: %s: %s' % (path.rsplit('::', 1)[-1], self.kind(v)), 'arithmetic on a time that a request or process determines, which may be out of range: %s' % show(v, 5))
            return eng.fresh(st, path, eng.site(st), *[self.f(st, v) for v in vals])
        if direct and SIZES.search(path):
            v = self.f(st, vals[0] if path.endswith('with_capacity') else vals[1])
            self.count('allocations')
            if v.k != 'int' and self.taint(v) and not self.bounded(st, v):
                self.alarm(st, 'size: ' + self.kind(v), 'memory is allocated of a size that a request determines: %s' % show(v, 5))
            return None
        if direct and BYRANGE.search(path):
            self.count('operations with ranges')
            a = [self.f(st, v) for v in vals]
            t = [v for v in a if self.taint(v)]
            if t and not self.inrange(st, path, a):
                self.alarm(st, 'range: %s: %s' % (path.rsplit('::', 1)[-1], self.kind(t[0])), 'a position that depends on a request or process may be out of range: %s(%s)' % (path, ', '.join(show(v, 4) for v in a)))
        return None

    def clock(self, v):
        """Durations that are as long as the service runs, or that the system reports."""
        v = strip(v)
        return v.k in ('fld', 'cont', 'agg') or isapp(v) and (fname(v) in ('now', 'elapsed', 'duration_since', 'sub', 'IntToFloat') or not args(v))

    def bounded(self, st, v):
        x = strip(v)
        while x.k == 'fld' or isapp(x) and fname(x) in ('IntToInt', 'into', 'from', 'await!', 'await') and args(x):
            x = strip(x.a[0] if x.k == 'fld' else args(x)[0])
        if isapp(x) and re.match(r'read_[ui](8|16)(_le)?!?$', fname(x)):
            # At most 64 KiB.
            return True
        if any_node(v, lambda n: isapp(n) and fname(n) in ('len', 'metadata', 'fstat', 'size_hint', 'count')):
            # Not more than what there is.
            lens = []
            any_node(v, lambda n: lens.append(n) or False if isapp(n) and fname(n) in ('len',) else False)
            V = Values(self.eng, st)
            big = 1000000
            try:
                ats = V.atoms([v])
                hard = [a for a in ats if any_node(a, lambda n: isapp(n) and fname(n) in ('len', 'metadata', 'fstat'))]
                env = {a: (3 if a in hard else 0) for a in ats}
                m = 0
                for x in itertools.product((0, big), repeat=len(ats) - len(hard)):
                    e = dict(env)
                    e.update(zip([a for a in ats if a not in hard], x))
                    m = max(m, c13.ev(v, e))
                return m < big - 10
            except c13.Unknown:
                return True
        V = Values(self.eng, st)
        try:
            return not V.possible(lambda x: x >= 1000000, v)
        except c13.Unknown:
            return False

    def inrange(self, st, path, a):
        n = path.rsplit('::', 1)[-1]
        V = Values(self.eng, st)
        seq = a[0]
        ln = op('len', strip(seq))
        if n in ('truncate', 'retain') and 'String' not in path:
            return True
        if n in ('copy_from_slice', 'clone_from_slice'):
            return not V.possible(lambda x, y: x != y, ln, op('len', strip(a[1])))
        if n in ('chunks', 'chunks_exact', 'windows', 'step_by'):
            return not V.possible(lambda x: x == 0, a[1])
        if n in ('remove', 'swap_remove', 'swap'):
            return not V.possible(lambda x, y: x >= y, a[1], ln)
        if n in ('insert', 'split_at', 'split_at_mut', 'split_off', 'rotate_left', 'rotate_right') and 'String' not in path:
            return not V.possible(lambda x, y: x > y, a[1], ln)
        if 'String' in path and n in ('insert', 'insert_str', 'split_off') and strip(a[1]).k == 'int' and strip(a[1]).a[0] == 0:
            return True
        if n == 'drain' and strip(a[1]).k == 'agg' and 'String' not in path:
            return self.slice(st, seq, strip(a[1]))
        if n == 'drain' and 'RangeFull' in show(a[1], 2):
            return True
        return False

    def slice(self, st, v, i):
        V = Values(self.eng, st)
        ln = op('len', strip(v))
        k = base(i)
        a = list(i.a[2])
        if k in ('RangeTo', 'Range') and (k == 'RangeTo' or a[0].k == 'int' and a[0].a[0] == 0) and self.filled(a[-1]):
            return True
        if k == 'RangeFull':
            return True
        if k == 'RangeTo':
            a = [I(0), a[0]]
        elif k == 'RangeFrom':
            a = [a[0], ln]
        elif k != 'Range':
            if k != 'RangeToInclusive':
                return False
            a = [I(0), op('Add', a[0], I(1))]
        return not V.possible(lambda x, y, l: not (x <= y <= l), a[0], a[1], ln)

    def filled(self, t):
        """How much was read: at most the length of the buffer that was passed."""
        t = strip(t)
        while t.k == 'fld' or isapp(t) and fname(t) in ('IntToInt', 'into', 'await!', 'await') and args(t):
            t = strip(t.a[0] if t.k == 'fld' else args(t)[0])
        return isapp(t) and re.search(r'::(read|try_read|recv|peek|read_at|try_recv)!?$', str(t.a[0])) is not None or t.k == 'op' and str(t.a[0]).startswith('future ') and fname(t) in ('read', 'recv')

    def on_spawn(self, st, f):
        if 'child' not in st.mon:
            self.eng.branch(st, f, frozenset({'task'}))

    def on_index(self, st, v, i):
        if 'child' in st.mon:
            return
        _, up = self.local(st)
        if up is None or up is not st.fr:
            return
        self.count('indexing')
        v, i = self.f(st, v), self.f(st, i)
        if not (self.taint(v) or self.taint(i)):
            return
        if i.k == 'agg':
            # Text must be cut between characters.
            good = self.slice(st, v, i) and not self.text(st) or self.taint.ends(base(i), v, list(i.a[2])) is not None
        else:
            V = Values(self.eng, st)
            good = not V.possible(lambda x, y: x >= y, i, op('len', strip(v)))
        if not good:
            self.alarm(st, 'index: ' + self.kind(v), 'an index that depends on a request or process may be out of range: %s[%s]' % (show(v, 4), show(i, 4)))

    def text(self, st):
        t = st.fr.fn['blocks'][st.blk]['t']
        c = t[1]['const'] if t[0] == 'call' and t[1].get('const') else {}
        fn = c.get('fn') or {}
        p = fn.get('path') or ''
        return '::str::' in p or 'String' in p

    def kind(self, t):
        """What a value is, in short and independent of where it is used."""
        t = strip(t)
        if t.k == 'agg':
            for x in t.a[2]:
                if self.taint(x):
                    return self.kind(x)
            return base(t) if isinstance(t.a[0], str) else 'value'
        if t.k in ('fld', 'elem', 'cont', 'upd') and isinstance(t.a[0], N):
            return self.kind(t.a[0]) + ('.' + str(t.a[2]) if t.k == 'fld' else '')
        if isapp(t):
            return str(t.a[0]).rsplit('::', 1)[-1]
        return show(t, 2)

    def cause(self, st, what):
        """The values that decided that something fails."""
        f, up = self.local(st)
        if up is None:
            return []
        if f is not up:
            out = []
            if not SITES.search(f.fn.get('path') or f.key):
                # The standard library is taken to be right.
                return []
            for i in range(1, (f.fn.get('argc') or 0) + 1):
                v = st.cells.get(('L', f.ctx, i))
                if v is not None:
                    out.append(self.f(st, v))
            return out
        return self.branch(st, up)

    def branch(self, st, fr):
        """The value on which the branch to the present block depends."""
        bs = fr.fn['blocks']
        blk = st.blk
        preds = {}
        for i, b in enumerate(bs):
            t = b['t']
            if t[0] == 'switch':
                nx = [y for _, y in t[2]] + [t[3]]
            elif t[0] == 'goto':
                nx = [t[1]]
            elif t[0] == 'call':
                nx = [t[4]]
            elif t[0] == 'drop':
                nx = [t[2]]
            elif t[0] == 'assert':
                nx = [t[4]]
            else:
                nx = []
            for y in nx:
                if isinstance(y, int):
                    preds.setdefault(y, []).append(i)
        seen = set()
        q = [blk]
        while q:
            b = q.pop(0)
            for p in preds.get(b, ()):
                if p in seen:
                    continue
                seen.add(p)
                t = bs[p]['t']
                if t[0] == 'switch':
                    r = self.decided(st, fr, bs, p)
                    if r is not None and any_node(r, lambda x: x.k == 'sym' and x.a[0] == 'log level'):
                        q.append(p)
                        continue
                    if r is not None and r.k not in ('int', 'undef', 'bot'):
                        return [r]
                q.append(p)
        # The argument of a closure.
        out = []
        if '{closure' in fr.key:
            for i in range(2, (fr.fn.get('argc') or 0) + 1):
                v = st.cells.get(('L', fr.ctx, i))
                if v is not None:
                    out.append(self.f(st, v))
        return out or [op('os error ' + m[1]) for m in st.mon if isinstance(m, tuple) and m[0] == 'failed']

    def decided(self, st, fr, bs, p):
        o = bs[p]['t'][1]
        pl = o.get('copy') or o.get('move') if isinstance(o, dict) else None
        if pl is None:
            return None
        # A discriminant: what it is of.
        for s in reversed(bs[p]['s']):
            if s[0] == '=' and s[1][0] == pl[0] and not s[1][1]:
                rv = s[2]
                if rv[0] == 'discr':
                    try:
                        c, path = self.eng.place(st, rv[1])
                        return self.f(st, self.eng.load(st, c, path))
                    except Exception:
                        return None
                break
        try:
            return self.f(st, self.eng.operand(st, o))
        except Exception:
            return None

    def excused(self, st, t):
        """Whether a value that depends on a request cannot be one that fails."""
        t = strip(t)
        n = str(t.a[0]) if isapp(t) else ''
        if isapp(t) and fname(t) == 'get' and len(args(t)) > 1 and strip(args(t)[1]).k == 'str':
            # A parameter of the route that matched.
            m = any_node(t, lambda x: isapp(x) and fname(x) == 'at')
            if m:
                p = str(strip(args(t)[1]).a[0])
                pats = [pat for pat, v in self.routes if self.allowed(st, t, v)]
                return bool(pats) and all(any(x[:1] in ':{' and x.strip(':{}*') == p for x in pat.split('/')) for pat in pats)
        if isapp(t) and 'Sender' in n and fname(t).startswith('send'):
            # Fails only if there is no receiver.
            kind = 'watch' if '::watch::' in n else 'broadcast' if '::broadcast::' in n else None
            if kind in self.channels:
                return True
            ch = strip(args(t)[0])
            for m in st.mon:
                if isinstance(m, tuple) and m[0] == 'receivers' and self.same(args(m[1])[0], ch) and self.eng.rng(st, m[1])[0] >= 1:
                    return True
            return False
        if isapp(t) and ('::watch::' in n or n.startswith('future tokio::sync::watch')):
            return 'watch' in self.channels
        if isapp(t) and fname(t) in ('body', 'build'):
            # Constant headers are good ones.
            return not any_node(t, lambda x: isapp(x) and fname(x) in ('header', 'uri') and any(
                self.taint(y) and not (isapp(strip(y)) and fname(strip(y)) == 'from_static') for y in args(x)[1:]))
        if self.starting:
            # What the validation of requests rejects: see rejected().
            if isapp(t) and fname(t).rstrip('!') in self.parsers:
                return any_node(t, lambda x: x.k == 'elem') is not None
            if any_node(t, lambda x: x.k == 'map_val' or isapp(x) and fname(x) in ('map_val', 'map_get')) and any_node(t, lambda x: x.k == 'sym' and x.a[0] in self.books):
                return True
        # Which kind of shared record it is does not change.
        return t.k == 'cont'

    def same(self, x, y):
        x, y = strip(x), strip(y)
        return x is y or show(x, 8) == show(y, 8)

    def allowed(self, st, m, v):
        val = None
        for x, f in st.facts.items():
            if f[0] == 'r' and x.k == 'fld' and any_node(x, lambda y: isapp(y) and fname(y) == 'at'):
                if not (f[1] <= v <= f[2]) or v in f[3]:
                    return False
        return True

    def on_panic(self, st, what):
        if 'child' in st.mon:
            return
        self.count('panics considered')
        if what.startswith('assert ') and not any(x in what for x in ('BoundsCheck', 'DivisionByZero', 'RemainderByZero')):
            return
        self.failing(st, 'panic', what)

    def failing(self, st, how, what):
        for t in self.cause(st, what):
            ts = [t]
            if t.k == 'agg' and base(t) in ('Result', 'Option') and t.a[2]:
                ts = list(t.a[2])
            for t in ts:
                if not self.taint(t) or self.excused(st, t):
                    continue
                names = []
                any_node(t, lambda x: names.append(str(x.a[0])[9:]) or False if isapp(x) and str(x.a[0]).startswith('os error ') and self.taint(x) else False)
                if names:
                    self.alarm(st, '%s: %s fails' % (how, '/'.join(sorted(set(names)))), 'failure of a system call that requests or processes can cause makes the service %s: %s' % (how, '/'.join(sorted(set(names)))))
                else:
                    self.alarm(st, '%s: %s' % (how, self.kind(t)), 'a value that depends on a request or process makes the service %s: %s' % (how, show(t, 6)))

    def on_end(self, st, kind, *a):
        if kind == 'exit' and 'child' not in st.mon:
            self.count('exits considered')
            f, up = self.local(st)
            c = self.branch(st, up) if up is not None else []
            self.failing_exit(st, c)

    def failing_exit(self, st, c):
        old = self.cause
        self.cause = lambda s, w: c
        try:
            self.failing(st, 'exit', 'exit')
        finally:
            self.cause = old


class Serving(Mon):
    """The loop that accepts connections does not end."""

    def on_end(self, st, kind, *a):
        if kind == 'return' and 'accepted' in st.mon and 'task' not in st.mon:
            self.alarm(st, 'the HTTP service ends', 'the HTTP service ends after a connection, or the failure to accept one')
        Mon.on_end(self, st, kind, *a)

    def on_call(self, st, c, path, vals):
        if path.endswith('::accept'):
            st.mon = st.mon | {'accepted'}
        return Mon.on_call(self, st, c, path, vals)


def called(prog, k):
    P = prog.P
    for b in prog.fns[k]['blocks']:
        t = b['t']
        if t[0] == 'call' and t[1].get('const'):
            c = t[1]['const']
            fn = c.get('fn') or (P.types[c['ty']].get('fn') if c.get('ty') is not None else None) or {}
            for x in (fn.get('path'), fn.get('decl')):
                if x:
                    yield x


class Env:
    def __init__(self, rep, prog):
        self.prog = prog
        P, G = prog.P, prog.G
        self.taint = Taint()
        self.routes = c15.router(c13.Only(rep, lambda k: False), prog)
        self.sites = {k for k in prog.fns if prog.local(k) and '__static_ref_init' not in k and (
            any(SITES.search(x) for x in called(prog, k)) or any(b['t'][0] == 'assert' and any(x in str(b['t'][3]) for x in ('BoundsCheck', 'ByZero')) for b in prog.fns[k]['blocks']))}
        # Channels of which the service keeps both ends.
        self.channels = set()
        for d, x in P.tdef.items():
            if d.startswith('procstar::'):
                s = ' '.join(P.types[t]['s'] for v in x['variants'] for _, t in v['fields'] if isinstance(t, int))
                for kind in ('watch', 'broadcast'):
                    if 'sync::%s::Sender<' % kind in s and re.search(r'sync::%s::(Inactive)?Receiver<' % kind, s):
                        self.channels.add(kind)
        items = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in k and not f['cor'] and not k.startswith('<')]
        ts = lambda k: [P.types[i]['s'] for i in prog.fns[k]['locals'][:prog.fns[k]['argc'] + 1]]
        self.parsers = {prog.fns[k]['path'].rsplit('::', 1)[-1] for k in items if re.match(r'core::result::Result<i32, procstar::', ts(k)[0]) and any('str' in x.lower() for x in ts(k)[1:])} | {'parse'}
        self.books = set()
        for k in items:
            for (nm, loc) in ((x[0], x[1]) for x in prog.fns[k]['names']):
                if not loc[1] and 1 <= loc[0] <= prog.fns[k]['argc'] and 'Pipes' in ts(k)[loc[0]]:
                    self.books.add(nm)
        self.cache = {}
        # Set-up of one fd.
        hand = {k for k in items if 'FdHandler' in ' '.join(ts(k)) and (G.reach(k) | {k}) & self.sites}
        ctors = {k for k in items if re.match(r'(core::result::Result<)?procstar::fd::SharedFdHandler\b', ts(k)[0])}
        self.fds = {k for k in hand if not (G.reach(k) - {k}) & ctors and P.types[prog.fns[k]['locals'][0]]['k'] != 'coroutine'}
        # Parts of others are seen in these.
        self.fds = {k for k in self.fds if not any(j != k and k in G.reach(j) and j not in G.reach(k) for j in self.fds)}
        # What reads of /proc.
        ld = {k for k in items if any('read' in x and (x.startswith('std::fs::') or '::Read::' in x) for x in G.ext[k]) and not ts(k)[1:2] == [] and (G.reach(k) | {k}) & self.sites
              and k.startswith('procstar::') and not any('Fd' in x for x in ts(k))}
        self.loads = ld

    def opaque(self, extra):
        prog = self.prog

        def f(key):
            if key in extra:
                return True
            r = self.cache.get(key)
            if r is None:
                fn = prog.fns.get(key)
                if fn is None or fn['crate'] != 'procstar' or fn['kind'] != 'Item' or '::{closure' in key:
                    r = False
                else:
                    r = not (key in self.sites or prog.G.reach(key) & self.sites or any(sysname(x) in ('wait4', 'waitpid') + RESOURCE for x in prog.G.reach_ext(key)) or prog.scalar(key)) and not (fn['path'].endswith('as core::clone::Clone>::clone') or ' as core::cmp::' in fn['path'] or prog.leaf(key))
                self.cache[key] = r
            return r
        return f


def explore(rep, prog, env, key, a, cells=None, extra=(), starting=False, mon=Mon):
    m = mon(rep, prog, prog.fns[key]['path'], env, starting)
    e = absint.Eng(prog.P, [m], opaque=env.opaque(set(extra) - {key}), explore_assert=True, name=key)
    if prog.P.types[prog.fns[key]['locals'][0]]['k'] == 'coroutine':
        start_async(e, key, a, cells)
    else:
        e.start(key, a, cells=cells)
    try:
        e.run()
    except RecursionError:
        raise absint.Limit('%s: terms too deep' % key)
    rep.engine(e)
    rep.note(**{'considered in ' + prog.fns[key]['path']: m.n})


def rejected(rep, prog, start):
    """Requests that validation must reject lest setting them up fails."""
    sub = c13.Only(rep, lambda k: True)
    for name, specs, ids, acc in c04.scenarios(prog):
        if name.startswith(('bad fd', 'pipe', 'duplicate fd')) or name.startswith('accepted: pipe'):
            c04.scenario(sub, prog, start, name, specs, ids, acc)


def run(rep):
    prog = Prog.get()
    start = start_fn(prog)
    env = Env(rep, prog)
    h = Handlers(prog)
    jobs = [lambda r: explore(r, prog, env, start, start_args(prog, start), extra=env.fds | env.loads, starting=True),
            lambda r: rejected(r, prog, start)]
    opq = set(h.starters) | set(h.results) | env.loads
    p = agentloop.Parts(prog)
    for k in (h.http_fn(), h.agent_fn()):
        jobs.append(lambda r, k=k: explore(r, prog, env, k, *with_witness(prog, k), extra=opq))
    for k in h.results:
        jobs.append(lambda r, k=k: explore(r, prog, env, k, default_args(prog, k), extra=env.loads))
    for k in sorted(env.fds):
        jobs.append(lambda r, k=k: explore(r, prog, env, k, default_args(prog, k), extra=env.loads | env.fds, starting=True))
    for k in sorted(env.loads):
        jobs.append(lambda r, k=k: explore(r, prog, env, k, default_args(prog, k)))
    jobs.append(lambda r: explore(r, prog, env, p.run, *with_witness(prog, p.run), extra={p.key, p.wrap, p.n2m} | opq))
    if p.n2m:
        jobs.append(lambda r: explore(r, prog, env, p.n2m, *with_witness(prog, p.n2m), extra=opq))
    acc = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in k and prog.P.types[f['locals'][0]]['k'] == 'coroutine'
           and any(x.endswith('TcpListener::accept') for x in prog.G.reach_ext(k))]
    acc = [k for k in acc if not any(j != k and j in prog.G.reach(k) for j in acc)]
    if not acc:
        raise Missing('no function that accepts connections')
    for k in sorted(acc):
        jobs.append(lambda r, k=k: explore(r, prog, env, k, *with_witness(prog, k), extra=opq | {h.http_fn()}, mon=Serving))
    rep.note(panic_sites_in=len(env.sites), roots=len(jobs))
    rep.parallel(jobs)
    return __doc__ + """ Taint analysis by abstract interpretation, with every panic, exit, index, allocation size and time computation as a sink: from the request handlers, the function that
        starts processes and its tasks, set-up and reading of fds, results, the readers of /proc and the connection loops, every feasible path to a sink is examined for the value that
        decided it; the value must not depend on a request, a peer or a process, be excluded by the path's conditions (ranges by exhaustive small models of them), or be excluded by
        validation, which is interpreted for the requests it must reject."""
