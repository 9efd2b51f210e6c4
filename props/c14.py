"""C14: results report the process's true status and usage."""
from handlers import *
from c16 import strip
from c26 import field
import c06
import reap
import re
import struct

INF = float('inf')

PROC = 'procstar::procs::Proc'
RESULT = 'procstar::res::ProcRes'
STATUS = 'procstar::res::Status'
USAGE = 'procstar::res::ResourceUsage'
STAT = 'procstar::procinfo::ProcStat'
STATM = 'procstar::procinfo::ProcStatm'
STATE = 'procstar::state::State'
ATOMS = ('fld', 'sym', 'res', 'old', 'cont')

# libc's struct rusage: by field of ours, the field, and the unit.
KERNEL = {'utime': ('ru_utime', 'time'), 'stime': ('ru_stime', 'time'), 'maxrss': ('ru_maxrss', 1024), 'minflt': ('ru_minflt', 1), 'majflt': ('ru_majflt', 1),
          'nswap': ('ru_nswap', 1), 'inblock': ('ru_inblock', 1), 'oublock': ('ru_oublock', 1), 'nvcsw': ('ru_nvcsw', 1), 'nivcsw': ('ru_nivcsw', 1)}

# proc(5), /proc/pid/stat: position and unit.
STAT_FIELDS = {
    'pid': (1, 'raw'), 'comm': (2, 'raw'), 'state': (3, 'raw'), 'ppid': (4, 'raw'), 'pgrp': (5, 'raw'), 'session': (6, 'raw'), 'tty_nr': (7, 'dev'), 'tpgid': (8, 'opt'),
    'flags': (9, 'raw'), 'minflt': (10, 'raw'), 'cminflt': (11, 'raw'), 'majflt': (12, 'raw'), 'cmajflt': (13, 'raw'), 'utime': (14, 'tick'), 'stime': (15, 'tick'),
    'cutime': (16, 'tick'), 'cstime': (17, 'tick'), 'priority': (18, 'raw'), 'nice': (19, 'raw'), 'num_threads': (20, 'raw'), 'itrealvalue': (21, 'raw'),
    'starttime': (22, 'boot'), 'vsize': (23, 'raw'), 'rss': (24, 'page'), 'rsslim': (25, 'raw'), 'startcode': (26, 'raw'), 'endcode': (27, 'raw'), 'startstack': (28, 'raw'),
    'kstkesp': (29, 'raw'), 'kstkeip': (30, 'raw'), 'signal': (31, 'sigs'), 'blocked': (32, 'sigs'), 'sigignore': (33, 'sigs'), 'sigcatch': (34, 'sigs'), 'wchan': (35, 'raw'),
    'nswap': (36, 'raw'), 'cnswap': (37, 'raw'), 'exit_signal': (38, 'sig'), 'processor': (39, 'raw'), 'rt_priority': (40, 'raw'), 'policy': (41, 'raw'),
    'delayacct_blkio_ticks': (42, 'tick'), 'guest_time': (43, 'tick'), 'cguest_time': (44, 'raw'), 'start_data': (45, 'raw'), 'end_data': (46, 'raw'), 'start_brk': (47, 'raw'),
    'arg_start': (48, 'raw'), 'arg_end': (49, 'raw'), 'env_start': (50, 'raw'), 'env_end': (51, 'raw'), 'exit_code': (52, 'raw')}
# proc(5), /proc/pid/statm.
STATM_FIELDS = {'size': (1, 'page'), 'resident': (2, 'page'), 'shared': (3, 'page'), 'text': (4, 'page'), 'lib': (5, 'page'), 'data': (6, 'page'), 'dt': (7, 'page')}
# signal(7), Linux on x86 and ARM.
SIGNALS = {'SIGHUP': 1, 'SIGINT': 2, 'SIGQUIT': 3, 'SIGILL': 4, 'SIGTRAP': 5, 'SIGABRT': 6, 'SIGIOT': 6, 'SIGBUS': 7, 'SIGFPE': 8, 'SIGKILL': 9, 'SIGUSR1': 10, 'SIGSEGV': 11,
           'SIGUSR2': 12, 'SIGPIPE': 13, 'SIGALRM': 14, 'SIGTERM': 15, 'SIGSTKFLT': 16, 'SIGCHLD': 17, 'SIGCLD': 17, 'SIGCONT': 18, 'SIGSTOP': 19, 'SIGTSTP': 20, 'SIGTTIN': 21,
           'SIGTTOU': 22, 'SIGURG': 23, 'SIGXCPU': 24, 'SIGXFSZ': 25, 'SIGVTALRM': 26, 'SIGPROF': 27, 'SIGWINCH': 28, 'SIGIO': 29, 'SIGPOLL': 29, 'SIGPWR': 30, 'SIGSYS': 31}


def has_type(adt, s):
    return re.search(re.escape(adt) + r'(?!\w)', s) is not None


def fname(n):
    return str(n.a[0]).rsplit('::', 1)[-1] if n.k in ('op', 'res') else ''


def opargs(n):
    return n.a[1] if n.k == 'op' else n.a[2]


def num(n):
    """A constant number."""
    n = strip(n)
    if n.k == 'int':
        return n.a[0]
    if n.k == 'float':
        b = int(n.a[0])
        return struct.unpack('<f', struct.pack('<I', b & (2 ** 32 - 1)))[0] if n.a[1] == 'f32' else struct.unpack('<d', struct.pack('<Q', b & (2 ** 64 - 1)))[0]
    if n.k == 'op' and n.a[0] in ('IntToFloat', 'FloatToFloat', 'cast') and len(n.a[1]):
        return num(n.a[1][0])
    return None


def linear(n):
    """A term as a linear form over atoms: {atom or None: coefficient}, or None."""
    c = num(n)
    if c is not None:
        return {None: c}
    n = strip(n)
    if n.k == 'op' and n.a[0] in ('IntToFloat', 'FloatToFloat', 'IntToInt', 'cast'):
        return linear(n.a[1][0])
    if n.k == 'op' and n.a[0] in ('Add', 'Sub', 'Mul', 'Div') and len(n.a[1]) == 2:
        x, y = linear(n.a[1][0]), linear(n.a[1][1])
        if x is None or y is None:
            return None
        if n.a[0] in ('Add', 'Sub'):
            r = dict(x)
            for k, v in y.items():
                r[k] = r.get(k, 0) + (v if n.a[0] == 'Add' else -v)
            return r
        if n.a[0] == 'Mul':
            for a, b in ((x, y), (y, x)):
                if set(a) == {None}:
                    return {k: v * a[None] for k, v in b.items()}
        if n.a[0] == 'Div' and set(y) == {None} and y[None]:
            return {k: v / y[None] for k, v in x.items()}
    return {n: 1}


def close(x, y):
    return x is not None and abs(x - y) <= 1e-9 * max(abs(x), abs(y))


def bits(n, atom, w=32):
    """For each bit of a term the bit of the atom it is (or 0)."""
    n = strip(n)
    if atom(n):
        return list(range(w))
    if n.k == 'int':
        return None
    if n.k == 'op':
        a = n.a[1]
        o = n.a[0]
        if o in ('Shr', 'Shl') and a[1].k == 'int':
            b = bits(a[0], atom, w)
            k = a[1].a[0]
            return b and (b[k:] + [None] * k if o == 'Shr' else [None] * k + b[:len(b) - k])
        if o == 'BitAnd':
            for x, y in (a, a[::-1]):
                if y.k == 'int':
                    b = bits(x, atom, w)
                    return b and [z if y.a[0] >> i & 1 else None for i, z in enumerate(b)]
        if o == 'BitOr':
            x, y = bits(a[0], atom, w), bits(a[1], atom, w)
            if x and y and not any(p is not None and q is not None for p, q in zip(x, y)):
                return [p if p is not None else q for p, q in zip(x, y)]
            return None
        if o in ('IntToInt', 'cast') or o.startswith('trunc'):
            b = bits(a[0], atom, w)
            k = int(o[5:]) if o.startswith('trunc') and o[5:].isdigit() else w
            return b and [z if i < k else None for i, z in enumerate(b)]
    return None


def lazies(n):
    """The initializers of statics in a term."""
    r = set()

    def f(x):
        if x.k in ('static', 'sym') and 'static_ref_initialize' in str(x.a):
            s = str(x.a)
            r.add(s[s.index('{<') + 1:s.index('__static_ref_initialize') + len('__static_ref_initialize')])
        return False
    any_node(n, f)
    return r


class Names:
    """What the tables of signals say."""

    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.memo = {}

    def pairs(self, key):
        """Constant pairs of a table, in either order: set of (number, name); None if it is none."""
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        r = None
        if key in self.prog.fns:
            m = paths(self.prog, key, lambda p, c: None, rep=self.rep)
            got = [p.result for p in m.paths if p.kind == 'return' and p.result is not None]
            if len(got) == 1 and got[0].k == 'seq':
                r = self.const(got[0])
            else:
                # Made from another.
                for g in got:
                    for s in (g.a[0] if g.k == 'seq' else ()):
                        if s[0] == 'one' and s[2].k == 'agg' and len(s[2].a[2]) == 2:
                            x, y = s[2].a[2]
                            src = lazies(x)
                            if len(src) == 1 and src == lazies(y) and x.k == y.k == 'fld' and x.a[0] is y.a[0] and {x.a[2], y.a[2]} == {0, 1}:
                                r = self.pairs(list(src)[0])
        self.memo[key] = r
        return r

    def const(self, s):
        r = set()
        for x in s.a[0]:
            if x[0] != 'one' or x[2].k != 'agg' or len(x[2].a[2]) != 2:
                return None
            v = {y.k: y.a[0] for y in map(strip, x[2].a[2])}
            if 'int' not in v or 'str' not in v:
                return None
            r.add((v['int'], v['str'] if isinstance(v['str'], str) else v['str'].decode()))
        return r

    def check(self):
        """Every constant table of signals in the program is right."""
        n = 0
        for k in sorted(self.prog.fns):
            if self.prog.local(k) and k.endswith('__static_ref_initialize') and k.startswith('<'):
                t = self.prog.P.types[self.prog.fns[k]['locals'][0]]['s']
                if 'HashMap' not in t and 'BTreeMap' not in t and 'Vec' not in t or 'i32' not in t:
                    continue
                p = self.pairs(k)
                if p is None:
                    continue
                n += 1
                for g, s in sorted(p):
                    self.rep.require(SIGNALS.get(s) == g, 'signal table: ' + s, 'a table says that %s is signal %d' % (s, g))
        return n

    def named(self, v, s):
        """Whether a term is the name of signal term s."""
        v = strip(v)
        if v.k == 'op' and v.a[0] in ('map_val', 'map_get') or v.k == 'fld' and v.a[0].k == 'op':
            o = v if v.k == 'op' else v.a[0]
            return len(o.a[1]) > 1 and strip(o.a[1][1]) is strip(s) and any(self.pairs(k) for k in lazies(o.a[1][0]))
        return False


def results(rep, prog, h, names):
    """A process's result, by its record."""
    P = prog.P
    stats = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in k and any(
        x in P.types[f['locals'][0]]['s'] for x in (STAT, 'FdRes>')) and 'clone' not in k]
    n = {'running': 0, 'exited': 0, 'signalled': 0}
    i = {f: field_index(P, PROC, f) for f in ('pid', 'errors', 'start_time', 'start_instant', 'wait_info', 'proc_stat', 'stop_time', 'elapsed')}
    ri = {f[0]: j for j, f in enumerate(P.tdef[RESULT]['variants'][0]['fields'])}
    si = {f[0]: j for j, f in enumerate(P.tdef[STATUS]['variants'][0]['fields'])}
    states = [v['name'] for v in P.tdef[STATE]['variants']]
    for key in h.results:
        m = paths(prog, key, lambda p, c: None, opaque=lambda k: k in stats, rep=rep, max_states=400000)
        eng = m.engine
        selfn = h.argname(key, 'procs::Proc')
        f = lambda x: mk('fld', selfn, 0, i[x])
        for p in m.paths:
            if p.kind != 'return':
                rep.violation('result ends: ' + p.kind, 'no result is made, by %s' % p.kind, p.trace)
                continue
            r, st = p.result, p.st
            if not rep.require(r.k == 'agg' and r.a[0] == RESULT, 'no result', 'the result of a process is %s' % show(r, 3), p.trace):
                continue
            g = lambda x: r.a[2][ri[x]]
            need = lambda c, k, msg: rep.require(c, k, msg, p.trace)
            done = eng.variant(st, f('wait_info'))
            errs = eng.rng(st, op('len', f('errors')))
            # State.
            s = g('state')
            name = states[s.a[1] or 0] if s.k == 'agg' else None
            want = 'Error' if errs[0] >= 1 else None if errs[1] != 0 else 'Running' if done == 0 else 'Terminated' if done == 1 else None
            need(name == want and want, 'state', 'the state is %s instead of %s' % (name, want))
            need(strip(g('pid')) is f('pid'), 'pid', 'the pid is %s' % show(g('pid'), 4))
            need(strip(g('errors')) is f('errors'), 'errors', 'the errors are %s' % show(g('errors'), 4))
            # Times.
            t = g('times')
            ti = {x[0]: j for j, x in enumerate(P.tdef[t.a[0]]['variants'][0]['fields'])} if t.k == 'agg' and t.a[0] in P.tdef else {}
            if need(ti, 'times', 'the times are %s' % show(t, 4)):
                has = lambda x, y: any_node(t.a[2][ti[x]], lambda z: z is y) is not None
                need(has('start', f('start_time')), 'start time', 'the start time is %s' % show(t.a[2][ti['start']], 4))
                stop = eng.variant(st, f('stop_time'))
                x = t.a[2][ti['stop']]
                need(stop is not None and (stop == 1 and x.k == 'agg' and x.a[1] == 1 and has('stop', mk('fld', f('stop_time'), 1, 0)) or stop == 0 and x.k == 'agg' and x.a[1] == 0)
                     or strip(x) is f('stop_time'), 'stop time', 'the stop time is %s' % show(x, 4))
                el = eng.variant(st, f('elapsed'))
                x = t.a[2][ti['elapsed']]
                need(el == 1 and any_node(x, lambda y: y.k == 'fld' and y.a[0] is f('elapsed')) is not None and not has('elapsed', f('start_instant')) or el == 0 and has('elapsed', f('start_instant')),
                     'elapsed', 'the elapsed time is %s' % show(x, 5))
                secs(rep, p, x)
            # Statistics.
            ps = eng.variant(st, f('proc_stat'))
            x = strip(g('proc_stat'))
            need(ps == 1 and x is f('proc_stat') or ps == 0 and x.k in ('res', 'op', 'agg') and any_node(x, lambda y: y is f('pid')) is not None and x.k != 'agg' or ps == 0 and done == 1,
                 'proc_stat', 'the process statistics are %s' % show(x, 4))
            x = strip(g('proc_statm'))
            none = lambda v: v.k == 'agg' and v.a[0] == OPT and v.a[1] == 0
            need(done == 1 and none(x) or done == 0 and any_node(x, lambda y: y is f('pid')) is not None, 'proc_statm', 'the memory statistics are %s' % show(x, 4))
            # Status and usage.
            sv, uv = g('status'), g('rusage')
            if done == 0:
                n['running'] += 1
                need(none(sv), 'status: running', 'a running process has status %s' % show(sv, 4))
                need(none(uv), 'usage: running', 'a running process has resource usage %s' % show(uv, 4))
                continue
            if not need(done == 1, 'not looked', 'the result does not depend on whether the process has terminated'):
                continue
            w = mk('fld', f('wait_info'), 1, 0)
            ws, wu = mk('fld', w, 0, 1), mk('fld', w, 0, 2)
            if need(sv.k == 'agg' and sv.a[0] == OPT and sv.a[1] == 1 and sv.a[2][0].k == 'agg' and sv.a[2][0].a[0] == STATUS, 'status: terminated',
                    'a terminated process has status %s' % show(sv, 4)):
                v = sv.a[2][0]
                status(rep, eng, p, n, names, lambda x: v.a[2][si[x]], ws)
            if need(uv.k == 'agg' and uv.a[0] == OPT and uv.a[1] == 1 and uv.a[2][0].k == 'agg' and uv.a[2][0].a[0] == USAGE, 'usage: terminated',
                    'a terminated process has resource usage %s' % show(uv, 4)):
                usage(rep, P, p, uv.a[2][0], wu)
    for k in n:
        rep.require(n[k], 'results: none ' + k, 'no result of a process that is %s was found' % k)
    rep.note(result_paths={k: v for k, v in n.items()})


def secs(rep, p, x):
    """The seconds of a duration: its seconds plus its nanoseconds / 1e9."""
    l = linear(x)
    ok_ = False
    if l is not None and None not in l:
        c = sorted(l.items(), key=lambda x: x[1])
        ok_ = len(c) == 2 and close(c[0][1], 1e-9) and close(c[1][1], 1) or len(c) == 1 and close(c[0][1], 1) and c[0][0].k in ('op', 'res') and fname(c[0][0]) == 'as_secs_f64'
    rep.require(ok_, 'elapsed unit', 'the elapsed time is not in seconds: %s' % show(x, 5), p.trace)


def status(rep, eng, p, n, names, g, ws):
    st = p.st
    need = lambda c, k, msg: rep.require(c, k, msg, p.trace)
    is_ = lambda v, nm: v.k in ('op', 'res') and fname(v) == nm and strip(opargs(v)[0]) is ws
    test = lambda nm: next((eng.truth(st, t) for t in st.facts if is_(t, nm)), None)
    ex, sg = test('WIFEXITED'), test('WIFSIGNALED')
    need(strip(g('status')) is ws, 'raw status', 'the raw status is %s' % show(g('status'), 4))
    exited = ex if ex is not None else (False if sg is True else None)
    signalled = sg if sg is not None else None if ex is None else not ex
    x = g('exit_code')
    none = lambda v: v.k == 'agg' and v.a[0] == OPT and v.a[1] == 0
    some_ = lambda v: v.a[2][0] if v.k == 'agg' and v.a[0] == OPT and v.a[1] == 1 else None
    if exited:
        n['exited'] += 1
        need(some_(x) is not None and is_(strip(some_(x)), 'WEXITSTATUS'), 'exit code', 'the exit code of a process that exited is %s' % show(x, 4))
        for y in ('signum', 'signal'):
            need(none(g(y)), y + ': exited', 'a process that exited has %s %s' % (y, show(g(y), 4)))
        v = g('core_dump')
        need(eng.truth(st, v) is False or is_(v, 'WCOREDUMP'), 'core dump: exited', 'a process that exited has core dump %s' % show(v, 4))
    elif signalled:
        n['signalled'] += 1
        need(none(x), 'exit code: signalled', 'a process ended by a signal has exit code %s' % show(x, 4))
        s = g('signum')
        if need(some_(s) is not None and is_(strip(some_(s)), 'WTERMSIG'), 'signal number', 'the signal number of a process ended by a signal is %s' % show(s, 4)):
            v = g('signal')
            if none(v):
                # Not known.
                need(any(t.k == 'op' and t.a[0] in ('map_get', 'map_has') and strip(t.a[1][1]) is strip(some_(s)) and eng.variant(st, t) == 0 for t in st.facts),
                     'signal name: none', 'no signal name is given although it may be known')
            else:
                need(some_(v) is not None and names.named(some_(v), some_(s)), 'signal name', 'the signal name is %s' % show(v, 4))
        v = g('core_dump')
        need(is_(v, 'WCOREDUMP') or any(is_(t, 'WCOREDUMP') and v.k == 'int' and eng.truth(st, t) is bool(v.a[0]) for t in st.facts), 'core dump', 'the core dump is %s' % show(v, 4))
    else:
        need(False, 'how ended', 'the status does not depend on how the process ended')


def usage(rep, P, p, v, wu):
    ku = [t for t in P.tdef if t.endswith('::rusage') or t.endswith('rusage')]
    for j, f in enumerate(P.tdef[USAGE]['variants'][0]['fields']):
        if f[0] not in KERNEL:
            continue
        kf, unit = KERNEL[f[0]]
        k = mk('fld', wu, 0, rusage_index(kf))
        l = linear(v.a[2][j])
        if unit == 'time':
            ok_ = l is not None and len(l) == 2 and close(l.get(mk('fld', k, 0, 0)), 1) and close(l.get(mk('fld', k, 0, 1)), 1e-6)
        else:
            ok_ = l is not None and len(l) == 1 and close(l.get(k), unit)
        rep.require(ok_, 'usage: ' + f[0], 'the %s reported is not %s %s: %s' % (f[0], kf, 'in seconds' if unit == 'time' else 'times %d' % unit if unit != 1 else '', show(v.a[2][j], 6)), p.trace)


RUSAGE = ('ru_utime', 'ru_stime', 'ru_maxrss', 'ru_ixrss', 'ru_idrss', 'ru_isrss', 'ru_minflt', 'ru_majflt', 'ru_nswap', 'ru_inblock', 'ru_oublock', 'ru_msgsnd', 'ru_msgrcv',
          'ru_nsignals', 'ru_nvcsw', 'ru_nivcsw')


def rusage_index(f):
    return RUSAGE.index(f)


class Parts:
    """Gives the parts of a split text their number."""

    def __init__(self, prog):
        self.prog = prog

    def base(self, v):
        return any_node(v, lambda n: n.k in ('op', 'res') and fname(n) in ('split', 'split_whitespace', 'split_ascii_whitespace', 'splitn', 'split_terminator'))

    def on_call(self, st, c, path, vals):
        eng = self.eng
        n = path.rsplit('::', 1)[-1]
        if n == 'from_secs_f64':
            return op('secs', models.value(eng, st, vals[0]))
        if n in ('next', 'nth', 'skip') and vals:
            v = models.freeze(eng, st, models.value(eng, st, vals[0]))
            for _ in range(3):
                if v.k == 'ref':
                    v = models.freeze(eng, st, models.value(eng, st, v))
            b = self.base(v)
            if b is None:
                return None
            k = next((m[2] for m in st.mon if isinstance(m, tuple) and m[0] == 'pos' and m[1] is b), 0)
            j = 0
            if n in ('nth', 'skip'):
                x = models.value(eng, st, vals[1])
                if x.k != 'int':
                    return None
                j = x.a[0]
            st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'pos' and m[1] is b)) | {('pos', b, k + j + (n != 'skip'))}
            if n == 'skip':
                return vals[0]
            return agg(OPT, 1, op('part', b, I(k + j)))
        return None

    def on_end(self, st, kind, *a):
        self.ends.append((st, kind, models.freeze(self.eng, st, a[0]) if a and isinstance(a[0], N) else None))


def parts_of(v):
    r = set()

    def f(n):
        if n.k == 'op' and n.a[0] == 'part':
            r.add(n)
            return False
        return False
    any_node(v, f)
    return r


def after_comm(text, b):
    """Whether a split text is what follows the last parenthesis; the number of its first part, or None."""
    # Cut at the last ')'.
    last = any_node(b, lambda n: n.k in ('op', 'res') and fname(n) in ('rsplit_once', 'rfind', 'rsplit', 'rsplitn') and any(y.k == 'int' and y.a[0] == 41 or y.k == 'str' and y.a[0] in (')', ') ')
                    for y in opargs(n)))
    if last is None:
        return None
    trim = any_node(b, lambda n: n.k in ('op', 'res') and fname(n) in ('trim', 'trim_start', 'split_whitespace', 'split_ascii_whitespace', 'trim_start_matches')) is not None or any_node(
        last, lambda n: n.k == 'str' and n.a[0] == ') ') is not None
    return 3 if trim else 2


def opened(v):
    """Cut at the first '('."""
    return any_node(v, lambda n: n.k in ('op', 'res') and fname(n) in ('split_once', 'find', 'splitn') and any(
        y.k == 'int' and y.a[0] == 40 or y.k == 'str' and y.a[0] in ('(', ' (') for y in opargs(n))) is not None


def part_atom(x):
    """A part, or its parse."""
    x = strip(x)
    if x.k == 'op' and x.a[0] == 'part':
        return x
    if x.k == 'fld' and x.a[0].k in ('op', 'res', 'old') and x.a[2] == 0:
        y = x.a[0]
        y = y.a[0] if y.k == 'old' else y
        if y.k in ('op', 'res') and fname(y) in ('parse', 'from_str', 'from_str_radix'):
            return part_atom(opargs(y)[0])
    if x.k in ('op', 'res') and fname(x) in ('parse', 'from_str', 'to_owned', 'to_string', 'from', 'into'):
        return part_atom(opargs(x)[0])
    return None


def istick(x):
    return any_node(x, lambda n: n.k in ('op', 'res') and (fname(n) == 'get_clk_tck' or fname(n) == 'sysconf' and any(y.k == 'int' and y.a[0] == 2 for y in opargs(n)))) is not None


def ispage(prog, x):
    if any_node(x, lambda n: n.k in ('op', 'res') and fname(n) == 'sysconf' and any(y.k == 'int' and y.a[0] == 30 for y in opargs(n))) is not None:
        return True
    for k in lazies(x):
        if k in prog.fns:
            m = paths(prog, k, lambda p, c: None)
            if all(p.result is not None and ispage(prog, p.result) for p in m.paths if p.kind == 'return'):
                return True
    return False


def fac(v):
    """A product or quotient as (numerator factors, denominator factors)."""
    v = strip(v)
    while v.k == 'op' and v.a[0] in ('IntToFloat', 'FloatToFloat', 'IntToInt', 'cast'):
        v = strip(v.a[1][0])
    if v.k == 'op' and v.a[0] == 'Mul':
        a, b = fac(v.a[1][0])
        c, d = fac(v.a[1][1])
        return a + c, b + d
    if v.k == 'op' and v.a[0] == 'Div':
        a, b = fac(v.a[1][0])
        c, d = fac(v.a[1][1])
        return a + d, b + c
    return [v], []


def statistics(rep, prog, names, expand):
    """Each field of the process statistics, by its position."""
    P = prog.P
    for adt, table, off in ((STAT, STAT_FIELDS, None), (STATM, STATM_FIELDS, 1)):
        fs = [f[0] for f in P.tdef[adt]['variants'][0]['fields']]
        keys = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in k and not k.startswith('<') and has_type(adt, P.types[f['locals'][0]]['s'])
                and f['argc'] == 1 and 'str' in P.types[f['locals'][1]]['s']]
        short = adt.rsplit('::', 1)[-1]
        if not keys:
            raise Missing('no function that parses %s' % short)
        for key in keys:
            m = Parts(prog)
            m.ends = []
            ticks = [k for k in prog.fns if prog.local(k) and 'clk_tck' in k]
            e = absint.Eng(P, [m], name=key, opaque=lambda k: k in expand or k in ticks)
            m.eng = e
            e.max_states = 200000
            e.start(key, default_args(prog, key))
            e.run()
            rep.engine(e)
            text = None
            rets = [(st, r) for st, k, r in m.ends if k == 'return']
            rep.require(rets, 'no parse: ' + short, 'parsing %s never succeeds' % short)
            for st, r in rets:
                if r.k == 'agg' and r.a[0] in (RES, OPT):
                    if r.a[1] == (1 if r.a[0] == RES else 0):
                        continue
                    r = r.a[2][0]
                if not rep.require(r.k == 'agg' and r.a[0] == adt, 'parse result: ' + short, 'parsing gives %s' % show(r, 3), st.trace()):
                    continue
                for j, f in enumerate(fs):
                    if f not in table:
                        rep.note(undocumented_fields=[short + '.' + f])
                        continue
                    pos, unit = table[f]
                    v = r.a[2][j]
                    position(rep, prog, e, st, names, expand, short, adt, f, pos, unit, v)
            rep.note(**{short + '_paths': len(rets), short + '_fields': len(fs)})


def void(e, st, adt, f, pos):
    """Whether the path found the field to have no value: -1 for tpgid; 0, or an unknown signal, for exit_signal."""
    none = -1 if f == 'tpgid' else 0
    for t in list(st.facts):
        q = [y for y in parts_of(t) if number(adt, y) == pos]
        if not q:
            continue
        if t.k == 'op' and t.a[0] in ('Eq', 'Ne') and any(x.k == 'str' and x.a[0] in (str(none), str(none).encode()) for x in t.a[1]):
            r = e.truth(st, t)
            if r is not None:
                return r == (t.a[0] == 'Eq')
        if f == 'exit_signal' and t.k == 'op' and t.a[0] == 'map_get' and part_atom(t.a[1][1]) is q[0] and e.variant(st, t) == 0:
            return True
        if part_atom(t) is q[0] and t.k == 'fld':
            r = e.rng(st, t)
            if r[0] == r[1] == none or f == 'tpgid' and r[1] == -1:
                return True
            if f == 'tpgid' and (r[0] > none or none in r[2]):
                return False
    return None


def position(rep, prog, e, st, names, expand, short, adt, f, pos, unit, v):
    need = lambda c, what: rep.require(c, '%s: %s.%s' % (what.split(' ')[0], short, f), '%s of %s: %s' % (what, f, show(v, 7)), st.trace())
    if adt == STAT and f in ('pid', 'comm'):
        if f == 'pid':
            cut = any_node(v, lambda n: n.k in ('op', 'res') and fname(n) in ('split_once', 'split', 'find', 'splitn', 'split_whitespace') and not any(
                y.k == 'int' and y.a[0] == 41 for y in opargs(n))) is not None
            need(cut and not any_node(v, lambda n: n.k in ('op', 'res') and fname(n).startswith('rsplit')), 'position')
        else:
            last = any_node(v, lambda n: n.k in ('op', 'res') and fname(n) in ('rsplit_once', 'rfind', 'rsplitn', 'rsplit') and any(y.k == 'int' and y.a[0] == 41 or y.k == 'str' for y in opargs(n)))
            first = any_node(v, lambda n: n.k in ('op', 'res') and fname(n) in ('split_once', 'find', 'splitn', 'split') and any(y.k == 'int' and y.a[0] == 41 or y.k == 'str' and y.a[0] == ')' for y in opargs(n)))
            need(last is not None and first is None and opened(v), 'position')
        return
    ps = parts_of(v)
    x = v
    if not ps and f == 'tpgid' and x.k == 'agg' and x.a[0] == OPT and x.a[1] == 0 or not ps and f == 'exit_signal' and x.k == 'agg' and x.a[1] == 0:
        need(void(e, st, adt, f, pos) is True, 'condition')
        return
    if not need(len(ps) == 1, 'position'):
        return
    part = list(ps)[0]
    k = number(adt, part)
    if not need(k == pos, 'position (%s instead of %d)' % (k, pos)):
        return
    if unit == 'raw':
        need(part_atom(x) is part, 'unit')
    elif unit in ('tick', 'page'):
        a, b = fac(x)
        if unit == 'tick':
            need(len(a) == 1 and len(b) == 1 and part_atom(a[0]) is part and istick(b[0]), 'unit')
        else:
            need(not b and len(a) == 2 and any(part_atom(y) is part and ispage(prog, z) for y, z in (a, a[::-1])), 'unit')
    elif unit == 'sigs':
        x = strip(x)
        need(x.k in ('op', 'res') and any(fname(x) == y.rsplit('::', 1)[-1] for y in expand) and part_atom(opargs(x)[0]) is part, 'unit')
    elif unit == 'sig':
        x = strip(x)
        need(x.k == 'agg' and x.a[0] == OPT and x.a[1] == 1 and any_node(x, lambda n: n.k == 'op' and n.a[0] in ('map_val', 'map_get') and any(names.pairs(q) for q in lazies(n))
                                                                       and part_atom(n.a[1][1]) is part) is not None, 'unit')
    elif unit == 'opt':
        need(void(e, st, adt, f, pos) is False, 'condition')
        need(x.k == 'agg' and x.a[0] == OPT and x.a[1] == 1 and part_atom(x.a[2][0]) is part, 'unit')
    elif unit == 'boot':
        need(istick(x) and any('BOOT' in y.upper() for y in lazies(x)) and any_node(x, lambda n: n.k == 'op' and n.a[0] == 'Div') is not None, 'unit')
    elif unit == 'dev':
        ok_ = x.k == 'agg' and len(x.a[2]) == 2
        if ok_:
            at = lambda n: part_atom(n) is part
            ma, mi = bits(x.a[2][0], at), bits(x.a[2][1], at)
            ok_ = bool(ma and mi and ma[:8] == list(range(8, 16)) and mi[:8] == list(range(8)) and all(z is None or z == i + 8 for i, z in enumerate(ma))
                       and all(z is None or i < 8 and z == i or z == i + 12 for i, z in enumerate(mi)))
        need(ok_, 'unit')


def number(adt, part):
    b, k = part.a[1]
    if adt == STATM:
        return k.a[0] + 1
    off = after_comm(None, b)
    return None if off is None else off + k.a[0]


class Mask:
    """Expanding a set of signals: a signal is named exactly if its bit is set."""

    def __init__(self, rep, prog, names, bitsn):
        self.rep, self.prog, self.names, self.b = rep, prog, names, bitsn
        self.seen = set()
        self.ends = 0

    def on_call(self, st, c, path, vals):
        last = path.rsplit('::', 1)[-1]
        if not (path.startswith(MAPS) and last == 'get'):
            return None
        eng = self.eng
        m = models.freeze(eng, st, models.value(eng, st, vals[0]))
        if not any(self.names.pairs(k) for k in lazies(m)):
            return None
        s = strip(models.freeze(eng, st, models.value(eng, st, vals[1])))
        ok_ = False
        for x in st.mon:
            if isinstance(x, tuple) and x[0] == 'bit' and x[2]:
                t = x[1]
                for x, y in (t.a[1], t.a[1][::-1]):
                    if x.k == 'op' and x.a[0] == 'BitAnd' and (t.a[0] == 'Ne' and y.k == 'int' and y.a[0] == 0 or t.a[0] == 'Eq' and any(y is z for z in x.a[1]) or t.a[0] == 'Gt' and y is t.a[1][1] and y.k == 'int' and y.a[0] == 0):
                        z = [w for w in x.a[1] if strip(w) is not self.b]
                        if len(z) == 1 and self.mask(z[0], s):
                            ok_ = True
                        if len(z) == 1 and z[0].k == 'int' and z[0].a[0] == 1:
                            # bits >> (s - 1) & 1.
                            sh = [w for w in x.a[1] if w.k == 'op' and w.a[0] == 'Shr' and strip(w.a[1][0]) is self.b]
                            if sh and self.off(sh[0].a[1][1], s):
                                ok_ = True
                    if x.k == 'op' and x.a[0] == 'BitAnd' and t.a[0] in ('Eq', 'Ne', 'Gt'):
                        sh = [w for w in x.a[1] if w.k == 'op' and w.a[0] == 'Shr' and strip(w.a[1][0]) is self.b]
                        if sh and any(w.k == 'int' and w.a[0] == 1 for w in x.a[1]) and self.off(sh[0].a[1][1], s) and y.k == 'int' and (
                                y.a[0] == 1 and t.a[0] == 'Eq' or y.a[0] == 0 and t.a[0] != 'Eq'):
                            ok_ = True
        self.rep.require(ok_, 'signal mask', 'signal %s is named though its bit, number %s, was not found to be set' % (show(s), '%d' % (s.a[0] - 1) if s.k == 'int' else 's - 1'), st.trace())
        r = eng.rng(st, s)
        self.seen.add((max(r[0], 1), min(r[1], 31)))
        return False

    def off(self, x, s):
        x = strip(x)
        if x.k == 'int' and s.k == 'int':
            return x.a[0] == s.a[0] - 1
        l, m = linear(x), linear(s)
        m = dict(m or {})
        m[None] = m.get(None, 0) - 1
        return l == m

    def mask(self, x, s):
        x = strip(x)
        if x.k == 'int' and s.k == 'int':
            return s.a[0] >= 1 and x.a[0] & 0xffffffff == 1 << (s.a[0] - 1)
        return x.k == 'op' and x.a[0] == 'Shl' and x.a[1][0].k == 'int' and x.a[1][0].a[0] == 1 and self.off(x.a[1][1], s)

    def on_assume(self, st, t, val):
        # What was found of the bits.
        if t.k == 'op' and t.a[0] in ('Ne', 'Eq', 'Gt') and len(t.a[1]) == 2 and any_node(t, lambda n: n is self.b) is not None:
            st.mon = frozenset(x for x in st.mon if not (isinstance(x, tuple) and x[0] == 'bit' and x[1] is t)) | {('bit', t, bool(val))}

    def on_end(self, st, kind, *a):
        self.ends += 1


def masks(rep, prog, names, expand):
    for key in expand:
        a = default_args(prog, key)
        m = Mask(rep, prog, names, a[0])
        e = absint.Eng(prog.P, [m], name=key)
        m.eng = e
        e.max_states = 200000
        e.start(key, a)
        e.run()
        rep.engine(e)
        if rep.require(m.seen, 'no masks', 'no signals of a mask are ever named'):
            miss = [s for s in range(1, 32) if not any(x <= s <= y for x, y in m.seen)]
            rep.require(not miss, 'signals missing', 'the signals %s of a mask are never named' % miss)
        rep.note(mask_signals=len(m.seen))


class When(c06.Mon):
    """The final statistics are read before the process is reaped, when they are still there."""

    def on_other(self, st, c, path, vals):
        k = c.get('key')
        if 'task' in st.mon and (k in self.loads or path in ('std::fs::read_to_string', 'std::fs::read')):
            v = [models.freeze(self.eng, st, models.value(self.eng, st, x)) for x in vals]
            pid = self.tag(st, 'pid')
            if any(any_node(x, lambda n: n is pid) is not None for x in v):
                self.count('loads')
                self.need('reaped' not in st.mon, 'read too late', 'the statistics of a process are read after it was reaped', st)
        return c06.Mon.on_other(self, st, c, path, vals)


def run(rep):
    prog = Prog.get()
    P = prog.P
    h = Handlers(prog)
    names = Names(rep, prog)
    rep.require(names.check(), 'no signal table', 'no constant table of signals was found')
    expand = [k for k, f in prog.fns.items() if prog.local(k) and f['kind'] == 'Item' and '{closure' not in k and f['argc'] == 1
              and P.types[f['locals'][1]]['s'] in ('i32', 'u32', 'u64', 'i64') and P.types[f['locals'][0]]['s'] == 'alloc::vec::Vec<alloc::string::String>']
    for f in (lambda: results(rep, prog, h, names), lambda: statistics(rep, prog, names, expand), lambda: masks(rep, prog, names, expand)):
        with part(rep):
            f()
    m = When(rep, prog)
    m.loads = [k for k, f in prog.fns.items() if prog.local(k) and has_type(STAT, P.types[f['locals'][0]]['s']) and f['argc'] == 1 and P.types[f['locals'][1]]['s'] == 'i32']
    reap.explore(rep, prog, m)
    for x in ('reaps', 'loads'):
        rep.require(m.n.get(x), 'no ' + x, 'the analysis found no %s' % x)
    return __doc__ + """ The result of an arbitrary record, on every path: state by errors and termination; exit code exactly where WIFEXITED holds of the recorded status,
        signal number and name exactly where it does not; usage figures as linear forms over the recorded rusage with the documented coefficients; times and
        statistics from the record.  Parsing of /proc statistics: the position (after the last parenthesis) and unit of each field against proc(5), device numbers bit
        by bit, signal masks (bit s - 1 for signal s), the tables of signal names against signal(7).  The life of a process in the parent: the statistics are
        read before it is reaped, and the record is complete (as in C06) whenever it can be observed."""
