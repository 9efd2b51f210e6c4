"""C22: the event loop never blocks on a child or peer."""
import re
from c10 import fmt
from startp import *
from paths import start_async, default_args
import paths as pathsmod
import absint
import models
from absint import show, any_node

WAITS = {'wait4': 2, 'waitpid': 2, 'waitid': 3}
WNOHANG = 1
O_NONBLOCK = 0o4000
BLOCK = [re.compile(x) for x in (
    r'^std::thread::(\w+::)*(sleep|sleep_ms|sleep_until|park|park_timeout)$', r'^std::thread::(\w+::)*(JoinHandle|ScopedJoinHandle)(::<.*>)?::join$', r'^std::thread::(\w+::)*scope$',
    r'^std::process::(Command::(output|status)|Child::(wait|wait_with_output))$',
    r'^std::sync::(\w+::)*mpsc::(Receiver|Iter)(::<.*>)?::(recv|recv_timeout|iter|recv_deadline)$', r'^<std::sync::(\w+::)*mpsc::\w*Iter<.*> as .*>::next$', r'^std::sync::(\w+::)*SyncSender(::<.*>)?::send$',
    r'^std::sync::(\w+::)*Condvar::wait\w*$', r'^std::sync::(\w+::)*Barrier::wait$',
    r'^tokio::.*::blocking_(recv|recv_many|send|lock|read|write|lock_owned|recv_many)$', r'^tokio::(\w+::)*(Runtime|Handle|LocalSet|LocalRuntime)::block_on$', r'^tokio::task::(\w+::)*block_in_place$',
    r'^futures(_executor)?::.*::block_on(_stream)?$', r'^futures_executor::', r'^(crossbeam\w*|flume|async_channel)::.*::(recv|send|recv_timeout|recv_blocking|send_blocking|wait)$',
    r'^std::net::(\w+::)*(TcpStream|TcpListener|UdpSocket)::(connect|connect_timeout|accept|incoming|recv|recv_from|peek|peek_from|send|send_to)$',
    r'^std::os::unix::net::(\w+::)*Unix\w+::(connect|accept|incoming|recv\w*|send\w*)$',
    r'^tungstenite::(\w+::)*(connect|accept)(_with_config)?$', r'^ureq::', r'^reqwest::blocking::',
    r'^libc::(\w+::)*(sleep|usleep|nanosleep|clock_nanosleep|pause|sigsuspend|sigwait|sigwaitinfo|sigtimedwait|select|pselect|poll|ppoll|epoll_wait|epoll_pwait|flock|lockf|system|pclose|recv|recvfrom|'
    r'recvmsg|accept|accept4|connect|msgrcv|semop|mq_receive|wait|wait3|tcdrain|pthread_join|pthread_cond_wait|sem_wait)$')]
READ = re.compile(r'::(Read|BufRead)>?::(read\w*|bytes|lines|split|skip_until|fill_buf)$|^libc::(\w+::)*(read|readv)$|::io::(\w+::)*(copy|read_to_string)(::<.*>)?$')
WRITE = re.compile(r'::Write>?::(write\w*|flush)$|^libc::(\w+::)*(write|writev)$')
STREAM = re.compile(r'(std::net::(\w+::)*TcpStream|std::os::unix::net::(\w+::)*UnixStream|std::process::Child(Stdin|Stdout|Stderr)|::Pipe(Reader|Writer))\b')
SEEK = re.compile(r'Seek>::|Seek::(seek|rewind)|^libc::(\w+::)*lseek|^libc::(\w+::)*(pread|preadv)|read_at$|read_exact_at$')
OPENS = re.compile(r'^std::fs::(File::(open|create|create_new|options)|OpenOptions::open|read|read_to_string|write|copy)$|^libc::(\w+::)*(open|openat|open64|creat|fopen)$')


def blocks(x):
    return any(r.search(x) for r in BLOCK)


class Mon(ForkMon):
    def __init__(self, rep, prog, what):
        self.rep, self.prog, self.what = rep, prog, what
        self.n = {}

    def where(self, st):
        f = st.fr
        while f is not None:
            g = self.prog.fns.get(f.key)
            if g and self.prog.local(f.key):
                return g['path'].split('::{')[0]
            f = f.up
        return self.what

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def on_call(self, st, c, path, vals):
        n = sysname(path)
        if n in ('fork', 'vfork'):
            return self.fork(st, c, path)
        if 'child' in st.mon:
            return None
        if n in WAITS:
            self.count('waits')
            eng = self.eng
            o = models.value(eng, st, vals[WAITS[n]])
            ok = o.k == 'int' and o.a[0] & WNOHANG
            self.rep.require(ok, 'blocking wait: ' + self.where(st), '%s waits for a process (%s with options %s)' % (self.where(st), n, show(o, 4)), st.trace())
            pid = models.freeze(eng, st, models.value(eng, st, vals[0]))
            for m in st.mon:
                if isinstance(m, tuple) and m[0] == 'polled' and m[1] is pid:
                    lo, hi, _ = eng.rng(st, m[2])
                    self.rep.obligation('repeated waits')
                    if lo == hi == 0:
                        self.rep.violation('polling: ' + self.where(st), '%s polls for the end of a process without suspending' % self.where(st), st.trace())
                        return False
            r = eng.fresh(st, n, eng.site(st))
            st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'polled')) | {('polled', pid, r)}
            return r
        if blocks(path):
            self.count('blocking calls')
            self.rep.violation('blocks: %s: %s' % (self.where(st), path), '%s calls %s on the event loop' % (self.where(st), path), st.trace())
            return None
        if SEEK.search(path):
            st.mon = st.mon | {'sought'}
            return None
        if READ.search(path) or WRITE.search(path):
            self.count('reads and writes')
            a = models.freeze(self.eng, st, models.value(self.eng, st, vals[0]))
            ts = [self.prog.P.types[x]['s'] for x in c.get('targs') or () if isinstance(x, int)]
            stream = STREAM.search(path) or any(STREAM.search(x) for x in ts)
            raw = n in ('read', 'readv') or any_node(a, lambda x: x.k in ('res', 'op', 'agg') and ('from_raw_fd' in str(x.a[0]) or str(x.a[0]).endswith('::from')))
            if stream or raw and READ.search(path) and 'sought' not in st.mon:
                self.rep.violation('blocking read: ' + self.where(st), '%s reads or writes a descriptor that may be a pipe or socket, on the event loop (%s)' % (self.where(st), path), st.trace())
            return None
        if self.what == 'start' and OPENS.search(path):
            self.count('opens')
            a = [models.freeze(self.eng, st, models.value(self.eng, st, v)) for v in vals]
            t = a[0] if 'OpenOptions' not in path else a[1]
            # The ID of a process, which may be told apart by the request it was started for, names what the kernel provides.
            f = fmt(t)
            if f and isinstance(f[0], str) and f[0].startswith('/proc/') and all(isinstance(x, str) or x.k in ('res', 'op') and sysname(str(x.a[0])) in ('fork', 'vfork') for x in f):
                return None
            req = any_node(t, lambda x: x.k == 'sym' and str(x.a[0]).startswith(('specs', 'procs')) or x.k == 'sym' and x.a[0] == 'spec')
            nb = n and len(a) > 1 and a[1].k == 'int' and a[1].a[0] & O_NONBLOCK
            self.rep.require(not req or nb, 'blocking open: ' + self.where(st), '%s opens a file that a request names, which may be a named pipe' % self.where(st), st.trace())
        return None

    def on_suspend(self, st, *a):
        self.waited(st)

    def on_poll(self, st, *a):
        self.waited(st)

    def on_ready(self, st, *a):
        # Of what another task or the system provides.
        self.waited(st)

    def waited(self, st):
        st.mon = frozenset(m for m in st.mon if not (isinstance(m, tuple) and m[0] == 'polled'))

    def on_spawn(self, st, f):
        if 'task' not in st.mon and 'child' not in st.mon:
            self.eng.branch(st, f, frozenset({'task'}))


def off_loop(prog):
    """Bodies that run on other threads."""
    P = prog.P
    r = set()
    for k, f in prog.fns.items():
        for b in f['blocks']:
            t = b['t']
            if t[0] != 'call' or not t[1].get('const'):
                continue
            c = t[1]['const']
            fn = c.get('fn') or (P.types[c['ty']].get('fn') if c.get('ty') is not None else None) or {}
            p = fn.get('path') or fn.get('decl') or ''
            if p.endswith(('::spawn_blocking', 'thread::spawn', 'thread::functions::spawn', 'Builder::spawn')) and 'spawn_local' not in p:
                for a in fn.get('targs') or ():
                    if isinstance(a, int) and P.types[a].get('body') in prog.fns:
                        r.add(P.types[a]['body'])
    return r


def loop_code(prog, start):
    """Functions that may run on the event loop, but for what starts processes: {function: how it is reached}."""
    G = prog.G
    cut = off_loop(prog) | {start}
    r = {}
    q = [k for k in sorted(prog.fns) if prog.local(k) and prog.fns[k]['cor'] and k not in cut]
    for k in q:
        r[k] = None
    while q:
        k = q.pop(0)
        for y in sorted(G.edges.get(k, ())):
            if y not in r and y not in cut:
                r[y] = k
                q.append(y)
    return r


def how(prog, r, k):
    p = []
    while k is not None:
        p.append(prog.fns[k]['path'])
        k = r[k]
    return ' -> '.join(reversed(p))


def graph(rep, prog, start):
    r = loop_code(prog, start)
    n = 0
    for k in sorted(r):
        for x in sorted(prog.G.ext[k]):
            if x.startswith(('decl ', 'static ')):
                continue
            n += 1
            if blocks(x):
                o = k
                while o is not None and not prog.local(o):
                    o = r[o]
                o = prog.fns[o or k]['path'].split('::{')[0]
                rep.violation('blocks: %s: %s' % (o, x), 'the event loop can call %s, which blocks: %s' % (x, how(prog, r, k)), [{'file': prog.fns[k]['file'], 'line': prog.fns[k]['line'], 'event': x}])
    rep.obligation('calls on the event loop', n)
    rep.fns.update(k for k in r)
    rep.note(event_loop_functions=len(r))


def called(prog, k):
    """Paths of the functions called in a body."""
    P = prog.P
    for b in prog.fns[k]['blocks']:
        t = b['t']
        if t[0] == 'call' and t[1].get('const'):
            c = t[1]['const']
            fn = c.get('fn') or (P.types[c['ty']].get('fn') if c.get('ty') is not None else None) or {}
            for x in (fn.get('path'), fn.get('decl')):
                if x:
                    yield x


def interesting(x):
    return sysname(x) in WAITS or READ.search(x) is not None or STREAM.search(x) is not None and WRITE.search(x) is not None


def roots(prog, start):
    """Functions to analyse from, for the functions that wait or read themselves: the innermost functions with one, and for waiting the innermost asynchronous ones."""
    r = loop_code(prog, start)
    G = prog.G
    waits = {k for k in r if any(sysname(x) in WAITS for x in G.ext[k])}
    reads = {k for k in r if prog.local(k) and any(interesting(x) and sysname(x) not in WAITS for x in called(prog, k))}
    futures = {}
    for k in prog.fns:
        if not prog.local(k) or prog.fns[k]['cor'] or prog.fns[k]['kind'] != 'Item' or '{closure' in prog.fns[k]['path']:
            continue
        t = prog.P.types[prog.fns[k]['locals'][0]]
        if t['k'] == 'coroutine' and t.get('body') in r:
            futures[k] = t['body']
    out = {(k, b) for k, b in futures.items() if G.reach(b) & waits}
    out = {(k, b) for k, b in out if not any(j != k and c in G.reach(b) and b not in G.reach(c) for j, c in out)}
    for x in reads:
        if not prog.fns[x]['cor'] and prog.fns[x]['kind'] == 'Item' and '{closure' not in prog.fns[x]['path']:
            out.add((x, None))
        else:
            own = {(k, b) for k, b in futures.items() if x in G.reach(b)}
            out |= {(k, b) for k, b in own if not any(j != k and c in G.reach(b) and b not in G.reach(c) for j, c in own)}
    return sorted(out, key=str)


def explore(rep, prog, start, k, body):
    m = Mon(rep, prog, prog.fns[k]['path'])
    base = prog.opaque(lambda x: interesting(x) or blocks(x) or SEEK.search(x) is not None)
    e = absint.Eng(prog.P, [m], opaque=lambda key: key == start or '::{closure' not in key and base(key), name=k)
    if body is None:
        e.start(k, default_args(prog, k))
    else:
        start_async(e, k, default_args(prog, k))
    e.run()
    rep.engine(e)
    rep.obligation('calls that wait or read', sum(m.n.values()))
    for a, b in m.n.items():
        rep.note(**{'%s in %s' % (a, prog.fns[k]['path']): b})
    if any(sysname(x) in WAITS for j in (prog.G.reach(body or k)) for x in prog.G.ext[j]):
        rep.require(m.n.get('waits'), 'waits not analysed', 'the analysis found no call of wait in %s' % prog.fns[k]['path'])


def starting(rep, prog, start):
    m = Mon(rep, prog, 'start')
    rel = lambda x: interesting(x) or blocks(x) or sysname(x) in ('fork', 'vfork') or SEEK.search(x) is not None or OPENS.search(x) is not None or x == 'std::process::exit'
    base = prog.opaque(rel, leaves=True)
    e = absint.Eng(prog.P, [m], opaque=lambda key: '::{closure' not in key and base(key), name=start)
    e.start(start, start_args(prog, start))
    e.run()
    rep.engine(e)
    rep.note(starting=m.n)


def run(rep):
    prog = Prog.get()
    start = start_fn(prog)
    rs = roots(prog, start)
    rep.parallel([lambda r: graph(r, prog, start), lambda r: starting(r, prog, start)] + [lambda r, k=k, b=b: explore(r, prog, start, k, b) for k, b in rs])
    return __doc__ + """ In the call graph of the monomorphised program, no function that always may block (sleeping, joining, blocking channel, lock-wait, socket and process functions) is
        reachable from a future of the service, except in forked children and on other threads (spawn_blocking).  Where the arguments decide, abstract interpretation of the futures and of the
        parent's side of starting a process checks every path: waiting for a process has WNOHANG and is not repeated without suspending, descriptors that may be pipes are not read synchronously,
        and a file named by a request is not opened in the parent."""
