"""What the demonstrations share: running procstar from the current directory's build, over HTTP or as an agent."""
import asyncio, base64, contextlib, json, os, pathlib, shutil, signal, socket, ssl, subprocess, sys, tempfile, time, urllib.error, urllib.request

REPO = os.getcwd()
EXE = os.path.join(REPO, 'target/debug/procstar')
sys.path.insert(0, os.path.join(REPO, 'python'))
sys.dont_write_bytecode = True
CERT = os.path.join(REPO, 'python/procstar/testing/localhost.crt')
KEY = os.path.join(REPO, 'python/procstar/testing/localhost.key')

SCRATCH = tempfile.mkdtemp(prefix='demo-')
os.chdir(SCRATCH)
_children = []
import ctypes
ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)    # Adopt what the service leaves behind, to end it.


def _descend():
    for _ in range(50):
        kids = []
        for t in os.listdir('/proc/self/task'):
            with contextlib.suppress(OSError):
                kids += open('/proc/self/task/%s/children' % t).read().split()
        if not kids:
            return
        for k in kids:
            with contextlib.suppress(OSError):
                os.kill(int(k), signal.SIGKILL)
            with contextlib.suppress(OSError):
                os.waitpid(int(k), os.WNOHANG)
        time.sleep(0.02)



def finish(ok, msg=''):
    for p in _children:
        with contextlib.suppress(Exception):
            os.killpg(p.pid, signal.SIGKILL)
    _descend()
    os.chdir('/')
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print('ok' if ok else 'FAILED: ' + str(msg))
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def _hook(*a):
    sys.__excepthook__(*a)
    finish(False, 'exception')


sys.excepthook = _hook


def check(cond, msg):
    if not cond:
        finish(False, msg)


def port():
    with socket.socket() as s:
        s.bind(('127.0.0.1', 0))
        return s.getsockname()[1]


def popen(args, **kw):
    p = subprocess.Popen(args, start_new_session=True, **kw)
    _children.append(p)
    return p


def start(*args, env=None, wrap=(), **kw):
    e = dict(os.environ)
    e.update(env or {})
    for f in ('stdout', 'stderr'):
        kw.setdefault(f, open(os.path.join(SCRATCH, f), 'ab'))
    return popen([*wrap, EXE, *args], env=e, **kw)


def spec(argv, fds=None, env=None, exe=None):
    s = {'argv': list(argv)}
    if fds is not None:
        s['fds'] = fds
    if env is not None:
        s['env'] = env
    if exe is not None:
        s['exe'] = exe
    return s


MEM = ['stdout', {'capture': {'mode': 'memory', 'encoding': 'utf-8'}}]


def batch(specs, *args, timeout=60, env=None, wrap=(), **kw):
    """Runs the processes to their ends and returns the results."""
    p = start('--exit', '--print', *args, '-', env=env, wrap=wrap, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    try:
        o, e = p.communicate(json.dumps({'specs': specs}).encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        finish(False, 'procstar does not exit')
    try:
        return json.loads(o)
    except ValueError:
        finish(False, 'no results (exit %s): %s %s' % (p.returncode, o[-500:], e[-500:]))


class Http:
    def __init__(self, *args, env=None, wrap=(), input=None, **kw):
        self.port = port()
        self.proc = start('--serve', '--serve-port', str(self.port), *args, env=env, wrap=wrap, **kw)
        self.pid = self.proc.pid
        for _ in range(200):
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                return
            except OSError:
                time.sleep(0.05)
        finish(False, 'no service')

    def req(self, method, path, body=None, timeout=20, raw=False, headers=None):
        """(status, body)"""
        d = body if isinstance(body, bytes) else None if body is None else json.dumps(body).encode()
        r = urllib.request.Request('http://127.0.0.1:%d%s' % (self.port, path), data=d, method=method, headers={'Content-Type': 'application/json', **(headers or {})})
        try:
            with urllib.request.urlopen(r, timeout=timeout) as f:
                b = f.read()
                st = f.status
        except urllib.error.HTTPError as e:
            b = e.read()
            st = e.code
        except OSError as e:
            return None, repr(e)
        if raw:
            return st, b
        try:
            return st, json.loads(b) if b else None
        except ValueError:
            return st, b

    def start(self, **specs):
        return self.req('POST', '/procs', {'specs': specs})

    def get(self, id):
        st, b = self.req('GET', '/procs/' + id)
        check(st == 200, 'GET of %s: %s %s' % (id, st, b))
        return b['data']['procs'][id]

    def until(self, id, state='terminated', timeout=20):
        t = time.time() + timeout
        while time.time() < t:
            r = self.get(id)
            if r.get('state') == state:
                return r
            time.sleep(0.05)
        finish(False, '%s is not %s: %s' % (id, state, r))

    def alive(self):
        return self.proc.poll() is None


class Agent:
    """A server of one agent: `async with Agent() as a`."""

    def __init__(self, *args, env=None, token='sesame', wrap=(), url_host='localhost', attempts='1'):
        self.args, self.env, self.token, self.wrap, self.host, self.attempts = args, env or {}, token, wrap, url_host, attempts
        self.conns = asyncio.Queue()
        self.seen = []

    async def __aenter__(self):
        import websockets.server
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(CERT, KEY)
        self.ctx = ctx
        self.port = port()

        async def handler(ws, *a):
            c = Conn(ws)
            await self.conns.put(c)
            await ws.wait_closed()

        self.handler = handler
        await self.listen()
        self.proc = start('--agent', '--agent-host', self.host, '--agent-port', str(self.port), '--conn-id', 'c1', '--group-id', 'g1',
                          *(['--connect-count-max', self.attempts] if self.attempts else []), *self.args,
                          env={'PROCSTAR_AGENT_CERT': CERT, 'PROCSTAR_AGENT_TOKEN': self.token, **self.env}, wrap=self.wrap)
        self.pid = self.proc.pid
        return self

    async def listen(self):
        import websockets.server
        self.ws_server = await websockets.server.serve(self.handler, 'localhost', self.port, ssl=self.ctx, max_size=None)

    async def close(self):
        self.ws_server.close()
        await self.ws_server.wait_closed()

    async def conn(self, timeout=20):
        try:
            return await asyncio.wait_for(self.conns.get(), timeout)
        except asyncio.TimeoutError:
            finish(False, 'the agent does not connect')

    async def __aexit__(self, *a):
        pass

    def alive(self):
        return self.proc.poll() is None


class Conn:
    def __init__(self, ws):
        self.ws = ws
        self.log = []

    async def send(self, type, **kw):
        import msgpack
        await self.ws.send(msgpack.packb({'type': type, **kw}))

    async def raw(self, b):
        await self.ws.send(b)

    async def recv(self, timeout=10):
        """The next message; None at the end of the connection, Ellipsis if there is none."""
        import msgpack, websockets
        try:
            m = await asyncio.wait_for(self.ws.recv(), timeout)
        except asyncio.TimeoutError:
            return ...
        except websockets.ConnectionClosed:
            return None
        m = msgpack.unpackb(m)
        self.log.append(m)
        return m

    async def until(self, type, timeout=10, **kw):
        """The next message of a type, with these values."""
        end = time.time() + timeout
        while True:
            m = await self.recv(max(0.01, end - time.time()))
            if m is ... or m is None:
                return None
            if m.get('type') == type and all(m.get(k) == v for k, v in kw.items()):
                return m

    async def quiet(self, seconds):
        """The messages that come within some time."""
        r = []
        end = time.time() + seconds
        while True:
            m = await self.recv(max(0.01, end - time.time()))
            if m is ... or m is None:
                return r
            r.append(m)


def run(main, timeout=120):
    async def go():
        try:
            await asyncio.wait_for(main(), timeout)
        except asyncio.TimeoutError:
            finish(False, 'timed out')
        except SystemExit:
            raise
        except BaseException as e:
            import traceback
            traceback.print_exc()
            finish(False, repr(e))
        finish(True)
    asyncio.run(go())
