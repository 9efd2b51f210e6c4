"""The Python server, interpreted: what the environment of the sources does."""
from pyai import *

PROC, CONN, SERVER, PROTO = 'procstar.agent.proc', 'procstar.agent.conn', 'procstar.agent.server', 'procstar.proto'
LOGS = ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log')


class Py(Interp):
    """Library functions that matter to the server."""
    prompt = False          # nothing times out

    def lib(self, name, recv, args, kw):
        last = name.rsplit('.', 1)[-1]
        if name in ('asyncio.Queue', 'asyncio.queues.Queue'):
            self.n += 1
            return Sym('queue', (self.n,), nn=True)
        if name in ('.put_nowait', '.put'):
            self.event('deliver', recv, args[0])
            return None if name == '.put_nowait' else self.done()
        if name.startswith('logging.') and last in LOGS or last in LOGS and isinstance(recv, Sym) and self.islogger(recv):
            self.event('log', *[self.format(a) for a in args])
            return None
        if name in ('hmac.compare_digest', 'secrets.compare_digest'):
            return self.equal(args[0], args[1])
        if name == '.encode':
            return recv
        if name in ('asyncio.create_task', 'asyncio.ensure_future', '.create_task'):
            self.n += 1
            t = Obj(TASK, {}, tag=self.n)
            self.event('spawn', args[0], t)
            return t
        if name == 'asyncio.sleep':
            return Sym('sleep', tuple(args) + (('#', self.tick()),))
        if name in ('asyncio.wait_for',):
            aw = args[0]
            to = args[1] if len(args) > 1 else kw.get('timeout')
            return Obj(WAIT, {'aw': aw, 'to': to})
        if name == 'random.choice':
            xs = self.iterate(args[0])
            if not xs:
                self.throw('IndexError')
            return xs[self.choose(len(xs), 'random choice')]
        if name in ('time.monotonic', 'time.time'):
            return Sym('clock', (self.tick(),), ty='float')
        if name == 'time.perf_counter':
            return Sym('clock', (self.tick(),), ty='float')
        return NotImplemented

    def done(self):
        return Obj(WAIT, {'aw': None, 'to': None})

    def tick(self):
        self.n += 1
        return self.n

    def islogger(self, r):
        return r.op == 'call' and r.args[0] == Sym('lib', ('logging.getLogger',)) or r == Sym('lib', ('logging',))

    def await_(self, v):
        if isinstance(v, Obj) and v.cls is WAIT:
            aw = v.attrs['aw']
            if aw is None:
                return None
            if v.attrs['to'] is not None and not self.prompt and self.choose(2, 'time-out') == 1:
                self.suspend()
                self.throw('TimeoutError')
            return self.await_(aw)
        return Interp.await_(self, v)


TASK = Cls('Task')
TASK.ns['cancel'] = Native('Task.cancel', lambda I, a, k: I.event('cancel', a[0]))
TASK.ns['done'] = Native('Task.done', lambda I, a, k: I.decide(('done', a[0].tag, I.tick()), 'task is done'))
WAIT = Cls('Wait')


def messages(I):
    """An instance of each class of message, with symbolic fields."""
    m = I.module(PROTO)
    cs = [v for _, v in I.entries(m.ns['INCOMING_MESSAGE_TYPES'])]
    return cs + [m.ns['ConnectionTimeout']]


def instance(I, c, **kw):
    return I.construct(c, [], {n: kw[n] if n in kw else Sym('msg.' + n) for n, _ in I.fields(c)})


def table(I, o):
    """The tables of an object: the attributes that are dictionaries."""
    return {k: v for k, v in o.attrs.items() if isinstance(v, Map)}


def queue_of(p):
    for v in p.attrs.values():
        if isinstance(v, Sym) and v.op == 'queue':
            return v
    return None


def find_method(I, mod, pred):
    for c in I.module(mod).ns.values():
        if isinstance(c, Cls) and c.mod == mod:
            for f in c.ns.values():
                if isinstance(f, Func) and pred(c, f):
                    return c, f
    return None, None
