"""The functions that wait for processes: what is true when they end."""
from handlers import *


def isrecv(x):
    return 'broadcast::Receiver' in x and x.endswith('::recv')


def waiters(prog):
    """Local async functions on the table that wait for its notifications."""
    P, G = prog.P, prog.G
    r = []
    for k, f in prog.fns.items():
        if prog.local(k) and f['kind'] == 'Item' and '{closure' not in f['path'] and P.types[f['locals'][0]]['k'] == 'coroutine' and f['argc'] and any(
                isrecv(x) for x in G.reach_ext(k)) and all('procs::SharedProcs' in P.types[f['locals'][i]]['s'] for i in range(1, f['argc'] + 1)):
            r.append(k)
    return sorted(r)


class Wait:
    """Obligations of a waiting loop."""

    def __init__(self, rep, prog, key):
        self.rep, self.prog, self.key = rep, prog, key
        self.rets = []
        self.recvs = 0

    def on_call(self, st, c, path, vals):
        return None

    def on_end(self, st, kind, *a):
        self.rets.append((st, kind))


def run_wait(prog, key, rep=None, empty=False, mon=None, max_states=300000):
    """Runs a waiter with a table that always holds an arbitrary process W, or that is empty."""
    args, cells = with_witness(prog, key)
    if empty:
        A = 'procstar::procs::Procs'
        i = field_index(prog.P, A, 'procs', 'BTreeMap<')
        v = cells[TABLE]
        cells = {TABLE: agg(v.a[0], 0, *[mk('seq', ()) if j == i else x for j, x in enumerate(v.a[2])])}
    m = mon or Wait(rep, prog, key)
    e = absint.Eng(prog.P, [m], name=key)
    e.max_states = max_states
    m.eng = e
    start_async(e, key, args, cells)
    e.run()
    if rep is not None:
        rep.engine(e)
    return m


def kind_of(prog, key, h):
    """'idle': ends only when the table is empty; 'running': only when nothing in it is running; None: other."""
    m = run_wait(prog, key)
    ends = [(st, k) for st, k in m.rets if k == 'return']
    if not ends:
        return 'idle'
    rec = mk('cont', sym('W:rec'))
    ok_ = True
    for st, _ in ends:
        ok_ = ok_ and settled(m.eng, st, h, prog.P)
    return 'running' if ok_ else None


def settled(eng, st, h, P):
    """Whether W was found not to be running."""
    ei = field_index(P, 'procstar::procs::Proc', 'errors')
    for t in list(st.facts):
        c = any_node(t, lambda x: x.k == 'cont' and any_node(x, lambda y: y is sym('W:rec')) is not None)
        if c is None:
            continue
        if eng.variant(st, mk('fld', c, 0, h.WAIT)) == 1 or eng.rng(st, op('len', mk('fld', c, 0, ei)))[0] >= 1:
            return True
    return False


def kinds_of(prog, h):
    """{waiting function: what is true when it ends}, without those that are made of others and end otherwise, or do more than wait, which are part of what calls them."""
    G = prog.G
    ks = waiters(prog)
    r = {k: kind_of(prog, k, h) for k in ks}

    def acts(k):
        return any(x.startswith('tokio::sync::watch::Sender') and ('send' in x or 'replace' in x) or x.rsplit('::', 1)[-1] in ('kill', 'killpg') for x in G.reach_ext(k))
    return {k: v for k, v in r.items() if not (any(j != k and r[j] is not None and j in G.reach(k) for j in ks) and (v is None or acts(k)))}
