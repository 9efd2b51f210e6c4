"""C21: no borrow of shared state across a suspension or into a conflicting one."""
import re
from common import Missing, Prog

# Types whose values are borrows or locks: (what, whether exclusive).
GUARDS = [(r'core::cell::Ref$', 'cell', 0), (r'core::cell::RefMut$', 'cell', 1),
          (r'std::sync::.*RwLockReadGuard$', 'lock', 0), (r'std::sync::.*RwLockWriteGuard$', 'lock', 1), (r'std::sync::.*MutexGuard$', 'lock', 1),
          (r'std::sync::.*Mapped\w*ReadGuard$', 'lock', 0), (r'std::sync::.*Mapped\w*Guard$', 'lock', 1),
          (r'std::sync::.*ReentrantLockGuard$', 'lock', 0),
          (r'tokio::sync::watch::Ref$', 'watch', 0),
          (r'parking_lot::.*ReadGuard$', 'lock', 0), (r'parking_lot::.*Guard$', 'lock', 1), (r'lock_api::.*ReadGuard$', 'lock', 0), (r'lock_api::.*Guard$', 'lock', 1)]
# Functions that borrow or lock for the time of the call or until the guard is gone, and fail or block on a conflict.
ACQ = [(r'core::cell::RefCell::<T>::borrow$', 'cell', 0), (r'core::cell::RefCell::<T>::(borrow_mut|replace|replace_with|swap|take)$', 'cell', 1),
       (r'std::sync::.*RwLock::<T>::read$', 'lock', 0), (r'std::sync::.*RwLock::<T>::write$', 'lock', 1), (r'std::sync::.*Mutex::<T>::lock$', 'lock', 1),
       (r'tokio::sync::watch::(Receiver|Sender)::<T>::(borrow|borrow_and_update)$', 'watch', 0),
       (r'tokio::sync::watch::Sender::<T>::(send|send_replace|send_modify|send_if_modified)$', 'watch', 1),
       (r'(parking_lot|lock_api)::.*RwLock.*::read$', 'lock', 0), (r'(parking_lot|lock_api)::.*(RwLock.*::write|Mutex.*::lock)$', 'lock', 1)]
LEAK = re.compile(r'(core::mem::forget|ManuallyDrop::<T>::new|Box::<T>::leak|core::mem::MaybeUninit::<T>::new)$')
KEEP = re.compile(r'(alloc::boxed::Box|alloc::rc::Rc|alloc::sync::Arc|core::cell::RefCell|core::cell::Cell|core::cell::OnceCell)::<T>::(new|pin|set|replace)$')


class Types:
    def __init__(self, P):
        self.P = P
        self._g = {}
        self._c = {}

    def kids(self, t):
        ty = self.P.types[t]
        r = [a for a in ty.get('args') or () if isinstance(a, int)]
        for k in ('elem', 'inner', 'pointee', 'ty'):
            if isinstance(ty.get(k), int):
                r.append(ty[k])
        return r

    def guards(self, t):
        """The borrows that a value of a type may hold: {(what, type, exclusive)}."""
        r = self._g.get(t)
        if r is not None:
            return r
        self._g[t] = frozenset()
        ty = self.P.types[t]
        out = set()
        if ty['k'] in ('ref', 'ptr', 'rawptr', 'fndef', 'fnptr', 'dyn'):
            return self._g[t]
        d = ty.get('def') or ''
        for rx, what, ex in GUARDS:
            if ty['k'] in ('struct', 'adt', 'enum') and re.search('(^|::)?' + rx, d):
                a = [x for x in ty.get('args') or () if isinstance(x, int)]
                out.add((what, self.P.types[a[0]]['s'] if a else '', ex))
                break
        else:
            if ty['k'] not in ('coroutine',):
                for a in self.kids(t):
                    out |= self.guards(a)
                if d.startswith('procstar::'):
                    for v in ty.get('variants') or ():
                        for _, ft in v['fields']:
                            if isinstance(ft, int):
                                out |= self.guards(ft)
            else:
                for a in ty.get('args') or ():
                    out |= self.guards(a)
        self._g[t] = frozenset(out)
        return self._g[t]

    def bodies(self, t, poll, seen=None):
        """Bodies of closures and functions (and futures, if they are polled) in a type."""
        seen = set() if seen is None else seen
        if t in seen or len(seen) > 400:
            return set()
        seen.add(t)
        ty = self.P.types[t]
        r = set()
        if ty['k'] == 'closure' or ty['k'] == 'coroutine' and poll:
            if ty.get('body') in self.P.fns:
                r.add(ty['body'])
        if ty['k'] == 'fndef' and (ty.get('fn') or {}).get('key') in self.P.fns:
            r.add(ty['fn']['key'])
        if ty['k'] == 'coroutine' and not poll:
            return r
        for a in self.kids(t):
            r |= self.bodies(a, poll, seen)
        for nm in ('next', 'poll'):
            if ty.get(nm) in self.P.fns and (nm == 'next' or poll):
                r.add(ty[nm])
        return r


class A:
    """Which cells and locks each function may borrow."""

    def __init__(self, prog):
        self.prog, self.P = prog, prog.P
        self.T = Types(prog.P)
        self.direct, self.edges = {}, {}
        for k, f in prog.fns.items():
            d, e = set(), set()
            for b in f['blocks']:
                if b['cl']:
                    continue
                t = b['t']
                if t[0] == 'call':
                    ds, es = self.call(t)
                    d |= ds
                    e |= es
                elif t[0] == 'drop' and t[4] in prog.fns:
                    e.add(t[4])
            self.direct[k], self.edges[k] = d, e
        self.all = {k: set(d) for k, d in self.direct.items()}
        rev = {}
        for k, e in self.edges.items():
            for y in e:
                rev.setdefault(y, set()).add(k)
        work = list(self.all)
        while work:
            y = work.pop()
            for k in rev.get(y, ()):
                if not self.all[y] <= self.all[k]:
                    self.all[k] |= self.all[y]
                    work.append(k)

    def call(self, t):
        """A call's own borrowing, and the functions it may run."""
        P = self.P
        o = t[1]
        d, e = set(), set()
        c = o.get('const')
        fn = (c or {}).get('fn')
        if c and fn is None and c.get('ty') is not None and P.types[c['ty']]['k'] == 'fndef':
            fn = P.types[c['ty']]['fn']
        if fn is None:
            pl = o.get('move') or o.get('copy')
            if pl:
                e |= self.T.bodies(pl[2], False)
            return d, e
        if fn.get('key') in P.fns:
            e.add(fn['key'])
            return d, e
        path = fn.get('path') or fn['decl']
        for rx, what, ex in ACQ:
            if re.search(rx, path):
                a = [x for x in fn.get('targs') or () if isinstance(x, int)]
                d.add((what, P.types[a[0]]['s'] if a else '', ex))
        last = path.rsplit('::', 1)[-1]
        if not last.startswith('spawn'):
            poll = last in ('poll', 'poll_next', 'block_on', 'run_until', 'now_or_never') or last.startswith('poll')
            for a in fn.get('targs') or ():
                if isinstance(a, int):
                    e |= self.T.bodies(a, poll)
            for x in t[2]:
                pl = x.get('move') or x.get('copy')
                if pl:
                    e |= self.T.bodies(pl[2], poll)
        return d, e

    def why(self, k, want):
        """A call path from a function to a borrow."""
        prev = {k: None}
        q = [k]
        while q:
            x = q.pop(0)
            if want in self.direct[x]:
                r = []
                while x is not None:
                    r.append(self.P.fns[x]['path'])
                    x = prev[x]
                return ' -> '.join(reversed(r))
            for y in sorted(self.edges[x]):
                if y not in prev and want in self.all[y]:
                    prev[y] = x
                    q.append(y)
        return ''


def conflict(g, a):
    return g[0] == a[0] and g[1] == a[1] and (g[2] or a[2])


def pkey(pl):
    return (pl[0],) + tuple(x if isinstance(x, str) else tuple(x[:2]) for x in pl[1])


def show(g):
    return '%s of %s' % (('exclusive ' if g[2] else 'shared ') + {'cell': 'borrow', 'lock': 'lock', 'watch': 'borrow'}[g[0]], g[1])


class Body:
    """Which borrows may be held where in one body."""

    def __init__(self, an, key, rep):
        self.an, self.key, self.rep = an, key, rep
        self.P, self.T = an.P, an.T
        self.f = an.prog.fns[key]
        self.name = self.f['path']
        self.relevant = any(t is not None and self.T.guards(t) for t in self.f['locals']) or any(
            self.T.guards(pl[2]) for pl in self.places())

    def places(self):
        for b in self.f['blocks']:
            for s in b['s']:
                if s[0] == '=':
                    yield s[1]
            if b['t'][0] == 'call':
                yield b['t'][3]

    def at(self, ln):
        return [{'file': self.f['file'], 'line': ln, 'event': self.name}]

    def run(self):
        f = self.f
        live = set()
        for i in range(1, f['argc'] + 1):
            t = f['locals'][i]
            if t is not None and self.T.guards(t):
                live.add(((i,), t))
        if f['cor']:
            # Arguments of the function are in the future.
            for x in self.P.types:
                if x['k'] == 'coroutine' and x.get('body') == self.key:
                    for j, a in enumerate(x.get('args') or ()):
                        if self.T.guards(a):
                            live.add((('arg', j), a))
        start = (frozenset(live), frozenset())
        seen = {0: {start}}
        work = [(0, start)]
        n = 0
        while work:
            bi, st = work.pop()
            n += 1
            for nb, ns in self.block(bi, st):
                s = seen.setdefault(nb, set())
                if len(s) > 200:
                    # Forget the flags.
                    ns = (ns[0], frozenset())
                if ns not in s:
                    s.add(ns)
                    work.append((nb, ns))
        return n

    def kill(self, live, key):
        return frozenset(x for x in live if x[0][:len(key)] != key)

    def moves(self, live, ops):
        for o in ops:
            if isinstance(o, dict) and o.get('move'):
                pl = o['move']
                live = self.kill(live, pkey(pl))
                if self.f['cor'] and self.T.guards(pl[2]) and len(pl[1]) and pl[1][0] == '*':
                    fs = [x for x in pl[1] if isinstance(x, list)]
                    if fs and fs[0][0] == 'f':
                        live = self.kill(live, ('arg', fs[0][1]))
        return live

    def ops(self, rv):
        if rv[0] in ('use',):
            return [rv[1]]
        if rv[0] == 'cast':
            return [rv[2]]
        if rv[0] == 'agg':
            return rv[3]
        if rv[0] in ('repeat',):
            return [rv[1]]
        return []

    def block(self, bi, st):
        live, flags = st
        f = self.f
        b = f['blocks'][bi]
        if b['cl']:
            return
        for s in b['s']:
            if s[0] == 'dead':
                live = self.kill(live, (s[1],))
            if s[0] != '=':
                continue
            pl, rv = s[1], s[2]
            held = any(self.T.guards((o.get('move') or o.get('copy'))[2]) for o in self.ops(rv) if isinstance(o, dict) and (o.get('move') or o.get('copy')))
            live = self.moves(live, self.ops(rv))
            key = pkey(pl)
            flags = frozenset(x for x in flags if x[0] != key)
            if rv[0] == 'use' and self.P.types[pl[2]]['s'] == 'bool' and rv[1].get('const') and isinstance(rv[1]['const'].get('v'), dict) and 'int' in rv[1]['const']['v']:
                flags = flags | {(key, rv[1]['const']['v']['int'])}
            if held:
                live = self.store(live, pl, b['ln'])
        t = b['t']
        ln = b['ln']
        if t[0] == 'goto':
            yield t[1], (live, flags)
        elif t[0] == 'switch':
            pl = t[1].get('move') or t[1].get('copy')
            v = dict(flags).get(pkey(pl)) if pl else None
            for val, nb in t[2]:
                if v is None or v == val:
                    yield nb, (live, flags)
            if v is None or v not in [x for x, _ in t[2]]:
                yield t[3], (live, flags)
        elif t[0] == 'assert':
            yield t[4], (live, flags)
        elif t[0] == 'drop':
            key = pkey(t[1])
            rest = self.kill(live, key)
            if t[4] in self.P.fns:
                self.check(rest, self.an.all[t[4]], t[4], ln, 'dropping a %s' % self.P.types[t[1][2]]['s'])
            if f['cor'] and len(t[1][1]) and t[1][1][0] == '*':
                fs = [x for x in t[1][1] if isinstance(x, list)]
                if fs and fs[0][0] == 'f':
                    rest = self.kill(rest, ('arg', fs[0][1]))
            yield t[2], (rest, flags)
        elif t[0] == 'call':
            fn = self.callee(t)
            path = (fn or {}).get('path') or (fn or {}).get('decl') or ''
            argt = [(o.get('move') or o.get('copy'))[2] for o in t[2] if o.get('move') or o.get('copy')]
            live = self.moves(live, t[2])
            self.rep.obligation('calls under a borrow', 1 if live else 0)
            if live:
                d, e = self.an.call(t)
                acq = set(d)
                for y in e:
                    acq |= self.an.all[y]
                self.check(live, acq, e, ln, 'calling %s' % path)
            ta = [x for x in (fn or {}).get('targs') or () if isinstance(x, int)]
            if LEAK.search(path):
                self.rep.require(not any(self.T.guards(x) for x in ta), 'kept: %s' % self.short(), '%s keeps a borrow for good (%s)' % (self.name, path), self.at(ln))
            if KEEP.search(path):
                self.rep.require(not any(self.T.guards(x) for x in ta if self.P.types[x]['k'] != 'coroutine'), 'kept: %s' % self.short(),
                                 '%s stores a borrow (%s)' % (self.name, path), self.at(ln))
            if self.T.guards(t[3][2]):
                live = self.store(live, t[3], ln)
            if path.rsplit('::', 1)[-1].startswith('spawn'):
                self.rep.require(not any(self.T.guards(x) for x in argt), 'kept: %s' % self.short(), '%s gives a borrow to a task' % self.name, self.at(ln))
            if t[4] is not None:
                yield t[4], (live, flags)
        elif t[0] == 'ret':
            if f['cor']:
                self.rep.obligation('suspension points')
                for key, ty in sorted(live, key=str):
                    if '*' in key[1:2]:
                        for g in sorted(self.T.guards(ty)):
                            self.rep.violation('suspended: %s: %s' % (self.short(), g[1]), '%s may be suspended while it holds the %s' % (self.name, show(g)), self.at(ln))
        else:
            return

    def short(self):
        return self.name.split('::{')[0]

    def callee(self, t):
        c = t[1].get('const')
        if not c:
            return None
        return c.get('fn') or (self.P.types[c['ty']].get('fn') if c.get('ty') is not None else None)

    def store(self, live, pl, ln):
        return live | {(pkey(pl), pl[2])}

    def check(self, live, acq, callee, ln, doing):
        for key, ty in live:
            for g in self.T.guards(ty):
                for a in acq:
                    self.rep.obligation('pairs of borrows')
                    if conflict(g, a):
                        ks = sorted(callee) if isinstance(callee, (set, list)) else [callee]
                        why = next((self.an.why(y, a) for y in ks if a in self.an.all[y]), '')
                        self.rep.violation('re-entered: %s: %s' % (self.short(), g[1]), '%s holds the %s while %s, which takes the %s%s' % (
                            self.name, show(g), doing, show(a), ' (%s)' % why if why else ''), self.at(ln))


def run(rep):
    prog = Prog.get()
    an = A(prog)
    n = ns = 0
    cells = set()
    for k in sorted(prog.fns):
        if not prog.local(k):
            continue
        b = Body(an, k, rep)
        cells |= {(w, t) for w, t, _ in an.direct[k]}
        rep.obligation('bodies')
        if b.relevant or prog.fns[k]['cor']:
            n += 1
            ns += b.run()
            rep.fns.add(k)
    if not any(w == 'cell' for w, _ in cells):
        raise Missing('no shared state is borrowed')
    rep.note(bodies_with_borrows=n, dataflow_steps=ns, cells=sorted('%s %s' % x for x in cells))
    return __doc__ + """ A forward dataflow analysis over the MIR of every function, closure and future computes which RefCell borrows, lock guards and watch borrows may be held at each
        point (flow-sensitive, with moves, drops and drop flags).  No guard is in a future when it returns to the executor; no call, callback or drop under a guard may, in the call graph
        (closures in argument types included, spawned tasks excluded), borrow or lock a cell of the same type in a conflicting mode; no guard is forgotten, boxed, shared or given to a task."""
