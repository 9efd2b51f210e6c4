"""Abstract interpreter over the exported MIR.

Forward disjunctive dataflow to a fixpoint.  An abstract state maps storage
cells to provenance terms and terms to facts (enum variant or integer range);
functions of the repository are analysed inline, external functions through
models or as uninterpreted terms.  States are joined when equal at a program
point, after dead cells and facts are dropped; collections are abstracted to
segments of per-site element sets, and terms made again in a loop displace
their previous generation, so that the state space is finite.  There is no
constraint solver: facts never relate two terms.
"""
import json
import sys
from node import *

TRANSPARENT = {
    'core::pin::Pin', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
    'core::mem::maybe_dangling::MaybeDangling',
    'core::cell::RefCell', 'core::cell::Cell', 'core::cell::UnsafeCell', 'core::cell::once::OnceCell',
    'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::rcs::rc::Rc',
    'alloc::sync::Arc', 'core::num::wrapping::Wrapping',
}
INF = float('inf')


class Limit(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'key', 'ctx', 'dest', 'target', 'unwind', 'up', 'depth', 'live')


class St:
    __slots__ = ('cells', 'facts', 'mon', 'fr', 'blk', 'tr')

    def copy(self):
        s = St()
        s.cells = self.cells.copy()
        s.facts = self.facts.copy()
        s.mon = self.mon
        s.fr = self.fr
        s.blk = self.blk
        s.tr = self.tr
        return s

    def note(self, what):
        self.tr = (what, self.fr.fn.get('path'), self.fr.fn.get('file'), self.line(), self.tr)

    def line(self):
        b = self.fr.fn['blocks'][self.blk]
        return b.get('ln')

    def trace(self):
        r = []
        t = self.tr
        while t is not None:
            r.append({'event': t[0], 'fn': t[1], 'file': t[2], 'line': t[3]})
            t = t[4]
        r.reverse()
        return r

    def stack(self):
        r = []
        f = self.fr
        while f is not None:
            r.append(f.key)
            f = f.up
        return r


class Facts:
    """The exported program."""

    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = d['fns']
        self.items = d['items']
        self.impls = d['impls']
        self.adts = {a['path']: a for a in d['adts']}
        self.tkey = []
        self.bykey = {}
        self.tdef = {}
        for i, t in enumerate(self.types):
            k = t['k']
            if k in ('closure', 'coroutine'):
                key = k + ':' + t['body']
                self.bykey[key] = t
            elif k in ('struct', 'enum', 'union'):
                key = t['def']
                if 'next' in t or 'poll' in t:
                    key += '#%d' % i
                    self.bykey[key] = t
                self.tdef.setdefault(t['def'], t)
            elif k in ('tuple', 'array', 'slice'):
                key = k if k != 'slice' else 'array'
            else:
                key = k
            self.tkey.append(key)
            self.bykey.setdefault(key, t)
        self.live_cache = {}

    def vidx(self, adt, variant):
        for i, v in enumerate(self.tdef[adt]['variants']):
            if v['name'] == variant:
                return i
        raise KeyError((adt, variant))

    def fidx(self, adt, field, variant=None):
        t = self.tdef.get(adt)
        if t is None:
            raise KeyError(adt)
        for i, v in enumerate(t['variants']):
            if variant is None or v['name'] == variant:
                for j, f in enumerate(v['fields']):
                    if f[0] == field:
                        return (i, j)
        raise KeyError((adt, field))

    def liveness(self, key, fn, mode=(True, True)):
        r = self.live_cache.get((id(fn), mode))
        if r is None:
            r = self.live_cache[id(fn), mode] = liveness(fn, *mode)
        return r


def cor_liveness(fn, vf):
    """For the body of a coroutine: the local that refers to it, and for each block the saved
    variables that may be used after it is entered."""
    bl = fn['blocks']
    self_ = None
    for s in bl[0]['s']:
        if s[0] == '=' and s[2][0] == 'use' and (s[2][1].get('copy') or [None])[0] == 1 and not s[1][1]:
            self_ = s[1][0]
    if self_ is None:
        return None

    def lab(place):
        pr = place[1]
        if place[0] == self_ and len(pr) >= 3 and pr[0] == '*' and isinstance(pr[1], list) and pr[1][0] == 'v' and isinstance(pr[2], list) and pr[2][0] == 'f':
            return vf[pr[1][1]][pr[2][1]]
        return None

    def whole(place):
        return lab(place) is not None and len(place[1]) == 3

    def opn(o, acc):
        p = o.get('copy') or o.get('move')
        if p and lab(p) is not None:
            acc.add(lab(p))

    def rv(r, acc):
        k = r[0]
        if k in ('use', 'repeat'):
            opn(r[1], acc)
        elif k in ('ref', 'discr', 'len', 'addr', 'copyderef'):
            if lab(r[1]) is not None:
                acc.add(lab(r[1]))
        elif k == 'cast':
            opn(r[2], acc)
        elif k == 'bin':
            opn(r[2], acc)
            opn(r[3], acc)
        elif k == 'un':
            opn(r[2], acc)
        elif k == 'agg':
            for o in r[3]:
                opn(o, acc)
    n = len(bl)
    every = {x for v in vf for x in v}
    tr = []
    for b in bl:
        # Transfer, last to first: ('use', set), ('def', set), ('only', set).
        ops = []
        for s in b['s']:
            if s[0] == '=':
                acc = set()
                rv(s[2], acc)
                if lab(s[1]) is not None and not whole(s[1]):
                    acc.add(lab(s[1]))
                ops.append(('use', acc))
                if whole(s[1]):
                    ops.append(('def', {lab(s[1])}))
            elif s[0] == 'sd' and s[1][0] == self_ and s[1][1] == ['*']:
                ops.append(('only', set(vf[s[2]])))
        t = b['t']
        acc = set()
        if t[0] in ('switch', 'assert'):
            opn(t[1], acc)
        elif t[0] == 'drop':
            if lab(t[1]) is not None:
                acc.add(lab(t[1]))
        elif t[0] == 'call':
            opn(t[1], acc)
            for o in t[2]:
                opn(o, acc)
            if lab(t[3]) is not None:
                (ops.append(('def', {lab(t[3])})) if whole(t[3]) else acc.add(lab(t[3])))
        elif t[0] == 'ret':
            acc |= every
        if t[0] == 'call' and ops and ops[-1][0] == 'def' and whole(t[3]):
            # Arguments are read before the result is written.
            ops.insert(len(ops) - 1, ('use', acc))
        else:
            ops.append(('use', acc))
        tr.append(ops)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for x in succs(bl[i]['t'], True):
                if x < n:
                    o |= live[x]
            for k, x in reversed(tr[i]):
                if k == 'use':
                    o |= x
                elif k == 'def':
                    o -= x
                else:
                    o = set(x)
            if o != live[i]:
                live[i] = o
                ch = True
    return self_, [frozenset(x) for x in live]


def base_locals(place, acc):
    acc.add(place[0])
    for e in place[1]:
        if isinstance(e, list) and e[0] == 'i':
            acc.add(e[1])


def op_uses(o, acc):
    p = o.get('copy') or o.get('move')
    if p:
        base_locals(p, acc)


def rv_uses(r, acc):
    k = r[0]
    if k in ('use',):
        op_uses(r[1], acc)
    elif k == 'repeat':
        op_uses(r[1], acc)
    elif k in ('ref', 'discr', 'len', 'addr', 'copyderef'):
        base_locals(r[1], acc)
    elif k == 'cast':
        op_uses(r[2], acc)
    elif k == 'bin':
        op_uses(r[2], acc)
        op_uses(r[3], acc)
    elif k == 'un':
        op_uses(r[2], acc)
    elif k == 'agg':
        for o in r[3]:
            op_uses(o, acc)


def succs(t, unwind=True):
    k = t[0]
    if not unwind:
        if k == 'drop':
            return [t[2]] if t[2] is not None else []
        if k in ('call', 'assert'):
            return [t[4]] if isinstance(t[4], int) else []
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [x for x in (t[2], t[3]) if x is not None]
    if k == 'call':
        return [x for x in (t[4], t[5]) if isinstance(x, int)]
    if k == 'assert':
        return [x for x in (t[4], t[5]) if isinstance(x, int)]
    return []


def liveness(fn, unwind=True, drops=True):
    """For each block, the locals live on entry (locals whose address is taken
    are live until storage death), and the number of predecessors."""
    bl = fn['blocks']
    n = len(bl)
    taken = set()
    for b in bl:
        for s in b['s']:
            if s[0] == '=' and s[2][0] in ('ref', 'addr'):
                p = s[2][1]
                if '*' not in p[1]:
                    taken.add(p[0])
        if b['t'][0] == 'drop':
            pass
    use, deff = [], []
    preds = [0] * n
    for b in bl:
        u, d = set(), set()

        def ruse(acc):
            for x in acc:
                if x not in d:
                    u.add(x)
        for s in b['s']:
            if s[0] == '=':
                acc = set()
                rv_uses(s[2], acc)
                if s[1][1]:
                    base_locals(s[1], acc)
                ruse(acc)
                if not s[1][1]:
                    d.add(s[1][0])
            elif s[0] == 'sd':
                acc = set()
                base_locals(s[1], acc)
                ruse(acc)
            elif s[0] == 'dead':
                d.add(s[1])
        t = b['t']
        acc = set()
        if t[0] == 'switch':
            op_uses(t[1], acc)
        elif t[0] == 'drop':
            # Dropping what has no code of its own is no use.
            if drops or len(t) > 4 and t[4]:
                base_locals(t[1], acc)
        elif t[0] == 'call':
            op_uses(t[1], acc)
            for o in t[2]:
                op_uses(o, acc)
            if t[3][1]:
                base_locals(t[3], acc)
        elif t[0] == 'assert':
            op_uses(t[1], acc)
            for o in t[6] if len(t) > 6 else []:
                op_uses(o, acc)
        elif t[0] == 'ret':
            acc.add(0)
        ruse(acc)
        if t[0] == 'call' and not t[3][1]:
            d.add(t[3][0])
        use.append(u)
        deff.append(d)
        for s in set(succs(t, unwind)):
            if s < n:
                preds[s] += 1
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succs(bl[i]['t'], unwind):
                if s < n:
                    o |= live[s]
            w = use[i] | (o - deff[i])
            if w != live[i]:
                live[i] = w
                ch = True
    return [frozenset(x) for x in live], frozenset(taken), preds


# ---------------------------------------------------------------------------
# Synthetic bodies

def L(i, *p):
    return [i, list(p), None]


def C(i):
    return {'copy': L(i)}


def synth_call(name, args, dest, target, **kw):
    f = {'synth': name, 'path': '$' + name, 'decl': '$' + name, 'key': '$' + name}
    f.update(kw)
    return ['call', {'const': {'ty': None, 'fn': f}}, args, dest, target, None]


def synth_fn(name, argc, nloc, blocks):
    return {'path': name, 'crate': '$', 'kind': 'Synth', 'cor': False, 'file': '', 'line': 0, 'argc': argc, 'spread': None,
            'locals': [None] * nloc, 'names': [], 'blocks': [{'s': s, 't': t, 'ln': 0, 'cl': False} for s, t in blocks]}


def set_(d, rv):
    return ['=', d, rv, 0]


def refl(i):
    return ['ref', L(i), True]


def opt_field(i):
    return {'copy': [i, [['v', 1], ['f', 0, None]], None]}


# collect(it) -> seq
SYN = {}
SYN['$collect'] = synth_fn('$collect', 1, 6, [
    ([], synth_call('newseq', [], L(0), 1)),
    ([set_(L(2), refl(1))], synth_call('next', [C(2)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 4], [1, 3]], None]),
    ([set_(L(5), refl(0))], synth_call('push', [C(5), opt_field(3)], L(4), 1)),
    ([], ['ret']),
])
# extend(&seq, it)
SYN['$extend'] = synth_fn('$extend', 2, 6, [
    ([], ['goto', 1]),
    ([set_(L(5), refl(2))], synth_call('next', [C(5)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 4], [1, 3]], None]),
    ([], synth_call('push', [C(1), opt_field(3)], L(4), 1)),
    ([set_(L(0), ['agg0'])], ['ret']),
])
# for_each(it, f)
SYN['$for_each'] = synth_fn('$for_each', 2, 8, [
    ([], ['goto', 1]),
    ([set_(L(5), refl(1))], synth_call('next', [C(5)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 4], [1, 3]], None]),
    ([set_(L(6), refl(2)), set_(L(7), ['tup', [opt_field(3)]])], synth_call('callf', [C(6), C(7)], L(4), 1)),
    ([set_(L(0), ['agg0'])], ['ret']),
])
# find_map(&it, f)
SYN['$find_map'] = synth_fn('$find_map', 2, 8, [
    ([], ['goto', 1]),
    ([], synth_call('next', [C(1)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 5], [1, 3]], None]),
    ([set_(L(6), refl(2)), set_(L(7), ['tup', [opt_field(3)]])], synth_call('callf', [C(6), C(7)], L(0), 4)),
    ([set_(L(4), ['discr', L(0)])], ['switch', C(4), [[0, 1], [1, 6]], None]),
    ([set_(L(0), ['none'])], ['ret']),
    ([], ['ret']),
])
# find(&it, pred), any, all, position
SYN['$find'] = synth_fn('$find', 2, 10, [
    ([], ['goto', 1]),
    ([], synth_call('next', [C(1)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 5], [1, 3]], None]),
    ([set_(L(8), ['use', opt_field(3)]), set_(L(6), refl(2)), set_(L(7), ['tup', [C(8)]]),
      set_(L(9), ['ref', L(8), False]), set_(L(7), ['tup', [C(9)]])], synth_call('callf', [C(6), C(7)], L(5), 4)),
    ([], ['switch', C(5), [[0, 1]], 6]),
    ([set_(L(0), ['none'])], ['ret']),
    ([set_(L(0), ['use', C(3)])], ['ret']),
])
for _n, _stop, _rv, _end in (('$any', 1, I(1), I(0)), ('$all', 0, I(0), I(1))):
    SYN[_n] = synth_fn(_n, 2, 8, [
        ([], ['goto', 1]),
        ([], synth_call('next', [C(1)], L(3), 2)),
        ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 5], [1, 3]], None]),
        ([set_(L(6), refl(2)), set_(L(7), ['tup', [opt_field(3)]])], synth_call('callf', [C(6), C(7)], L(5), 4)),
        ([], ['switch', C(5), [[0, 1 if _stop else 6]], 6 if _stop else 1]),
        ([set_(L(0), ['use', {'node': _end}])], ['ret']),
        ([set_(L(0), ['use', {'node': _rv}])], ['ret']),
    ])
SYN['$position'] = synth_fn('$position', 2, 8, [
    ([], ['goto', 1]),
    ([], synth_call('next', [C(1)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 5], [1, 3]], None]),
    ([set_(L(6), refl(2)), set_(L(7), ['tup', [opt_field(3)]])], synth_call('callf', [C(6), C(7)], L(5), 4)),
    ([], ['switch', C(5), [[0, 1]], 6]),
    ([set_(L(0), ['none'])], ['ret']),
    ([], synth_call('opaque', [], L(5), 7)),
    ([set_(L(0), ['some', C(5)])], ['ret']),
])
SYN['$fold'] = synth_fn('$fold', 3, 9, [
    ([set_(L(0), ['use', C(2)])], ['goto', 1]),
    ([set_(L(5), refl(1))], synth_call('next', [C(5)], L(4), 2)),
    ([set_(L(6), ['discr', L(4)])], ['switch', C(6), [[0, 4], [1, 3]], None]),
    ([set_(L(7), refl(3)), set_(L(8), ['tup', [C(0), {'copy': [4, [['v', 1], ['f', 0, None]], None]}]])], synth_call('callf', [C(7), C(8)], L(0), 1)),
    ([], ['ret']),
])
# try_fold(&it, acc, f), for the types that `?` is used with
for _n, _cont, _adt in (('$try_fold_cf', 0, 'core::ops::control_flow::ControlFlow'), ('$try_fold_res', 0, 'core::result::Result'), ('$try_fold_opt', 1, 'core::option::Option')):
    SYN[_n] = synth_fn(_n, 3, 10, [
        ([set_(L(4), ['use', C(2)])], ['goto', 1]),
        ([], synth_call('next', [C(1)], L(5), 2)),
        ([set_(L(6), ['discr', L(5)])], ['switch', C(6), [[0, 6], [1, 3]], None]),
        ([set_(L(7), refl(3)), set_(L(8), ['tup', [C(4), opt_field(5)]])], synth_call('callf', [C(7), C(8)], L(0), 4)),
        ([set_(L(6), ['discr', L(0)])], ['switch', C(6), [[_cont, 5]], 7]),
        ([set_(L(4), ['use', {'copy': [0, [['v', _cont], ['f', 0, None]], None]}])], ['goto', 1]),
        ([], synth_call('mkout', [C(4)], L(0), 7, out=(_adt, _cont))),
        ([], ['ret']),
    ])
# retain(&seq, it, f): the sequence emptied and refilled from an iterator over its old value.
for _n, _args in (('$retain', [C(8)]), ('$retain_map', [C(8), C(9)])):
    SYN[_n] = synth_fn(_n, 3, 12, [
        ([], ['goto', 1]),
        ([set_(L(4), refl(2))], synth_call('next', [C(4)], L(5), 2)),
        ([set_(L(6), ['discr', L(5)])], ['switch', C(6), [[0, 6], [1, 3]], None]),
        ([set_(L(10), ['use', opt_field(5)])] +
         ([set_(L(8), ['ref', L(10), True])] if _n == '$retain' else
          [set_(L(8), ['ref', [10, [['f', 0, None]], None], True]), set_(L(9), ['ref', [10, [['f', 1, None]], None], True])]) +
         [set_(L(7), refl(3)), set_(L(11), ['tup', _args])], synth_call('callf', [C(7), C(11)], L(6), 4)),
        ([], ['switch', C(6), [[0, 1]], 5]),
        ([], synth_call('push', [C(1), C(10)], L(6), 1)),
        ([set_(L(0), ['agg0'])], ['ret']),
    ])
# count(it) / unknown consumption: runs the iterator, returns an opaque value
SYN['$drain'] = synth_fn('$drain', 1, 6, [
    ([], ['goto', 1]),
    ([set_(L(2), refl(1))], synth_call('next', [C(2)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 3], [1, 1]], None]),
    ([], synth_call('opaque', [], L(0), 4)),
    ([], ['ret']),
])
# root(fut): poll until ready
SYN['$root'] = synth_fn('$root', 1, 6, [
    ([], ['goto', 1]),
    ([set_(L(2), refl(1))], synth_call('poll', [C(2)], L(3), 2)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 4], [1, 3]], None]),
    ([], synth_call('suspend', [], L(5), 1)),
    ([set_(L(0), ['use', {'copy': [3, [['v', 0], ['f', 0, None]], None]}])], ['ret']),
])
# timeout poll(&timeout)
SYN['$timeout'] = synth_fn('$timeout', 1, 6, [
    ([set_(L(2), ['ref', [1, ['*', ['f', 1, None]], None], True])], synth_call('poll', [C(2)], L(3), 1)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 3], [1, 2]], None]),
    ([set_(L(2), ['ref', [1, ['*', ['f', 0, None]], None], False])], synth_call('timeout_pending', [C(2)], L(0), 4)),
    ([], synth_call('ready_ok', [{'copy': [3, [['v', 0], ['f', 0, None]], None]}], L(0), 4)),
    ([], ['ret']),
])
# task poll(&task)
SYN['$task'] = synth_fn('$task', 1, 6, [
    ([set_(L(2), ['ref', [1, ['*', ['f', 0, None]], None], True])], synth_call('poll', [C(2)], L(3), 1)),
    ([set_(L(4), ['discr', L(3)])], ['switch', C(4), [[0, 3], [1, 2]], None]),
    ([set_(L(0), ['use', C(3)])], ['goto', 4]),
    ([], synth_call('ready_ok', [{'copy': [3, [['v', 0], ['f', 0, None]], None]}], L(0), 4)),
    ([], ['ret']),
])


# Counters after widening.
MANY = mk('sym', 'many')
ANYINT = mk('sym', 'any int')


def addchain(a):
    n = 0
    while a.k == 'op' and a.a[0] in ('Add', 'Sub') and a.a[1][1].k == 'int':
        a = a.a[1][0]
        n += 1
    return n


class Eng:
    """Analyses one root."""

    max_states = 1500000
    # Sequences up to this length are kept element by element.
    precise = 0
    constants = False
    cor_live = {}

    def __init__(self, facts, monitors=(), opaque=None, explore_unwind=False, explore_assert=False, name='', consts=None, budget=None,
                 havoc=True, inline_tasks=False, keep_facts=False):
        self.inline_tasks = inline_tasks
        self.live_mode = (explore_unwind or explore_assert or any(hasattr(m, 'on_unwind') for m in monitors),
                          any(hasattr(m, 'on_drop') for m in monitors))
        self.P = facts
        self.T = facts.types
        self.F = facts.fns
        self.monitors = list(monitors)
        self.opaque = opaque
        self.explore_unwind = explore_unwind
        self.keep_facts = keep_facts
        self.explore_assert = explore_assert
        self.name = name
        self.site_elems = {}
        self.readers = {}
        self.work = []
        self.seen = set()
        self.spawned = {}
        self.nsteps = 0
        self.results = []
        self.unmodelled = {}
        self.fns_seen = set()
        self.calls_seen = {}
        self.pure_extra = set()
        self.havoc = havoc
        self.curcall = None
        self.nopanic = set()
        if budget:
            self.max_states = budget
        import models
        self.M = models
        for m in self.monitors:
            m.eng = self

    # -- reporting
    def emit(self, hook, *a):
        for m in self.monitors:
            f = getattr(m, hook, None)
            if f:
                f(*a)

    # -- running
    def frame(self, key, fn, ctx, dest, target, unwind, up):
        f = Frame()
        f.fn = fn
        f.key = key
        f.ctx = ctx
        f.dest = dest
        f.target = target
        f.unwind = unwind
        f.up = up
        f.depth = up.depth + 1 if up else 0
        # Locals of the caller that are live when this frame returns or unwinds.
        f.live = EMPTY
        if up is not None:
            live = self.P.liveness(up.key, up.fn, self.live_mode)[0]
            f.live = (live[target] if target is not None else EMPTY) | (live[unwind] if isinstance(unwind, int) and self.live_mode[0] else EMPTY)
        return f

    def fn(self, key):
        return SYN.get(key) or self.F.get(key)

    def start(self, key, args, cells=None, facts=None, mon=None, ctxname=''):
        fn = self.fn(key)
        if fn is None:
            raise KeyError(key)
        st = St()
        st.cells = dict(cells or {})
        st.facts = dict(facts or {})
        st.mon = mon if mon is not None else frozenset()
        st.tr = None
        ctx = mk('ctx', None, key, ctxname)
        st.fr = self.frame(key, fn, ctx, None, None, None, None)
        for i, a in enumerate(args):
            st.cells[('L', ctx, i + 1)] = a
        st.blk = 0
        self.enter(st, 0)

    def branch(self, st, fut, mon=frozenset()):
        """Analyses, apart from the current path, a future spawned by it until it ends."""
        s = st.copy()
        s.mon = frozenset(s.mon | mon)
        fn = self.fn('$root')
        ctx = mk('ctx', None, '$root', 'task')
        s.fr = self.frame('$root', fn, ctx, None, None, None, None)
        s.cells[('L', ctx, 1)] = fut
        s.blk = 0
        self.enter(s, 0)

    def run(self):
        while self.work:
            st = self.work.pop()
            self.nsteps += 1
            if self.nsteps > self.max_states:
                raise Limit('%s: more than %d steps' % (self.name, self.max_states))
            self.step(st)
        return self

    def enter(self, st, blk):
        """Schedules a state at a block."""
        st.blk = blk
        fr = st.fr
        live, taken, preds = self.P.liveness(fr.key, fr.fn, self.live_mode)
        if preds[blk] > 1 or blk == 0:
            if fr.fn['cor'] and blk:
                self.corgc(st, fr, blk)
            self.gc(st, live[blk])
            h = (id(fr.fn), blk, fr.ctx, hash(frozenset(st.cells.items())), hash(frozenset(st.facts.items())), st.mon)
            if h in self.seen:
                return
            self.seen.add(h)
        self.work.append(st)

    def corgc(self, st, fr, blk):
        """Forgets the saved variables of the running coroutine that are no longer used."""
        t = self.P.bykey.get('coroutine:' + fr.key)
        if not t or not t.get('vfields'):
            return
        cl = self.cor_live.get(fr.key)
        if cl is None:
            cl = self.cor_live[fr.key] = cor_liveness(fr.fn, t['vfields']) or ()
        if not cl:
            return
        r = st.cells.get(('L', fr.ctx, cl[0]))
        if r is None or r.k != 'ref':
            return
        cell, path = r.a
        v = self.load(st, cell, path)
        if v.k != 'cor':
            return
        if v.a[1] != -2:
            # Where it was last suspended does not matter while it runs.
            v = mk('cor', v.a[0], -2, v.a[2], v.a[3])
            self.store(st, cell, path, v)
        dead = {x[0] for x in v.a[3]} - cl[1][blk]
        if not dead:
            return
        # What others refer to stays.
        vf = t['vfields']
        for c, x in st.cells.items():
            for rc, rp in noderefs(x):
                if rc == cell and rp[:len(path)] == path and len(rp) > len(path):
                    var, i = rp[len(path)]
                    if var is not None and isinstance(var, int) and var < len(vf) and isinstance(i, int) and i < len(vf[var]):
                        dead.discard(vf[var][i])
        if dead:
            self.store(st, cell, path, mk('cor', v.a[0], v.a[1], v.a[2], tuple(x for x in v.a[3] if x[0] not in dead)))

    def gc(self, st, live):
        """Drops cells and facts that no live local reaches."""
        cells = st.cells
        leaves = self.monleaves(st.mon)
        keep = set()
        stack = []
        for m in st.mon:
            if isinstance(m, tuple):
                for x in m:
                    if isinstance(x, N):
                        stack.append(x)
        f = st.fr
        lv = live
        while f is not None:
            ctx = f.ctx
            for i in lv:
                c = ('L', ctx, i)
                v = cells.get(c)
                if v is not None:
                    keep.add(c)
                    stack.append(v)
            if f.dest is not None:
                c = f.dest[0]
                if c[0] != 'L' or f.dest[1]:
                    if c in cells and c not in keep:
                        keep.add(c)
                        stack.append(cells[c])
            lv = f.live
            f = f.up
        other = []
        for c, v in cells.items():
            if c[0] in 'SG':
                keep.add(c)
                stack.append(v)
            elif c[0] in 'DW':
                other.append(c)
        seen = set()
        again = True
        while again:
            while stack:
                v = stack.pop()
                if v in seen:
                    continue
                seen.add(v)
                leaves |= v.leaves
                for c in cellrefs(v):
                    if c in cells and c not in keep:
                        keep.add(c)
                        stack.append(cells[c])
            again = False
            for c in other:
                # Term cells are reachable if their term is.
                if c not in keep and all(x in leaves or x.k == 'sym' for x in c[1].leaves):
                    keep.add(c)
                    stack.append(cells[c])
                    again = True
        for c in [c for c in cells if c not in keep]:
            del cells[c]
        for t in [t for t in st.facts if not self.keep_facts and not all(x in leaves or x.k == 'sym' or x.k == 'cont' and x.a[0].k == 'op' and x.a[0].a[0] == 'watched' for x in t.leaves)]:
            del st.facts[t]

    def monleaves(self, mon):
        acc = set()

        def go(x):
            if isinstance(x, N):
                acc.update(x.leaves)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    go(y)
        go(mon)
        return acc

    # -- memory
    def load(self, st, cell, path=()):
        v = st.cells.get(cell)
        if v is None:
            v = self.default(cell)
        for e in path:
            v = self.project(st, v, e)
        return v

    def default(self, cell):
        k = cell[0]
        if k in ('D', 'V'):
            return cell[1]
        if k == 'W':
            return mk('cont', mk('op', 'watched', (cell[1],)))
        if k == 'S':
            return mk('sym', 'static ' + cell[1])
        return UNDEF

    def project(self, st, v, e):
        k = v.k
        if e[0] == 'i' or e[0] == 'ci':
            return self.M.index_value(self, st, v, e)
        var, i = e
        if k == 'agg':
            f = v.a[2]
            if v.a[1] is not None and var is not None and v.a[1] != var and v.a[1] != -1:
                return mk('bot')
            if i < len(f):
                return f[i]
            return UNDEF
        if k == 'cor':
            body, state, ups, saved = v.a
            if var is None:
                return ups[i] if i < len(ups) else UNDEF
            vf = self.P.bykey['coroutine:' + body].get('vfields')
            lab = vf[var][i] if vf else (var, i)
            for l, x in saved:
                if l == lab:
                    return x
            return UNDEF
        if k == 'upd':
            for (l, x) in v.a[1]:
                if l == (var or 0, i):
                    return x
            return self.project(st, v.a[0], e)
        if k in ('undef', 'bot'):
            return v
        if k == 'ref':
            return v
        if k == 'boxed':
            return self.project(st, v.a[0], e)
        return mk('fld', v, var or 0, i)

    def store(self, st, cell, path, val):
        if not path:
            if cell[0] == 'V':
                return
            st.cells[cell] = val
            return
        v = self.load(st, cell)
        if cell[0] == 'V':
            return
        st.cells[cell] = self.updated(st, v, path, val)

    def updated(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] in ('i', 'ci'):
            return self.M.store_index(self, st, v, e, self.updated(st, self.M.index_value(self, st, v, e), path[1:], val))
        var, i = e
        if v.k == 'agg' and (var is None or v.a[1] == var or v.a[1] is None):
            f = list(v.a[2])
            while len(f) <= i:
                f.append(UNDEF)
            f[i] = self.updated(st, f[i], path[1:], val)
            return mk('agg', v.a[0], v.a[1], tuple(f))
        if v.k == 'cor':
            body, state, ups, saved = v.a
            if var is None:
                u = list(ups)
                while len(u) <= i:
                    u.append(UNDEF)
                u[i] = self.updated(st, u[i], path[1:], val)
                return mk('cor', body, state, tuple(u), saved)
            vf = self.P.bykey['coroutine:' + body].get('vfields')
            lab = vf[var][i] if vf else (var, i)
            d = dict(saved)
            d[lab] = self.updated(st, d.get(lab, UNDEF), path[1:], val)
            return mk('cor', body, state, ups, tuple(sorted(d.items(), key=lambda x: str(x[0]))))
        if v.k == 'undef':
            if var is None or var == 0:
                return mk('agg', None, None, tuple([UNDEF] * i + [self.updated(st, UNDEF, path[1:], val)]))
            v = mk('agg', None, var, ())
            return self.updated(st, v, path, val)
        inner = self.updated(st, self.project(st, v, e), path[1:], val)
        lab = (var or 0, i)
        if v.k == 'upd':
            d = dict(v.a[1])
            d[lab] = inner
            return mk('upd', v.a[0], tuple(sorted(d.items(), key=lambda x: x[0])))
        return mk('upd', v, ((lab, inner),))

    def deref(self, st, v):
        """The cell and path that a pointer value refers to."""
        if v.k == 'ref':
            return v.a[0], v.a[1]
        if v.k == 'agg' and v.a[0] == 'Guard':
            return self.deref(st, v.a[2][0])
        if v.k == 'boxed':
            return ('V', v.a[0]), ()
        if v.k in ('int', 'undef', 'bot'):
            return ('V', v), ()
        return ('D', v), ()

    def place(self, st, p):
        """Resolves a place to a cell and path."""
        fr = st.fr
        cell, path = ('L', fr.ctx, p[0]), ()
        tid = fr.fn['locals'][p[0]] if fr.fn['locals'] else None
        var = None
        for e in p[1]:
            if e == '*':
                t = self.T[tid] if tid is not None else None
                v = self.load(st, cell, path)
                cell, path = self.deref(st, v)
                var = None
                tid = t['args'][0] if t and t.get('args') else None
                continue
            k = e[0]
            if k == 'v':
                var = e[1]
                continue
            if k == 'cast':
                continue
            if k == 'f':
                t = self.T[tid] if tid is not None else None
                if t and t.get('def') in TRANSPARENT:
                    pass
                else:
                    v = var
                    if v is None and t and t['k'] in ('struct', 'tuple', 'closure'):
                        v = 0
                    if t and t['k'] == 'coroutine' and var is None:
                        v = None
                    path = path + ((v, e[1]),)
                tid = e[2]
                var = None
                continue
            if k == 'i':
                iv = self.load(st, ('L', fr.ctx, e[1]))
                path = path + (('i', iv),)
            elif k == 'ci':
                path = path + (('ci', e[1], e[2]),)
            elif k == 'sub':
                path = path + (('i', mk('op', 'sub', tuple(I(x) if isinstance(x, int) else x for x in e[1:]))),)
            t = self.T[tid] if tid is not None else None
            tid = t['args'][0] if t and t.get('args') else None
            var = None
        return cell, path

    def operand(self, st, o):
        p = o.get('copy')
        if p is None:
            p = o.get('move')
        if p is not None:
            c, path = self.place(st, p)
            return self.load(st, c, path)
        if 'const' in o:
            return self.const(o['const'])
        if 'node' in o:
            return o['node']
        return I(0)  # runtime checks

    def const(self, c):
        if 'fn' in c:
            return mk('fn', FnRef(c['fn']))
        return self.cval(c.get('v'), c.get('ty'), c)

    def cval(self, v, ty, c=None):
        t = self.T[ty] if ty is not None else None
        if v is None:
            if t and t['k'] == 'fndef':
                return mk('fn', FnRef(t['fn']))
            if t and t['k'] == 'closure':
                return mk('agg', self.P.tkey[ty], 0, ())
            if c and 'item' in c:
                return mk('sym', 'const ' + str(c['item']))
            if t and t['k'] in ('tuple', 'struct') and not (t.get('variants') and t['variants'][0]['fields']):
                return mk('agg', self.P.tkey[ty], 0, ())
            return mk('sym', 'const of ' + (t['s'] if t else '?'))
        if 'int' in v:
            if t and t['k'] == 'float':
                return mk('float', v['int'], t['s'])
            x = v['int']
            if t and t.get('def') and t['k'] == 'enum':
                return mk('agg', self.P.tkey[ty], x, ())
            return I(x)
        if 'str' in v:
            return S(v['str'])
        if 'bytes' in v:
            b = v['bytes']
            return mk('bytes', tuple(b) if isinstance(b, list) else b)
        if 'static' in v:
            return mk('ref', ('S', v['static']), ())
        if 'fnptr' in v:
            return mk('fn', FnRef({'key': v['fnptr'], 'path': v['fnptr'], 'decl': v['fnptr'], 'kind': 'item'}))
        if 'fn' in v:
            return mk('fn', FnRef(v['fn']))
        if 'ref' in v:
            it = t['args'][0] if t and t.get('args') else None
            inner = self.cval(v['ref'].get('v') if isinstance(v['ref'], dict) and 'v' in v['ref'] and 'ty' in v['ref'] else v['ref'],
                              v['ref'].get('ty', it) if isinstance(v['ref'], dict) else it)
            if inner.k == 'str':
                return inner
            return mk('ref', ('V', inner), ())
        if 'fields' in v:
            fts = None
            if t:
                if t['k'] in ('struct', 'enum'):
                    vi = v.get('variant') or 0
                    vs = t.get('variants')
                    if vs and vi < len(vs):
                        fts = [f[1] for f in vs[vi]['fields']]
                elif t['k'] in ('tuple', 'closure'):
                    fts = t.get('args')
            fs = []
            for i, x in enumerate(v['fields']):
                ft = fts[i] if fts and i < len(fts) else None
                if isinstance(x, dict) and 'v' in x and 'ty' in x:
                    fs.append(self.cval(x['v'], x['ty']))
                else:
                    fs.append(self.cval(x, ft))
            if t and t.get('def') in TRANSPARENT:
                return fs[0] if fs else UNIT
            return mk('agg', self.P.tkey[ty] if ty is not None else 'tuple', v.get('variant') or 0, tuple(fs))
        if 'arr' in v:
            et = t['args'][0] if t and t.get('args') else None
            return mk('agg', 'array', 0, tuple(self.cval(x['v'], x['ty']) if isinstance(x, dict) and 'v' in x and 'ty' in x else self.cval(x, et) for x in v['arr']))
        if 'addr' in v:
            return I(v['addr'])
        if 'zst' in v and t and t['k'] == 'closure':
            return mk('agg', self.P.tkey[ty], 0, tuple(self.cval(v if self.T[a]['k'] == 'closure' else None, a) for a in t.get('args') or ()))
        return mk('sym', 'const ' + json.dumps(v)[:60])

    # -- facts
    def variant(self, st, v):
        if v.k == 'agg':
            return v.a[1]
        if v.k == 'cor':
            return v.a[1]
        if v.k == 'upd':
            vs = {l[0] for l, _ in v.a[1]}
            b = self.variant(st, v.a[0])
            return b
        f = st.facts.get(v)
        if f and f[0] == 'v':
            return f[1]
        return None

    def rng(self, st, v):
        """Known range (lo, hi, excluded) of an integer term."""
        if v.k == 'int':
            return (v.a[0], v.a[0], EMPTY)
        f = st.facts.get(v)
        if f and f[0] == 'r':
            return f[1:]
        if v is MANY:
            return (4, INF, EMPTY)
        if v.k == 'op':
            p = v.a[0]
            if p == 'len':
                return (self.M.min_len(v.a[1][0]), INF, EMPTY)
            if p in CMP or p in ('contains', 'Not', 'isv'):
                return (0, 1, EMPTY)
            if p == 'discr':
                poss = self.variants_of(st, v)
                if poss:
                    ds = [d for d, _ in poss]
                    return (min(ds), max(ds), EMPTY)
        return (-INF, INF, EMPTY)

    def variants_of(self, st, t):
        """Possible (discriminant, variant) of a discriminant term, or None."""
        base, tid = t.a[1][0], t.a[1][1].a[0]
        tt = self.T[tid] if tid >= 0 else None
        if not tt or tt['k'] != 'enum' or not tt.get('variants'):
            return None
        f = st.facts.get(base)
        r = [(w['discr'], i) for i, w in enumerate(tt['variants'])]
        if f and f[0] == 'v':
            r = [x for x in r if x[1] == f[1]]
        elif f and f[0] == 'nv':
            r = [x for x in r if x[1] not in f[1]]
        return r

    def refine(self, st, t, lo, hi, excl):
        """Intersects a term's range; False if empty."""
        a, b, x = self.rng(st, t)
        lo, hi, x = max(lo, a), min(hi, b), x | excl
        while lo in x:
            lo += 1
        while hi in x:
            hi -= 1
        if lo > hi:
            return False
        if t.k == 'int':
            return True
        if t.k == 'op' and t.a[0] == 'discr':
            poss = self.variants_of(st, t)
            if poss is not None:
                left = [i for d, i in poss if lo <= d <= hi and d not in x]
                base = t.a[1][0]
                if not left:
                    return False
                if len(left) == 1:
                    st.facts[base] = ('v', left[0])
                else:
                    n = len(self.T[t.a[1][1].a[0]]['variants'])
                    ex = frozenset(range(n)) - frozenset(left)
                    if ex:
                        st.facts[base] = ('nv', ex)
                return True
        x = frozenset(e for e in x if lo < e < hi)
        if lo == -INF and hi == INF and not x:
            return True
        st.facts[t] = ('r', lo, hi, x)
        return True

    def assume(self, st, t, val):
        """Assumes a boolean term; False if contradictory."""
        if t.k == 'int':
            return bool(t.a[0]) == bool(val)
        if t.k == 'op':
            p, a = t.a
            if p == 'Not' and len(a) == 1:
                return self.assume(st, a[0], not val)
            if p == 'isv':
                k = self.variant(st, a[0])
                w = a[1].a[0]
                if k is not None and k >= 0:
                    return (k == w) == bool(val)
                f = st.facts.get(a[0])
                if val:
                    if f and f[0] == 'nv' and w in f[1]:
                        return False
                    st.facts[a[0]] = ('v', w)
                else:
                    ex = f[1] if f and f[0] == 'nv' else EMPTY
                    st.facts[a[0]] = ('nv', ex | {w})
                return True
            if p in CMP and len(a) == 2:
                x, y = a
                rx, ry = self.rng(st, x), self.rng(st, y)
                cx = rx[0] if rx[0] == rx[1] else None
                cy = ry[0] if ry[0] == ry[1] else None
                okk = True
                q = p if val else NEG[p]
                if q == 'Eq':
                    if cy is not None:
                        okk = self.refine(st, x, cy, cy, EMPTY)
                    elif cx is not None:
                        okk = self.refine(st, y, cx, cx, EMPTY)
                elif q == 'Ne':
                    if cy is not None:
                        okk = self.refine(st, x, -INF, INF, frozenset([cy]))
                    elif cx is not None:
                        okk = self.refine(st, y, -INF, INF, frozenset([cx]))
                else:
                    if q in ('Gt', 'Ge'):
                        x, y, rx, ry = y, x, ry, rx
                        q = 'Lt' if q == 'Gt' else 'Le'
                    d = 1 if q == 'Lt' else 0
                    if ry[1] != INF:
                        okk = self.refine(st, x, -INF, ry[1] - d, EMPTY)
                    if okk and rx[0] != -INF:
                        okk = self.refine(st, y, rx[0] + d, INF, EMPTY)
                if not okk:
                    return False
        return self.refine(st, t, 1 if val else 0, 1 if val else 0, EMPTY)

    def truth(self, st, t):
        """Known truth of a boolean term, or None."""
        if t.k == 'int':
            return bool(t.a[0])
        lo, hi, x = self.rng(st, t)
        if lo == hi:
            return bool(lo)
        if t.k == 'op':
            p, a = t.a
            if p == 'Not':
                r = self.truth(st, a[0])
                return None if r is None else not r
            if p == 'isv':
                k = self.variant(st, a[0])
                if k is not None and k >= 0:
                    return k == a[1].a[0]
                f = st.facts.get(a[0])
                if f and f[0] == 'nv' and a[1].a[0] in f[1]:
                    return False
                return None
            if p in CMP and len(a) == 2:
                x, y = a
                if x is y:
                    return p in ('Eq', 'Le', 'Ge')
                la, ha, xa = self.rng(st, x)
                lb, hb, xb = self.rng(st, y)
                if p in ('Eq', 'Ne'):
                    r = None
                    if la == ha == lb == hb:
                        r = True
                    elif ha < lb or hb < la or (la == ha and la in xb) or (lb == hb and lb in xa):
                        r = False
                    return r if r is None or p == 'Eq' else not r
                if p in ('Gt', 'Ge'):
                    la, ha, lb, hb = lb, hb, la, ha
                    p = 'Lt' if p == 'Gt' else 'Le'
                if p == 'Lt':
                    if ha < lb:
                        return True
                    if la >= hb:
                        return False
                else:
                    if ha <= lb:
                        return True
                    if la > hb:
                        return False
        return None

    # -- renaming of displaced terms
    def displace(self, st, leaf):
        """A term is made anew: whatever mentions its previous value now
        mentions the `old` one."""
        old = mk('old', leaf)
        m = {leaf: old}
        memo = {}
        cells = st.cells
        for c, v in list(cells.items()):
            if leaf in v.leaves:
                cells[c] = subst(v, m, memo)
        for c in list(cells):
            if c[0] in ('D', 'W') and leaf in c[1].leaves:
                v = cells.pop(c)
                cells[(c[0], subst(c[1], m, memo))] = v
        for t in list(st.facts):
            if leaf in t.leaves:
                f = st.facts.pop(t)
                st.facts[subst(t, m, memo)] = f
        if st.mon:
            ml = self.monleaves(st.mon)
            if leaf in ml:
                st.mon = submon(st.mon, m, memo)

    def fresh(self, st, path, site, *args):
        for i, a in enumerate(args):
            if isinstance(a, N) and any(l.k == 'res' and l.a[0] == path and l.a[1] == site for l in a.leaves):
                # Computed, in a loop, from an earlier result of the same call: forget how.
                h = mk('havoc', path, site, i)
                self.displace(st, h)
                args = args[:i] + (h,) + args[i + 1:]
        r = mk('res', path, site, tuple(args))
        self.displace(st, r)
        return r

    # -- steps
    def step(self, st):
        fr = st.fr
        b = fr.fn['blocks'][st.blk]
        self.fns_seen.add(fr.key)
        for s in b['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, s[2])
                c, p = self.place(st, s[1])
                self.store(st, c, p, v)
            elif k == 'dead':
                st.cells.pop(('L', fr.ctx, s[1]), None)
            elif k == 'sd':
                c, p = self.place(st, s[1])
                v = self.load(st, c, p)
                self.store(st, c, p, self.set_variant(v, s[2]))
        t = b['t']
        k = t[0]
        if k == 'goto':
            self.enter(st, t[1])
        elif k == 'switch':
            self.switch(st, t)
        elif k == 'ret':
            self.ret(st)
        elif k == 'call':
            self.call(st, t)
        elif k == 'drop':
            self.drop(st, t)
        elif k == 'assert':
            self.assert_(st, t)
        elif k == 'resume':
            self.unwind(st)
        elif k == 'abort':
            self.emit('on_end', st, 'abort')
        elif k == 'unreachable':
            pass
        elif k == 'yield':
            raise Exception('yield')
        else:
            raise Exception('terminator %s' % k)

    def set_variant(self, v, k):
        if v.k == 'agg':
            return mk('agg', v.a[0], k, v.a[2])
        if v.k == 'cor':
            body, state, ups, saved = v.a
            vf = self.P.bykey['coroutine:' + body].get('vfields')
            if vf:
                saved = tuple(x for x in saved if x[0] in vf[k])
            if k >= 3 or k in (1, 2):
                # Suspended, returned or panicked: captured values were moved out.
                if k in (1, 2):
                    saved = ()
                    ups = ()
            return mk('cor', body, k, ups, saved)
        if v.k == 'undef':
            return mk('agg', None, k, ())
        return mk('agg', None, k, ())

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k in ('ref', 'addr'):
            c, p = self.place(st, r[1])
            if c[0] == 'V' and not p and c[1].k == 'str':
                return c[1]
            if c[0] == 'D' and not p:
                return c[1]
            return mk('ref', c, p)
        if k == 'discr':
            c, p = self.place(st, r[1])
            v = self.load(st, c, p)
            if v.k == 'boxed':
                v = v.a[0]
            x = self.variant(st, v)
            tid = r[1][2]
            if x is not None and x >= 0:
                t = self.T[tid] if tid is not None else None
                if t and t['k'] == 'enum':
                    if x < len(t['variants']):
                        return I(t['variants'][x]['discr'])
                return I(x)
            return mk('op', 'discr', (v, I(tid if tid is not None else -1)))
        if k == 'agg':
            tid, var, ops = r[1], r[2], r[3]
            vals = tuple(self.operand(st, o) for o in ops)
            t = self.T[tid]
            if t['k'] == 'coroutine':
                return mk('cor', t['body'], 0, vals, ())
            if t.get('def') in TRANSPARENT and vals:
                return vals[0]
            if t['k'] == 'union' and vals:
                return vals[0]
            if t['k'] in ('ptr', 'ref') and vals:
                return vals[0]
            return mk('agg', self.P.tkey[tid], var or 0, vals)
        if k == 'agg0':
            return UNIT
        if k == 'none':
            return NONE
        if k == 'some':
            return some(self.operand(st, r[1]))
        if k == 'tup':
            return mk('agg', 'tuple', 0, tuple(self.operand(st, o) for o in r[1]))
        if k == 'cast':
            v = self.operand(st, r[2])
            return self.cast(st, r[1], v, r[3])
        if k == 'bin':
            self.constants = 'const' in r[2] and 'const' in r[3]
            v = self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]))
            self.constants = False
            return v
        if k == 'un':
            v = self.operand(st, r[2])
            if r[1] == 'Not':
                if v.k == 'int':
                    o = r[2]
                    p = o.get('copy') or o.get('move')
                    t = self.T[p[2]] if p and p[2] is not None else (self.T[o['const']['ty']] if 'const' in o else None)
                    if t and t['k'] == 'bool':
                        return I(1 - v.a[0])
                    if t and t['k'] == 'int' and not t['signed']:
                        return I(((1 << t['bits']) - 1) ^ v.a[0])
                    return I(~v.a[0])
                if v.k == 'op' and v.a[0] in NEG:
                    return mk('op', NEG[v.a[0]], v.a[1])
                if v.k == 'op' and v.a[0] == 'Not':
                    return v.a[1][0]
                return op('Not', v)
            if r[1] == 'PtrMetadata':
                return self.M.length(self, st, v)
            if r[1] == 'Neg' and v.k == 'int':
                return I(-v.a[0])
            return op(r[1], v)
        if k == 'repeat':
            n = r[2] if isinstance(r[2], int) else None
            v = self.operand(st, r[1])
            if n is not None and n <= 16:
                return mk('agg', 'array', 0, (v,) * n)
            return op('repeat', v, I(n if n is not None else -1))
        if k == 'tls':
            return mk('ref', ('S', r[1]), ())
        return mk('sym', 'rvalue ' + k)

    def cast(self, st, kind, v, tid):
        t = self.T[tid]
        if v.k == 'int' and t['k'] == 'int':
            x = v.a[0]
            m = 1 << t['bits']
            x %= m
            if t['signed'] and x >= m // 2:
                x -= m
            return I(x)
        if v.k == 'agg' and t['k'] == 'int':
            # Fieldless enum.
            tt = self.P.bykey.get(v.a[0])
            if tt and tt['k'] == 'enum':
                return I(tt['variants'][v.a[1]]['discr'])
        if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            if kind == 'IntToFloat' and v.k == 'int':
                return op('IntToFloat', v)
            return op(kind, v)
        if kind == 'IntToInt':
            self.emit('on_int_cast', st, v, t)
            if t['bits'] < 32 and v.k != 'int':
                return mk('op', 'trunc%d' % t['bits'], (v,))
        return v

    def binop(self, st, o, a, b):
        base = o.replace('WithOverflow', '').replace('Unchecked', '')
        if base in CMP and b.k == 'int' and a.k == 'op' and a.a[0] == 'discr' and a.a[1][0].k == 'op' and a.a[1][0].a[0] == 'Cmp':
            # The outcome of a comparison is compared.
            q = {('Lt', 0): 'Lt', ('Le', 0): 'Le', ('Gt', 0): 'Gt', ('Ge', 0): 'Ge', ('Eq', 0): 'Eq', ('Ne', 0): 'Ne', ('Le', -1): 'Lt', ('Eq', -1): 'Lt',
                 ('Ne', -1): 'Ge', ('Gt', -1): 'Ge', ('Ge', 1): 'Gt', ('Eq', 1): 'Gt', ('Ne', 1): 'Le', ('Lt', 1): 'Le'}.get((base, b.a[0]))
            if q:
                return self.binop(st, q, *a.a[1][0].a[1])
        if base in CMP and b.k == 'int':
            while a.k == 'op' and a.a[0] in ('Add', 'Sub') and a.a[1][1].k == 'int':
                # A constant on the left goes to the right (short of overflow).
                b = I(b.a[0] + a.a[1][1].a[0] if a.a[0] == 'Sub' else b.a[0] - a.a[1][1].a[0])
                a = a.a[1][0]
        if a.k == 'int' and b.k == 'int':
            x, y = a.a[0], b.a[0]
            r = None
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y,
                     'Div': lambda: int(x / y) if y else None, 'Rem': lambda: x - y * int(x / y) if y else None,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Eq': lambda: int(x == y), 'Ne': lambda: int(x != y), 'Lt': lambda: int(x < y), 'Le': lambda: int(x <= y),
                     'Gt': lambda: int(x > y), 'Ge': lambda: int(x >= y), 'Cmp': lambda: None}[base]()
            except KeyError:
                r = None
            if r is not None:
                if base == 'Add' and r > 3 and (y == 1 or x == 1) and not self.constants:
                    # A counter: widen.
                    return tup(MANY, I(0)) if 'WithOverflow' in o else MANY
                return tup(I(r), I(0)) if 'WithOverflow' in o else I(r)
        if a is MANY and base == 'Add' and b.k == 'int' and b.a[0] >= 0:
            r = MANY
        elif base in ('Add', 'Sub') and b.k == 'int' and addchain(a) > 3:
            r = ANYINT
        elif a is ANYINT and base in ('Add', 'Sub') and b.k == 'int':
            r = ANYINT
        elif base in ('Add', 'BitOr', 'Sub', 'Shl', 'Shr') and b.k == 'int' and b.a[0] == 0:
            r = a
        elif base in ('Add', 'BitOr') and a.k == 'int' and a.a[0] == 0:
            r = b
        elif base in ('Mul', 'Div') and b.k == 'int' and b.a[0] == 1:
            r = a
        elif base in COMM and (a.k == 'int', a.id) > (b.k == 'int', b.id):
            r = op(base, b, a)
        else:
            r = op(base, a, b)
        if base in CMP:
            x = self.truth(st, r)
            if x is not None:
                return I(x)
        if base == 'Cmp':
            return r
        if 'WithOverflow' in o:
            return tup(r, op('overflow', r))
        return r

    def switch(self, st, t):
        v = self.operand(st, t[1])
        targets, other = t[2], t[3]
        lo, hi, ex = self.rng(st, v)
        if lo == hi:
            for x, b in targets:
                if x == lo:
                    self.enter(st, b)
                    return
            if other is not None:
                self.enter(st, other)
            return
        if v.k == 'op' and v.a[0] == 'discr':
            base, tid = v.a[1][0], v.a[1][1].a[0]
            tt = self.T[tid] if tid >= 0 else None
            f = st.facts.get(base)
            exv = f[1] if f and f[0] == 'nv' else EMPTY
            names = {}
            if tt and tt['k'] == 'enum':
                for i, w in enumerate(tt['variants']):
                    names[w['discr']] = i
            else:
                for x, _ in targets:
                    names[x] = x
            rest = [i for d, i in names.items() if d not in [x for x, _ in targets]]
            for x, b in targets:
                i = names.get(x)
                if i is None or i in exv:
                    continue
                s = st.copy()
                s.facts[base] = ('v', i)
                if not self.assume_fork(s, base, i):
                    continue
                s.note('%s is %s' % (show(base, 3), tt['variants'][i]['name'] if tt and tt['k'] == 'enum' else i))
                self.enter(s, b)
            if other is not None and not (tt and tt['k'] == 'enum' and not [i for i in rest if i not in exv]):
                left = [i for i in rest if i not in exv]
                s = st.copy()
                if len(left) == 1:
                    s.facts[base] = ('v', left[0])
                    if not self.assume_fork(s, base, left[0]):
                        return
                    s.note('%s is %s' % (show(base, 3), tt['variants'][left[0]]['name']))
                else:
                    s.facts[base] = ('nv', exv | frozenset(names[x] for x, _ in targets if x in names))
                    if base.k == 'op' and base.a[0] == 'Cmp' and 1 in s.facts[base][1] and not self.assume(s, op('Ne', *base.a[1]), 1):
                        return
                self.enter(s, other)
            return
        tid = None
        o = t[1]
        p = o.get('copy') or o.get('move')
        if p:
            tid = p[2]
        isbool = (tid is not None and self.T[tid]['k'] == 'bool') or (v.k == 'op' and v.a[0] in CMP) or (p and tid is None)
        if isbool:
            for x, b in targets + ([[None, other]] if other is not None else []):
                if x is None:
                    vals = [z for z in (0, 1) if z not in [y for y, _ in targets]]
                else:
                    vals = [x]
                for z in vals:
                    s = st.copy()
                    if self.assume(s, v, z) and self.assume_fork(s, v, z):
                        s.note('%s is %s' % (show(v, 4), bool(z)))
                        self.enter(s, b)
            return
        for x, b in targets:
            s = st.copy()
            if self.refine(s, v, x, x, EMPTY):
                s.note('%s == %s' % (show(v, 3), x))
                self.enter(s, b)
        if other is not None:
            s = st.copy()
            if self.refine(s, v, -INF, INF, frozenset(x for x, _ in targets)):
                self.enter(s, other)

    def assume_fork(self, st, term, val):
        if term.k == 'op' and term.a[0] == 'Cmp' and val in (0, 1, 2) and not self.assume(st, op(('Lt', 'Eq', 'Gt')[val], *term.a[1]), 1):
            return False
        for m in self.monitors:
            f = getattr(m, 'on_assume', None)
            if f and f(st, term, val) is False:
                return False
        if term.k == 'op' and term.a[0] in CMP:
            # A comparison may have settled which variant something is.
            for x in term.a[1]:
                if x.k == 'op' and x.a[0] == 'discr' and st.facts.get(x.a[1][0], ' ')[0] == 'v' and not self.assume_fork(st, x.a[1][0], st.facts[x.a[1][0]][1]):
                    return False
        return True

    def ret(self, st):
        fr = st.fr
        v = st.cells.get(('L', fr.ctx, 0), UNIT)
        self.emit('on_ret', st, fr, v)
        for c in [c for c in st.cells if c[0] == 'L' and c[1] is fr.ctx]:
            del st.cells[c]
        if fr.up is None:
            self.emit('on_end', st, 'return', v)
            self.results.append((st, v))
            return
        st.fr = fr.up
        if fr.dest is not None:
            self.store(st, fr.dest[0], fr.dest[1], v)
        if fr.target is None:
            return
        self.enter(st, fr.target)

    def unwind(self, st):
        """Leaves the current frame by unwinding."""
        fr = st.fr
        self.emit('on_unwind', st, fr)
        for c in [c for c in st.cells if c[0] == 'L' and c[1] is fr.ctx]:
            del st.cells[c]
        if fr.up is None:
            self.emit('on_end', st, 'unwind')
            return
        st.fr = fr.up
        if isinstance(fr.unwind, int):
            self.enter(st, fr.unwind)
        else:
            self.unwind(st)

    def panic(self, st, unw, what):
        """A panic in the current frame, at a call whose cleanup block is `unw`."""
        self.emit('on_panic', st, what)
        if not self.explore_unwind:
            return
        st.note('panic: %s' % what)
        if isinstance(unw, int):
            self.enter(st, unw)
        else:
            self.unwind(st)

    def assert_(self, st, t):
        cond = self.operand(st, t[1])
        exp = t[2]
        tr = self.truth(st, cond)
        if self.explore_assert and (tr is None or tr != bool(exp)):
            s = st.copy()
            if self.assume(s, cond, not exp):
                self.panic(s, t[5], 'assert %s' % t[3])
        if tr is not None and tr != bool(exp):
            return
        if cond.k != 'int' and not (cond.k == 'op' and cond.a[0] == 'overflow'):
            if not self.assume(st, cond, exp):
                return
        self.enter(st, t[4])

    def drop(self, st, t):
        place, target, unw, key = t[1], t[2], t[3], t[4]
        c, p = self.place(st, place)
        v = self.load(st, c, p)
        self.emit('on_drop', st, v, place[2], key)
        if key and key in self.F and v.k not in ('undef', 'bot'):
            self.push(st, key, [mk('ref', c, p)], None, target, unw)
            return
        if v.k != 'undef' and not p and c[0] == 'L' and v.k != 'cor':
            st.cells.pop(c, None)
        self.enter(st, target)

    def push(self, st, key, args, dest, target, unw):
        fn = self.fn(key)
        fr = st.fr
        ctx = mk('ctx', fr.ctx, key, st.blk)
        nf = self.frame(key, fn, ctx, dest, target, unw, fr)
        if nf.depth > 150:
            raise Limit('%s: call depth' % self.name)
        for i in range(len(fn['locals'] or [])):
            st.cells.pop(('L', ctx, i), None)
        st.fr = nf
        for i, a in enumerate(args):
            st.cells[('L', ctx, i + 1)] = a
        self.enter(st, 0)

    def rec_count(self, st, key):
        n = 0
        f = st.fr
        while f is not None:
            if f.key == key:
                n += 1
            f = f.up
        return n

    def call(self, st, t):
        func, args, dest, target, unw = t[1:6]
        self.curcall = t
        fv = self.operand(st, func)
        vals = [self.operand(st, a) for a in args]
        d = self.place(st, dest)
        if fv.k == 'fn':
            self.invoke(st, fv.a[0], vals, d, target, unw, t)
        else:
            self.callf(st, fv, vals, d, target, unw)

    def result(self, st, d, target, v):
        """Completes a call in the current frame."""
        if target is None:
            return
        self.store(st, d[0], d[1], v)
        self.enter(st, target)

    def callf(self, st, f, vals, d, target, unw):
        """Calls a function value with untupled arguments."""
        holder = None
        while True:
            if f.k == 'ref':
                holder = f
                f = self.load(st, f.a[0], f.a[1])
            elif f.k == 'boxed':
                f = f.a[0]
            else:
                break
        if f.k == 'fn':
            self.invoke(st, f.a[0], vals, d, target, unw, None)
            return
        if f.k == 'agg' and isinstance(f.a[0], str) and f.a[0].startswith('closure:'):
            body = f.a[0][8:]
            fn = self.fn(body)
            if fn and self.opaque is not None and getattr(self.opaque, 'closure', None) and self.opaque.closure(body):
                fn = None
                ups = (self.P.bykey.get('closure:' + body) or {}).get('args') or ()
                for i, x in enumerate(f.a[2]):
                    if x.k == 'ref' and x.a[0][0] != 'V' and i < len(ups) and self.T[ups[i]]['k'] == 'ref' and self.T[ups[i]].get('mut'):
                        self.store(st, x.a[0], x.a[1], self.fresh(st, 'out:' + body, self.site(st) + (i,)))
            if fn:
                t1 = self.T[fn['locals'][1]]
                if t1['k'] == 'ref':
                    if holder is None:
                        cell = ('C', st.fr.ctx, st.blk)
                        st.cells[cell] = f
                        holder = mk('ref', cell, ())
                    self.push(st, body, [holder] + list(vals), d, target, unw)
                else:
                    self.push(st, body, [f] + list(vals), d, target, unw)
                return
        v = self.fresh(st, 'call', self.site(st), f, *vals)
        self.M.havoc_args(self, st, vals)
        self.result(st, d, target, v)

    def site(self, st):
        return (st.fr.ctx, st.blk)

    def invoke(self, st, callee, vals, d, target, unw, t):
        c = callee.d
        path = c.get('path') or c['decl']
        decl = c['decl']
        self.calls_seen.setdefault(path, set()).add(st.fr.key)
        m = None
        if c.get('synth'):
            m = getattr(self.M, 's_' + c['synth'])
            m(self, st, c, vals, d, target, unw)
            return
        for mon in self.monitors:
            f = getattr(mon, 'on_call', None)
            if f:
                r = f(st, c, path, vals)
                if r is False:
                    return
                if isinstance(r, N):
                    self.result(st, d, target, r)
                    return
                if isinstance(r, list):
                    for s2, v2 in r:
                        self.result(s2, d, target, v2)
                    return
        if c.get('key') and (self.opaque is not None and self.opaque(c['key']) or any(
                mon.skip(st, c['key']) for mon in self.monitors if hasattr(mon, 'skip'))):
            self.opaque_call(st, c, path, vals, d, target, unw)
            return
        m = self.M.lookup(path, decl, c)
        if m is not None:
            r = m(self, st, c, vals, d, target, unw)
            if r is not None:
                self.result(st, d, target, r)
            return
        key = c.get('key')
        if key and key in self.F and self.rec_count(st, key) < 2:
            fn = self.F[key]
            if fn['spread'] is not None:
                pass
            elif decl.startswith('core::ops::function::Fn') and decl.rsplit('::', 1)[-1] in ('call_once', 'call_mut', 'call') and len(vals) == 2:
                # A closure (or function) called with a tuple of its arguments.
                vals = self.untuple(st, vals, fn['argc'] if '{closure' in fn['path'] else fn['argc'] + 1)
                if '{closure' not in fn['path']:
                    vals = vals[1:]
            elif fn['kind'] == 'Item' and len(vals) != fn['argc']:
                # Closure called with a tuple of arguments.
                vals = self.untuple(st, vals, fn['argc'])
            if c['kind'] == 'shim' and len(vals) != fn['argc']:
                vals = self.untuple(st, vals, fn['argc'])
            self.push(st, key, vals, d, target, unw)
            return
        if c.get('kind') == 'ctor':
            self.result(st, d, target, self.ctor(c, vals))
            return
        if decl in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call'):
            self.callf(st, vals[0], self.untuple(st, vals, None)[1:], d, target, unw)
            return
        # Unknown external function.
        self.M.unknown(self, st, c, path, vals, d, target, unw)

    def opaque_call(self, st, c, path, vals, d, target, unw):
        """A function of the repository that does nothing of interest."""
        fn = self.F[c['key']]
        rt = self.T[fn['locals'][0]]
        if self.explore_unwind and path not in self.nopanic:
            self.panic(st.copy(), unw, 'in ' + path)
        args = [self.M.value(self, st, x) for x in vals]
        if rt['k'] == 'coroutine':
            # An async function: its body runs when polled.
            v = mk('op', 'future ' + path, tuple(args))
        else:
            v = self.fresh(st, path, self.site(st), *args)
        self.M.havoc_args(self, st, vals, path)
        self.result(st, d, target, v)

    def untuple(self, st, vals, argc):
        last = vals[-1]
        if last.k == 'agg' and last.a[0] == 'tuple':
            return list(vals[:-1]) + list(last.a[2])
        n = (argc - (len(vals) - 1)) if argc is not None else 1
        return list(vals[:-1]) + [mk('fld', last, 0, i) for i in range(n)]

    def ctor(self, c, vals):
        # decl is the path of the variant or struct.
        p = c['decl']
        t = self.P.tdef.get(p)
        if t:
            if p in TRANSPARENT:
                return vals[0]
            return mk('agg', p, 0, tuple(vals))
        adt, v = p.rsplit('::', 1)
        adt = adt.split('::<')[0]
        t = self.P.tdef.get(adt)
        if t is None and adt.endswith('>'):
            pass
        if t:
            for i, w in enumerate(t['variants']):
                if w['name'] == v:
                    return mk('agg', adt, i, tuple(vals))
        return mk('agg', p, 0, tuple(vals))


class FnRef:
    """A callee, interned by key."""
    _tab = {}

    def __new__(cls, d):
        k = (d.get('key') or d['decl'], d.get('kind'))
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.d = d
            cls._tab[k] = r
        return r

    def __repr__(self):
        return self.d.get('key') or self.d['decl']


def submon(x, m, memo):
    if isinstance(x, N):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(submon(y, m, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(submon(y, m, memo) for y in x)
    return x


_nr = {}


def noderefs(n):
    """Cells and paths referred to by a node."""
    r = _nr.get(n)
    if r is None:
        acc = set()

        def f(x):
            if x.k == 'ref':
                acc.add((x.a[0], x.a[1]))
        walk(n, f)
        r = _nr[n] = frozenset(acc)
    return r


_cr = {}


def cellrefs(n):
    """Cells referred to by a node."""
    r = _cr.get(n)
    if r is None:
        acc = set()

        def f(x):
            if x.k == 'ref':
                acc.add(x.a[0])
        walk(n, f)
        r = _cr[n] = frozenset(acc)
    return r


CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}
NEG = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}
COMM = {'Eq', 'Ne', 'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'}
