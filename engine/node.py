"""Hash-consed value nodes of the abstract domain."""

_tab = {}
_n = 0


class N:
    __slots__ = ('k', 'a', 'leaves', 'id', '_d')

    def __repr__(self):
        return show(self, 4)


EMPTY = frozenset()
LEAF = {'sym', 'res', 'elem', 'cont', 'old', 'havoc'}


def _leaves(x, acc):
    if isinstance(x, N):
        acc |= x.leaves
    elif isinstance(x, tuple):
        for y in x:
            _leaves(y, acc)


def mk(k, *a):
    key = (k,) + a
    n = _tab.get(key)
    if n is None:
        global _n
        n = N()
        n.k = k
        n.a = a
        n._d = None
        _n += 1
        n.id = _n
        acc = set()
        if k == 'seq':
            for s in a[0]:
                if s[0] == 'base':
                    acc |= s[1].leaves
        else:
            _leaves(a, acc)
        if k in LEAF:
            acc.add(n)
        n.leaves = frozenset(acc) if acc else EMPTY
        _tab[key] = n
    return n


def I(v):
    return mk('int', int(v))


def S(s):
    return mk('str', s)


def op(path, *args):
    return mk('op', path, tuple(args))


def sym(name):
    return mk('sym', name)


def agg(ty, variant, *fields):
    return mk('agg', ty, variant, tuple(fields))


OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'
NONE = agg(OPT, 0)
UNIT = agg('tuple', 0)
UNDEF = mk('undef')
PENDING = agg(POLL, 1)
TRUE = I(1)
FALSE = I(0)


def some(x):
    return agg(OPT, 1, x)


def ok(x):
    return agg(RES, 0, x)


def err(x):
    return agg(RES, 1, x)


def ready(x):
    return agg(POLL, 0, x)


def tup(*xs):
    return agg('tuple', 0, *xs)


def ref(cell, path=()):
    if cell[0] == 'D' and not path and False:
        return cell[1]
    return mk('ref', cell, path)


def walk(n, f, seen=None):
    """Calls f on each distinct subnode."""
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, N):
            if x in seen:
                continue
            seen.add(x)
            f(x)
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def contains(n, m):
    found = []

    def f(x):
        if x is m:
            found.append(1)
    walk(n, f)
    return bool(found)


def any_node(n, pred):
    r = []

    def f(x):
        if not r and pred(x):
            r.append(x)
    walk(n, f)
    return r[0] if r else None


def subst(n, m, memo):
    """Replaces leaves by a map, except inside local collections' elements."""
    if isinstance(n, N):
        if not n.leaves or n.leaves.isdisjoint(m.keys()):
            return n
        r = memo.get(n)
        if r is not None:
            return r
        if n in m:
            r = m[n]
        elif n.k == 'seq':
            r = mk('seq', tuple((s[0], subst(s[1], m, memo)) if s[0] == 'base' else s for s in n.a[0]))
        elif n.k == 'old':
            r = n
        else:
            r = mk(n.k, *[subst(x, m, memo) for x in n.a])
        memo[n] = r
        return r
    if isinstance(n, tuple):
        return tuple(subst(x, m, memo) for x in n)
    return n


def show(n, d=6):
    if isinstance(n, tuple):
        return '(' + ', '.join(show(x, d) for x in n) + ')'
    if not isinstance(n, N):
        return str(n)
    if d <= 0:
        return '..'
    k, a = n.k, n.a
    if k == 'int':
        return str(a[0])
    if k == 'str':
        return repr(a[0])
    if k == 'sym':
        return str(a[0])
    if k == 'agg':
        nm = str(a[0]).split('#')[0].split('::')[-1]
        return '%s%s{%s}' % (nm, '' if a[1] in (0, None) else '/%d' % a[1], ', '.join(show(x, d - 1) for x in a[2]))
    if k == 'op':
        return '%s(%s)' % (str(a[0]).split('::')[-1], ', '.join(show(x, d - 1) for x in a[1]))
    if k == 'res':
        return '%s!(%s)' % (str(a[0]).split('::')[-1], ', '.join(show(x, d - 1) for x in a[2]))
    if k == 'fld':
        return '%s.%s%s' % (show(a[0], d - 1), '' if not a[1] else '%d:' % a[1], a[2])
    if k == 'ref':
        c = a[0]
        return '&%s%s' % (show(c[1], d - 1) if c[0] in 'DV' else c[0] + str(hash(c) % 1000), ''.join('.%s' % (p,) for p in a[1]))
    if k == 'seq':
        return '[%s]' % ', '.join('%s:%s' % (s[0], show(s[-1], d - 1) if not isinstance(s[-1], frozenset) else len(s[-1])) for s in a[0])
    return '%s(%s)' % (k, ', '.join(show(x, d - 1) for x in a))
