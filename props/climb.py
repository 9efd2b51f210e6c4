"""Obligations of a function, or else of each of its callers."""
from handlers import *


class Buffer:
    """Holds back violations."""

    def __init__(self, rep):
        self.rep = rep
        self.viol = []
        self.n = 0

    def require(self, cond, key, msg, trace=None):
        self.rep.obligation(key.split(':')[0])
        self.n += 1
        if not cond:
            self.viol.append((key, msg, trace))
        return cond

    def violation(self, key, msg, trace=None, **kw):
        self.viol.append((key, msg, trace))

    def engine(self, e, name=None):
        self.rep.engine(e, name)

    def note(self, **kw):
        self.rep.note(**kw)

    def obligation(self, *a, **kw):
        self.rep.obligation(*a, **kw)


def owner(prog, k):
    """The functions that a closure or async body is written in; any other function itself."""
    f = prog.fns[k]
    p = f['path']
    if '::{closure' not in p:
        return {k} if f['kind'] == 'Item' and not f['cor'] else set()
    p = p.split('::{closure')[0]
    return {j for j, g in prog.fns.items() if g['path'] == p and g['kind'] == 'Item' and not g['cor']}


def callers(prog, key):
    """Local functions that call one, closures and async bodies counted to where they are written."""
    r = set()
    for c in prog.G.rev.get(key, ()):
        if prog.local(c):
            r |= owner(prog, c)
    r.discard(key)
    return r


def direct(prog, pred):
    """Local functions that themselves, their closures and async body included, call an external function."""
    r = set()
    for k in prog.fns:
        if prog.local(k) and any(pred(x) for x in prog.G.ext[k]):
            r |= owner(prog, k)
    return sorted(r)


def takes(prog, k, *types):
    f = prog.fns[k]
    return any(t in prog.P.types[f['locals'][i]]['s'] for i in range(1, f['argc'] + 1) for t in types)


def climb(rep, prog, keys, check, types=('procs::SharedProcs', 'procstar::procs::Procs')):
    """check(buffer, key) for each function; what fails there must hold in each caller."""
    memo = {}

    def holds(k, busy):
        if k not in memo:
            b = Buffer(rep)
            try:
                check(b, k)
            except Missing:
                raise
            except Exception as e:
                # Too large, or beyond what the interpreter can follow.
                b.viol.append(('too large: ' + prog.fns[k]['path'], str(e), None))
            memo[k] = b
        b = memo[k]
        if not b.viol:
            return True, []
        cs = [c for c in callers(prog, k) if c not in busy]
        if not cs or not all(takes(prog, c, *types) for c in cs):
            # Nothing above it could make up for it.
            return False, b.viol
        for c in sorted(cs):
            o, v = holds(c, busy | {k})
            if not o:
                # Report where it is nearest.
                return False, b.viol
        return True, []
    for k in keys:
        o, v = holds(k, {k})
        for x in v:
            rep.violation(*x)
    return memo
