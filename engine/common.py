"""Shared parts of the checks: the program, its call graph, reporting."""
import contextlib
import json
import re
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import facts as factsmod  # noqa: E402
import absint  # noqa: E402
from node import *  # noqa: E402,F403

REPO = os.environ.get('PROCSTAR_REPO', '/repo')


class Graph:
    """Call graph: for each function, the functions it may run and the
    external functions and statics it mentions."""

    def __init__(self, P):
        self.P = P
        self.edges = {}
        self.ext = {}
        for k, f in P.fns.items():
            e, x = set(), set()
            for t in f['locals']:
                if t is None:
                    continue
                ty = P.types[t]
                if ty['k'] in ('closure', 'coroutine') and ty.get('body') in P.fns:
                    pass
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] == '=':
                        self.rv(s[2], e, x)
                t = b['t']
                if t[0] == 'call':
                    self.opnd(t[1], e, x)
                    for o in t[2]:
                        self.opnd(o, e, x)
                elif t[0] == 'drop' and t[4]:
                    if t[4] in P.fns:
                        e.add(t[4])
                elif t[0] == 'switch':
                    self.opnd(t[1], e, x)
                elif t[0] == 'assert':
                    x.add('assert')
            self.edges[k] = e
            self.ext[k] = x
        self._reach = {}
        self.rev = {}
        for k, e in self.edges.items():
            for y in e:
                self.rev.setdefault(y, set()).add(k)

    def rv(self, r, e, x):
        P = self.P
        if r[0] in ('use',):
            self.opnd(r[1], e, x)
        elif r[0] == 'repeat':
            self.opnd(r[1], e, x)
        elif r[0] == 'cast':
            self.opnd(r[2], e, x)
        elif r[0] == 'bin':
            self.opnd(r[2], e, x)
            self.opnd(r[3], e, x)
        elif r[0] == 'un':
            self.opnd(r[2], e, x)
        elif r[0] == 'agg':
            t = P.types[r[1]]
            if t['k'] in ('closure', 'coroutine') and t.get('body') in P.fns:
                e.add(t['body'])
            for o in r[3]:
                self.opnd(o, e, x)
        elif r[0] == 'tls':
            x.add('static ' + r[1])

    def opnd(self, o, e, x):
        c = o.get('const')
        if not c:
            return
        f = c.get('fn')
        if f is None and c.get('ty') is not None:
            t = self.P.types[c['ty']]
            if t['k'] == 'fndef':
                f = t['fn']
            elif t['k'] == 'closure' and t.get('body') in self.P.fns:
                e.add(t['body'])
        if f:
            if f.get('key') in self.P.fns:
                e.add(f['key'])
            x.add(f.get('path') or f['decl'])
            x.add('decl ' + f['decl'])
            # Adapters over closures and futures run them.
            for a in f.get('targs') or []:
                if isinstance(a, int):
                    t = self.P.types[a]
                    if t.get('body') in self.P.fns:
                        e.add(t['body'])
                    for nm in ('next', 'poll'):
                        if t.get(nm) in self.P.fns:
                            e.add(t[nm])
        v = c.get('v')
        if isinstance(v, dict) and 'static' in v:
            x.add('static ' + v['static'])
        if isinstance(v, dict) and 'fnptr' in v and v['fnptr'] in self.P.fns:
            e.add(v['fnptr'])

    def reach(self, k):
        """Functions that may run when k does (including k)."""
        r = self._reach.get(k)
        if r is None:
            r = {k}
            st = [k]
            while st:
                for y in self.edges.get(st.pop(), ()):
                    if y not in r:
                        r.add(y)
                        st.append(y)
            self._reach[k] = r
        return r

    def reach_ext(self, k):
        r = set()
        for y in self.reach(k):
            r |= self.ext[y]
        return r

    def callers(self, pred):
        """All functions from which a function satisfying pred is reachable."""
        st = [k for k in self.edges if pred(k)]
        r = set(st)
        while st:
            for y in self.rev.get(st.pop(), ()):
                if y not in r:
                    r.add(y)
                    st.append(y)
        return r

    def path(self, src, pred, avoid=()):
        """A call path from src to a function satisfying pred."""
        prev = {src: None}
        q = [src]
        for k in q:
            if pred(k):
                p = []
                while k is not None:
                    p.append(k)
                    k = prev[k]
                return p[::-1]
            for y in sorted(self.edges.get(k, ())):
                if y not in prev and y not in avoid:
                    prev[y] = k
                    q.append(y)
        return None


class Prog:
    _inst = None

    def __init__(self, crate='bin'):
        self.dir = factsmod.get()
        self.P = absint.Facts(os.path.join(self.dir, 'procstar.%s.json' % crate))
        self.G = Graph(self.P)
        self.fns = self.P.fns

    @classmethod
    def get(cls):
        if cls._inst is None:
            cls._inst = cls()
        return cls._inst

    def local(self, k):
        return self.fns[k]['crate'] == 'procstar'

    def find(self, path):
        """Keys of the instances of a local function."""
        return sorted(k for k, f in self.fns.items() if f['path'] == path or f['path'].endswith('::' + path))

    def one(self, path):
        r = self.find(path)
        if not r:
            raise Missing('no function %s' % path)
        return r[0]

    def table_insert(self):
        """Functions that insert process records into a map."""
        r = set()
        for k, f in self.fns.items():
            if not self.local(k):
                continue
            for b in f['blocks']:
                if b['t'][0] == 'call':
                    c = (b['t'][1].get('const') or {}).get('fn')
                    if c and (c.get('path') or '').endswith('::insert') and any(
                            isinstance(a, int) and 'RefCell<procstar::procs::Proc>' in self.P.types[a]['s'] for a in c.get('targs') or ()):
                        r.add(k)
        return r

    def record_writers(self):
        """Functions that are given a process record, or borrow one, to change it."""
        P = self.P
        r = set()
        for k, f in self.fns.items():
            if not self.local(k):
                continue
            if any(P.types[t]['s'] == '&mut procstar::procs::Proc' for t in f['locals'][1:f['argc'] + 1]):
                r.add(k)
                continue
            for b in f['blocks']:
                if b['t'][0] == 'call':
                    c = (b['t'][1].get('const') or {}).get('fn')
                    if c and (c.get('path') or '').endswith('::borrow_mut') and any(
                            isinstance(a, int) and P.types[a]['s'] == 'procstar::procs::Proc' for a in c.get('targs') or ()):
                        r.add(k)
        return r

    def leaf(self, key):
        """A short function that calls nothing of the repository."""
        fn = self.fns[key]
        return len(fn['blocks']) <= 6 and not any(y in self.fns and self.local(y) for y in self.G.edges.get(key, ()))

    def scalar(self, key):
        """Functions of numbers only, such as a conversion of the result of a system call."""
        fn = self.fns[key]
        return bool(fn['argc']) and fn['crate'] == 'procstar' and fn['kind'] == 'Item' and not fn['cor'] and all(
            self.P.types[t]['k'] in ('int', 'uint', 'bool') or re.match(r'(bool|[iu](8|16|32|64|size))$', self.P.types[t]['s']) for t in fn['locals'][1:fn['argc'] + 1]) and not any(
            y != key and y in self.fns and self.local(y) and '{closure' not in self.fns[y]['path'] for y in self.G.reach(key)) and not any(
            x.startswith('libc::') for x in self.G.reach_ext(key))

    def opaque(self, relevant, leaves=False, keep=()):
        """Predicate: local functions from which nothing relevant (a predicate on
        external paths) is reachable are not analysed inline."""
        cache = {}

        def closure(key):
            """Closures that only do what is not relevant, by calls of other functions of the repository."""
            fn = self.fns.get(key)
            if fn is None or fn['crate'] != 'procstar' or any(relevant(x) for x in self.G.reach_ext(key)):
                return False
            return any(y in self.fns and self.local(y) and '{closure' not in self.fns[y]['path'] and not y.endswith('as core::clone::Clone>::clone')
                       for y in self.G.edges.get(key, ()))

        def f(key):
            r = cache.get(key)
            if r is None:
                fn = self.fns.get(key)
                if fn is None or fn['crate'] != 'procstar' or fn['kind'] != 'Item':
                    r = False
                elif keep and self.G.reach(key) & keep:
                    r = False
                elif any(OUT.match(self.P.types[t]['s']) for t in fn['locals'][1:fn['argc'] + 1]):
                    # What it finds is returned through an argument.
                    r = False
                elif self.scalar(key):
                    r = False
                elif fn['path'].endswith('as core::clone::Clone>::clone') or ' as core::cmp::' in fn['path'] or leaves and self.leaf(key):
                    r = False
                else:
                    r = not any(relevant(x) for x in self.G.reach_ext(key))
                cache[key] = r
            return r
        f.closure = closure
        return f


def iswatched(t):
    """The present value of a watch channel."""
    return t.k == 'cont' and t.a[0].k == 'op' and t.a[0].a[0] == 'watched'


OUT = re.compile(r'&mut (bool|[iu](8|16|32|64|size)|alloc::vec::Vec<.*>|core::option::Option<.*>|core::result::Result<.*>|alloc::string::String)$')


class Missing(Exception):
    """An anchor of a property is missing from the code."""


def field_index(P, adt, name, typ=None):
    """Index of a field: by name, else by a part of its type."""
    t = P.tdef.get(adt)
    if t is None:
        raise Missing('no type %s' % adt)
    fs = t['variants'][0]['fields']
    for i, f in enumerate(fs):
        if f[0] == name:
            return i
    if typ:
        r = [i for i, f in enumerate(fs) if typ in P.types[f[1]]['s']]
        if len(r) == 1:
            return r[0]
    raise Missing('no field %s of %s' % (name, adt))


def variant_index(P, adt, name):
    t = P.tdef.get(adt)
    if t is None:
        raise Missing('no type %s' % adt)
    for i, v in enumerate(t['variants']):
        if v['name'] == name:
            return i
    raise Missing('no variant %s of %s' % (name, adt))


def ext(*names):
    """Predicate on external paths: last components."""
    s = set(names)

    def f(p):
        return p in s or p.rsplit('::', 1)[-1] in s and (p.startswith('libc::') or '::' not in p) or any(n.endswith('*') and p.startswith(n[:-1]) for n in s)
    return f


@contextlib.contextmanager
def part(rep):
    """Of a check: what is too large for the interpreter does not keep the other parts from being checked."""
    try:
        yield
    except absint.Limit as e:
        print('incomplete: %s' % e)
        rep.note(exhaustive=False, incomplete=[str(e)])


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.viol = {}
        self.obl = {}
        self.t0 = time.time()
        self.cover = {}
        self.assumptions = []
        self.fns = set()

    def obligation(self, what, n=1):
        self.obl[what] = self.obl.get(what, 0) + n

    def violation(self, key, msg, trace=None, **kw):
        """key: stable identification without line numbers."""
        if key not in self.viol:
            self.viol[key] = dict(key=key, message=msg, trace=trace or [], **kw)

    def require(self, cond, key, msg, trace=None):
        self.obligation(key.split(':')[0])
        if not cond:
            self.violation(key, msg, trace)
        return cond

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool) and isinstance(self.cover.get(k), int):
                self.cover[k] += v
            elif isinstance(v, list) and isinstance(self.cover.get(k), list):
                self.cover[k] += v
            else:
                self.cover[k] = v

    def parallel(self, jobs):
        """Runs functions of a report in processes of their own; what they report is merged in order."""
        import pickle
        import tempfile
        kids = []
        sys.stdout.flush()
        for j in jobs:
            f = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                r = Report(self.prop, self.tier)
                try:
                    try:
                        j(r)
                        x = None
                    except BaseException as e:
                        import traceback
                        x = (type(e), str(e), traceback.format_exc())
                    pickle.dump((x, r.obl, r.viol, r.cover, r.fns, r.assumptions), f)
                    f.flush()
                finally:
                    os._exit(0)
            kids.append((pid, f))
        err = None
        for pid, f in kids:
            os.waitpid(pid, 0)
            f.seek(0)
            x, obl, viol, cover, fns, assume = pickle.load(f)
            f.close()
            for k, n in obl.items():
                self.obligation(k, n)
            for k, v in viol.items():
                self.viol.setdefault(k, v)
            self.note(**cover)
            self.fns |= fns
            self.assumptions += [a for a in assume if a not in self.assumptions]
            if x:
                err = err or x
        if err:
            try:
                e = err[0](err[1])
            except TypeError:
                e = RuntimeError(err[1])
            sys.stderr.write(err[2][-1500:] if not issubclass(err[0], (absint.Limit, Missing)) else '')
            raise e

    def engine(self, e, name=None):
        """Records what an interpreter run covered."""
        self.note(abstract_steps=e.nsteps, roots=[name or e.name])
        self.fns |= {k for k in e.fns_seen if not k.startswith('$')}

    def finish(self, explanation, level='other', python=False):
        known = load_known(self.prop)
        out = []
        bad = 0
        used = set()
        for key, v in sorted(self.viol.items()):
            if key in known:
                used.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[key]))
                out.append(v)
                continue
            bad += 1
            d = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%d.json' % (self.prop, bad))
            json.dump(v, open(p, 'w'), indent=1)
            print('  %s: %s' % (key, v['message']))
            for ev in v['trace'][-12:]:
                print('      %s:%s %s' % (ev.get('file'), ev.get('line'), ev.get('event')))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        n = sum(self.obl.values())
        local = sorted({(Prog._inst.fns[k]['path']) for k in self.fns if Prog._inst and k in Prog._inst.fns and Prog._inst.local(k)})
        cov = {'explanation': explanation, 'obligations': n, 'discharged': n - len(self.viol),
               'obligations_by_rule': self.obl, 'functions_analysed': len(self.fns) or None,
               'repo_functions_analysed': local or None, 'exhaustive': True}
        cov.update(self.cover)
        cov = {k: v for k, v in cov.items() if v is not None}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': bad}
        if self.viol:
            ev['coverage']['findings'] = [v['key'] + ': ' + v['message'] for v in self.viol.values()]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d violations, %d known findings, %.1f s' % (self.prop, n, bad, len(used), time.time() - self.t0))
        return 1 if bad else 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    r = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('finding') and d['property'] == prop:
                r[d['key']] = d['finding']
    return r
