"""An abstract interpreter for the Python sources of /repo/python.

A function is interpreted over its syntax tree with symbolic arguments.  Nothing of the code is executed: each call
of a library function yields a symbolic term, and where a condition on symbolic terms is not determined by what is
assumed so far, each outcome is followed.  The choices on a path are kept in a trail; a path is explored by
interpreting again from the start with the next trail.  Unknown collections have up to `bound` generic elements.  At
a suspension (`await` of something that is not part of the sources), what other tasks may change is forgotten."""
import ast
import builtins
import os

REPO = os.environ.get('PROCSTAR_REPO', '/repo')


class Sym:
    """A symbolic term."""
    __slots__ = ('op', 'args', 'ty', '_h', 'nn')

    def __init__(self, op, args=(), ty=None, nn=False):
        self.op, self.args, self.ty, self.nn = op, tuple(args), ty, nn or ty is not None
        self._h = hash((op, self.args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or isinstance(o, Sym) and self._h == o._h and self.op == o.op and len(self.args) == len(o.args) and all(
            same(a, b) for a, b in zip(self.args, o.args))

    def __repr__(self):
        if not self.args:
            return self.op
        if self.op == 'attr':
            return '%s.%s' % (short(self.args[0]), self.args[1])
        return '%s(%s)' % (self.op, ', '.join(short(a) for a in self.args if not (isinstance(a, tuple) and not a)))


def short(v):
    if isinstance(v, Obj):
        return '<%s>' % v.cls.name
    s = repr(v)
    return s if len(s) < 90 else s[:87] + '...'


def same(a, b):
    return a is b or type(a) is type(b) and a == b


class Obj:
    """An instance; identity matters."""

    def __init__(self, cls, attrs=None, shared=False, tag=None):
        self.cls, self.attrs, self.shared, self.tag = cls, dict(attrs or {}), shared, tag
        self.epoch = {}
        self.partial = False

    def __repr__(self):
        return '<%s%s>' % (self.cls.name, ' ' + str(self.tag) if self.tag else '')


class Cls:
    def __init__(self, name, bases=(), ns=None, mod=None, exc=False):
        self.name, self.bases, self.ns, self.mod = name, tuple(bases), dict(ns or {}), mod
        self.fields = None          # of a data class: [(name, default or MISSING)]
        self.annot = {}
        self.members = None         # of an enumeration

    def mro(self):
        r = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                r += [x for x in b.mro() if x not in r]
        return r

    def find(self, n):
        for c in self.mro():
            if n in c.ns:
                return c.ns[n]
        return MISSING

    def sub(self, o):
        return o in self.mro()

    def __repr__(self):
        return '%s' % self.name


class _M:
    def __repr__(self):
        return '?'


MISSING = _M()


class Func:
    def __init__(self, node, env, mod, cls=None, kind=None):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls
        self.decos = ()
        self.defaults = None
        a = isinstance(node, ast.AsyncFunctionDef)
        g = has_yield(node)
        self.kind = 'agen' if a and g else 'co' if a else 'gen' if g else 'fn'

    @property
    def name(self):
        n = getattr(self.node, 'name', '<lambda>')
        return (self.cls.name + '.' if self.cls else '') + n

    def __repr__(self):
        return self.name


def has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += ast.iter_child_nodes(x)
    return False


class Bound:
    def __init__(self, f, self_):
        self.f, self.self = f, self_

    def __repr__(self):
        return '%r of %s' % (self.f, short(self.self))

    def __eq__(self, o):
        return isinstance(o, Bound) and self.f is o.f and same(self.self, o.self)

    def __hash__(self):
        return hash(('bound', id(self.f)))


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Gen:
    """A call of a generator or coroutine function that has not run."""

    def __init__(self, f, env):
        self.f, self.env = f, env
        self.done = False

    def __repr__(self):
        return '%r()' % self.f


class Native:
    """A function that the analysis provides."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name


class Mod:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns

    def __repr__(self):
        return 'module ' + self.name


class Map:
    """A dictionary; `open` if it may have entries that are not decided yet."""
    frozen = False

    def __init__(self, items=(), open_=None, shared=False, tag=None):
        self.items = []             # [key, value or MISSING, epoch]
        self.open, self.shared, self.tag = open_, shared, tag
        self.extra = 0
        for k, v in items:
            self.items.append([k, v, 0])

    def __repr__(self):
        return '{%s%s}' % (', '.join('%s: %s' % (short(k), short(v)) for k, v, _ in self.items if v is not MISSING), ', ...' if self.open else '')


class Seq:
    """A list, tuple or set."""
    frozen = False

    def __init__(self, kind, items):
        self.kind, self.items = kind, list(items)

    def __repr__(self):
        return {'list': '[%s]', 'tuple': '(%s)', 'set': '{%s}'}[self.kind] % ', '.join(short(x) for x in self.items)


class Prune(Exception):
    pass


try:
    from absint import Limit
except ImportError:
    Limit = Exception


class Unsupported(Limit):
    pass


class Raise(Exception):
    def __init__(self, v):
        self.v = v


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class GenExit(Exception):
    """Leaves a generator whose consumer is done."""

    def __init__(self, gen):
        self.gen = gen


class Env:
    def __init__(self, vars, up=None):
        self.vars, self.up = vars, up
        self.nonlocals = set()
        self.globals = set()


LIBEXC = {
    'ConnectionClosed': 'Exception', 'ConnectionClosedOK': 'ConnectionClosed', 'ConnectionClosedError': 'ConnectionClosed',
    'UnpackException': 'Exception', 'QueueEmpty': 'Exception', 'QueueFull': 'Exception', 'InvalidStateError': 'Exception',
    'HTTPError': 'Exception', 'HTTPStatusError': 'HTTPError', 'ExtraData': 'ValueError', 'FormatError': 'ValueError',
    'CancelledError': 'BaseException', 'PackException': 'Exception',
}
EXC = {}


def exc_class(name):
    if name not in EXC:
        if name in LIBEXC:
            EXC[name] = Cls(name, (exc_class(LIBEXC[name]),))
        else:
            b = getattr(builtins, name)
            EXC[name] = Cls(name, [exc_class(x.__name__) for x in b.__bases__ if x is not object])
    return EXC[name]


BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
ENUM = Cls('Enum')
TYPES = {n: Cls(n) for n in ('str', 'int', 'bool', 'bytes', 'dict', 'list', 'tuple', 'set', 'float', 'object', 'frozenset')}
TYPES['bool'].bases = (TYPES['int'],)


class Package:
    """The syntax trees of the sources."""

    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, 'python')
        self.trees = {}
        self.mods, self.n0 = {}, 0
        for d, _, fs in os.walk(os.path.join(self.root, 'procstar')):
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    m = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    pkg = m.endswith('.__init__')
                    m = m[:-9] if pkg else m
                    self.trees[m] = (ast.parse(open(p).read(), p), pkg, os.path.relpath(p, REPO))
        # Attributes that are assigned other than in a constructor.
        self.mutable = set()
        for t, _, _ in self.trees.values():
            for c in ast.walk(t):
                if isinstance(c, ast.ClassDef):
                    for f in ast.walk(c):
                        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name != '__init__':
                            for x in ast.walk(f):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                    self.mutable.add(mangle(x.attr, c.name))
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) and c.name != '__init__':
                    for x in ast.walk(c):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            self.mutable.add(x.attr)


def mangle(n, cls):
    return '_%s%s' % (cls.lstrip('_'), n) if cls and n.startswith('__') and not n.endswith('__') else n


class Interp:
    """One path.  Subclasses define what library functions do: `lib(name, args, kw)` for calls, `awaits(term)` for
    what awaiting a term of the environment yields, `attr(base, name)` for attributes of terms."""

    bound = 2
    max_choices = 400

    def __init__(self, pkg, trail, rep=None):
        self.pkg, self.rep = pkg, rep
        self.trail, self.pos = trail, 0
        self.mods = {}
        self.facts = {}
        self.events = []
        self.notes = []
        self.epoch = 0
        self.n = pkg.n0
        self.stack = []
        self.excs = []
        self.loading = True
        self.line = None
        self.steps = 0

    # Choices.

    def choose(self, n, what):
        if n <= 1:
            return 0
        if self.pos < len(self.trail):
            c = self.trail[self.pos]
        else:
            if len(self.trail) > self.max_choices:
                raise Unsupported('too many choices')
            self.trail.append([0, n])
            c = self.trail[-1]
        self.pos += 1
        self.notes.append((self.where(), what, c[0]))
        return c[0]

    def where(self):
        f = self.stack[-1] if self.stack else None
        return '%s:%s' % (self.pkg.trees[f.mod][2] if f else '?', self.line)

    def event(self, kind, *args):
        self.events.append((kind, args, self.where(), tuple(f.name for f in self.stack)))

    def fresh(self, op, *args):
        self.n += 1
        return Sym(op, args + (('#', self.n),))

    # Modules.

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if self.loading and name in self.pkg.mods:
            self.mods.update(self.pkg.mods)
            return self.mods[name]
        first = self.loading and not self.stack
        pos = self.pos
        m = Mod(name, {'__name__': name})
        self.mods[name] = m
        tree = self.pkg.trees[name][0]
        f = Func(ast.parse('def module(): pass').body[0], None, name)
        self.stack.append(f)
        try:
            env = Env(m.ns)
            env.mod = m
            env.cls = None
            self.block(tree.body, env)
        finally:
            self.stack.pop()
        if first and self.pos == pos and not self.facts:
            # The same for every path.
            self.pkg.mods.update(self.mods)
            self.pkg.n0 = self.n
            for x in self.mods.values():
                for v in x.ns.values():
                    if isinstance(v, (Map, Seq)):
                        v.frozen = True
        return m

    def resolve(self, name, level, mod):
        if level:
            tree = self.pkg.trees[mod]
            parts = mod.split('.')
            if not tree[1]:
                parts = parts[:-1]
            parts = parts[:len(parts) - (level - 1)]
            return '.'.join(parts + ([name] if name else []))
        return name

    def import_from(self, modname, n):
        full = modname + '.' + n
        if modname in self.pkg.trees:
            m = self.module(modname)
            if n in m.ns:
                return m.ns[n]
            if full in self.pkg.trees:
                return self.module(full)
            raise Unsupported('import of %s' % full)
        return self.libval(full)

    def libval(self, full):
        n = full.rsplit('.', 1)[-1]
        if n in LIBEXC:
            return exc_class(n)
        if full in ('asyncio.TimeoutError', 'asyncio.exceptions.TimeoutError'):
            return exc_class('TimeoutError')
        if full in ('enum.Enum',):
            return ENUM
        return Sym('lib', (full,), nn=True)

    # Values.

    def typename(self, v):
        if isinstance(v, bool):
            return 'bool'
        if v is None:
            return 'NoneType'
        if isinstance(v, (str, int, float, bytes)):
            return type(v).__name__
        if isinstance(v, Map):
            return 'dict'
        if isinstance(v, Seq):
            return v.kind
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Obj):
            return v.cls.name
        return None

    def const(self, v):
        return v is None or isinstance(v, (str, int, float, bytes))

    def decide(self, key, what):
        if key in self.facts:
            return self.facts[key]
        r = self.choose(2, what) == 0
        self.facts[key] = r
        return r

    def truth(self, v):
        if self.const(v):
            return bool(v)
        if isinstance(v, Seq):
            return bool(v.items)
        if isinstance(v, Map):
            if any(x is not MISSING for _, x, _ in v.items):
                return True
            return bool(self.entries(v))
        if isinstance(v, Obj):
            f = v.cls.find('__len__')
            if isinstance(f, Func):
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, Sym):
            if v.op == 'not':
                return not self.truth(v.args[0])
            return self.decide(('t', v), short(v))
        return True

    def distinct(self, a, b):
        """Whether two terms surely differ; a hook."""
        return False

    def equal(self, a, b, ident=False):
        if a is b:
            return True
        if self.const(a) and self.const(b):
            if ident and (isinstance(a, bool) or isinstance(b, bool) or a is None or b is None):
                return a is b
            return type(a) is type(b) and a == b or not isinstance(a, (str, bytes)) and not isinstance(b, (str, bytes)) and a == b
        if isinstance(a, Seq) and isinstance(b, Seq) and not ident:
            if a.kind != 'set' or b.kind != 'set':
                return a.kind == b.kind and len(a.items) == len(b.items) and all(self.equal(x, y) for x, y in zip(a.items, b.items))
            return len(a.items) == len(b.items) and all(any(self.equal(x, y) for y in b.items) for x in a.items)
        if isinstance(a, Map) and isinstance(b, Map) and not ident:
            return self.decide(('==', id(a), id(b)), '%s == %s' % (short(a), short(b)))
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if sa and sb and a == b:
            return True
        if not sa and not sb:
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls.fields is not None and not ident:
                return all(self.equal(a.attrs.get(f), b.attrs.get(f)) for f, _ in a.cls.fields)
            if isinstance(a, Bound) and isinstance(b, Bound):
                return a == b
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym):
                if x.nn and y is None:
                    return False
                if x.op == 'lib' and (not isinstance(y, Sym) or y.op == 'lib'):
                    return False
                if x.ty and self.typename(y) and x.ty != self.typename(y) and not {x.ty, self.typename(y)} <= {'int', 'bool', 'float'}:
                    return False
        if self.distinct(a, b):
            return False
        for (k, r) in list(self.facts.items()):
            # A term that equals one constant is no other.
            if r and k[0] == '==' and len(k) == 3:
                for x, y in ((a, b), (b, a)):
                    for p, q in ((k[1], k[2]), (k[2], k[1])):
                        if isinstance(x, Sym) and same(p, x) and self.solid(q) and self.solid(y):
                            return same(q, y)
        key = ('==',) + tuple(sorted((a, b), key=repr))
        return self.decide(key, '%s == %s' % (short(a), short(b)))

    def solid(self, v):
        return self.const(v) or isinstance(v, (Obj, Cls))

    # Collections.

    def lookup(self, m, k):
        """The value of a key; MISSING if there is none."""
        for it in m.items:
            if self.equal(it[0], k):
                if m.shared and it[2] < self.epoch and it[1] is not MISSING or m.shared and it[2] < self.epoch:
                    it[1] = self.again(m, it[0], it[1])
                    it[2] = self.epoch
                return it[1]
        if not m.open:
            return MISSING
        v = MISSING if self.choose(2, '%s in %s' % (short(k), m.tag or short(m))) else self.entry(m, k)
        m.items.append([k, v, self.epoch])
        return v

    def again(self, m, k, v):
        """An entry of a shared table after a suspension; a hook."""
        return v

    def entry(self, m, k):
        return m.open(k) if callable(m.open) else Sym('item', (m.tag or id(m), k))

    def entries(self, m):
        """All entries; decides how many an open table has."""
        if m.open and not m.extra:
            n = self.choose(self.bound + 1, 'number of further entries of %s' % (m.tag or short(m)))
            have = [it[0] for it in m.items]
            for i in range(n):
                k = Sym('key', (m.tag or 'k%d' % id(m), i), ty='str')
                for h in have:
                    self.facts[('==',) + tuple(sorted((k, h), key=repr))] = False
                have.append(k)
                m.items.append([k, self.entry(m, k), self.epoch])
            m.extra = 1
        return [(k, v) for k, v, _ in m.items if v is not MISSING]

    def put(self, m, k, v):
        if m.frozen and not self.loading:
            raise Unsupported('a table of a module changes')
        for it in m.items:
            if self.equal(it[0], k):
                it[1], it[2] = v, self.epoch
                return
        m.items.append([k, v, self.epoch])

    def add(self, s, v):
        if s.frozen and not self.loading:
            raise Unsupported('a set of a module changes')
        if not any(self.equal(x, v) for x in s.items):
            s.items.append(v)

    def contains(self, c, v):
        if isinstance(c, Seq):
            return any(self.equal(x, v) for x in c.items)
        if isinstance(c, Map):
            return self.lookup(c, v) is not MISSING
        if self.const(c) and self.const(v):
            return v in c
        if isinstance(c, Obj):
            f = c.cls.find('__contains__')
            if isinstance(f, Func):
                return self.truth(self.call(Bound(f, c), [v], {}))
        return self.decide(('in', v, c), '%s in %s' % (short(v), short(c)))

    def iterate(self, v):
        """The elements of a value."""
        if isinstance(v, Seq):
            return list(v.items)
        if isinstance(v, Map):
            return [k for k, _ in self.entries(v)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Gen):
            out = []
            self.consume(v, out.append)
            return out
        if isinstance(v, Obj):
            f = v.cls.find('__iter__')
            if isinstance(f, Func):
                return self.iterate(self.call(Bound(f, v), [], {}))
        if isinstance(v, Cls) and v.members is not None:
            return list(v.members.values())
        if isinstance(v, Sym):
            key = ('len', v)
            if key not in self.facts:
                self.facts[key] = self.choose(self.bound + 1, 'length of %s' % short(v))
            r = [Sym('elem', (v, i), ty=self.elem_type(v)) for i in range(self.facts[key])]
            for i, a in enumerate(r):
                for b in r[:i]:
                    if self.unique(v):
                        self.facts[('==',) + tuple(sorted((a, b), key=repr))] = False
            return r
        raise Unsupported('iteration of %s' % short(v))

    def elem_type(self, v):
        return None

    def unique(self, v):
        return True

    def consume(self, g, f):
        """Runs a generator; `f` gets what it yields."""
        if g.done:
            return None
        g.done = True
        env = g.env
        left = []

        def each(x):
            try:
                return f(x)
            except (Return, Break, Continue) as r:
                # Leaves the loop over the generator.
                left.append(r)
                raise GenExit(g)
        env.on_yield = each
        env.gen = g
        try:
            r = self.body(g.f, env)
        except GenExit as x:
            if x.gen is not g:
                raise
            r = None
        if left:
            raise left[0]
        return r

    # Attributes.

    def getattr(self, v, n):
        if isinstance(v, Obj):
            if n == '__class__':
                return v.cls
            if n == '__dict__':
                f = v.cls.find('__dict__')
                if f is MISSING:
                    return Map(list(v.attrs.items()))
            f = v.cls.find(n)
            if isinstance(f, Func) and set(f.decos) & {'property', 'cached_property'}:
                return self.call(Bound(f, v), [], {})
            if n in v.attrs:
                if v.shared and n in self.pkg.mutable and v.epoch.get(n, 0) < self.epoch:
                    v.attrs[n] = self.changed(v, n, v.attrs[n])
                    v.epoch[n] = self.epoch
                return v.attrs[n]
            if f is not MISSING:
                return self.bind(f, v, v.cls)
            g = v.cls.find('__getattr__')
            if isinstance(g, Func):
                return self.call(Bound(g, v), [n], {})
            if v.partial:
                r = self.attr(v, n)
                if r is not NotImplemented:
                    v.attrs[n] = r
                    v.epoch[n] = self.epoch
                    return r
            if v.cls.members is None and any(c.name == 'BaseException' for c in v.cls.mro()):
                return Sym('attr', (v, n))
            self.throw('AttributeError', n)
        if isinstance(v, Cls):
            if n == '__name__' or n == '__qualname__':
                return v.name
            if v.members is not None and n in v.members:
                return v.members[n]
            if n == '__members__' and v.members is not None:
                return Map(list(v.members.items()))
            f = v.find(n)
            if f is not MISSING:
                if isinstance(f, Func) and 'classmethod' in f.decos:
                    return Bound(f, v)
                return f
            if n == '__init__':
                return Native('__init__', lambda I, a, k: None)
            if v.fields is not None and n == '__match_args__':
                return Seq('tuple', [f for f, _ in v.fields])
            if v.mod is None and v.name in TYPES:
                return Native('%s.%s' % (v.name, n), lambda I, a, k: I.method(a[0], n, a[1:], k))
            self.throw('AttributeError', n)
        if isinstance(v, Mod):
            if n in v.ns:
                return v.ns[n]
            full = v.name + '.' + n
            if full in self.pkg.trees:
                return self.module(full)
            self.throw('AttributeError', n)
        if isinstance(v, Sym) and v.op == 'lib':
            return self.libval(v.args[0] + '.' + n)
        if isinstance(v, (Map, Seq)) or self.const(v) and v is not None:
            if n == '__class__':
                return TYPES[self.typename(v)]
            return Native('%s.%s' % (self.typename(v), n), lambda I, a, k: I.method(v, n, a, k))
        if isinstance(v, (Func, Bound)) and n in ('__name__', '__qualname__'):
            f = v.f if isinstance(v, Bound) else v
            return f.node.name
        if v is None:
            self.throw('AttributeError', n)
        if isinstance(v, Sym):
            r = self.attr(v, n)
            if r is not NotImplemented:
                return r
            if n in self.pkg.mutable:
                return Sym('attr', (v, n, self.epoch))
            return Sym('attr', (v, n))
        raise Unsupported('attribute %s of %s' % (n, short(v)))

    def attr(self, v, n):
        return NotImplemented

    def changed(self, o, n, v):
        """An attribute of a shared object that another task may have changed; a hook."""
        if self.choose(2, '%s.%s changes' % (short(o), n)) == 0:
            return v
        return self.fresh('new', Sym('attr', (o, n)))

    def bind(self, f, v, cls):
        if isinstance(f, Func):
            if 'staticmethod' in f.decos:
                return f
            if 'classmethod' in f.decos:
                return Bound(f, cls)
            return Bound(f, v)
        if isinstance(f, Native):
            return Bound(f, v)
        return f

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            f = o.cls.find('__set_' + n)
            o.attrs[n] = v
            o.epoch[n] = self.epoch
            self.event('set', o, n, v)
            return
        if isinstance(o, Sym) or isinstance(o, (Cls, Mod)):
            self.event('set', o, n, v)
            if isinstance(o, Cls):
                o.ns[n] = v
            return
        raise Unsupported('assignment to attribute of %s' % short(o))

    def getitem(self, v, k):
        if isinstance(v, Map):
            r = self.lookup(v, k)
            if r is MISSING:
                self.throw('KeyError', k)
            return r
        if isinstance(v, Seq) or isinstance(v, (str, bytes)):
            s = v.items if isinstance(v, Seq) else v
            if isinstance(k, slice):
                if all(self.const(x) for x in (k.start, k.stop, k.step)):
                    return Seq(v.kind, s[k]) if isinstance(v, Seq) else s[k]
                return self.fresh('slice', v)
            if isinstance(k, int):
                try:
                    return s[k]
                except IndexError:
                    self.throw('IndexError', k)
            return self.fresh('item', Sym('seq'), k)
        if isinstance(v, Cls):
            if v.members is not None:
                if self.const(k):
                    if k in v.members:
                        return v.members[k]
                    self.throw('KeyError', k)
                ms = list(v.members.items())
                c = self.choose(len(ms) + 1, 'member of %s' % v.name)
                if c == len(ms):
                    self.throw('KeyError', k)
                self.facts[('==',) + tuple(sorted((k, ms[c][0]), key=repr))] = True
                return ms[c][1]
            return v
        if isinstance(v, Obj):
            f = v.cls.find('__getitem__')
            if isinstance(f, Func):
                return self.call(Bound(f, v), [k], {})
        if isinstance(v, Sym):
            if isinstance(k, slice):
                return Sym('slice', (v, k.start, k.stop), ty=v.ty)
            r = self.item(v, k)
            if r is not NotImplemented:
                return r
            return Sym('item', (v, k))
        raise Unsupported('item of %s' % short(v))

    def item(self, v, k):
        return NotImplemented

    def setitem(self, o, k, v):
        if isinstance(o, Map):
            self.put(o, k, v)
            self.event('put', o, k, v)
        elif isinstance(o, Seq) and isinstance(k, int):
            o.items[k] = v
        else:
            self.event('put', o, k, v)

    def throw(self, name, *args):
        raise Raise(self.exc(name, *args))

    def exc(self, name, *args):
        return Obj(exc_class(name), {'args': Seq('tuple', args)})

    def method(self, v, n, a, k):
        """A method of a built-in value."""
        if isinstance(v, Map):
            if n == 'get':
                r = self.lookup(v, a[0])
                return (a[1] if len(a) > 1 else k.get('default')) if r is MISSING else r
            if n == 'pop':
                r = self.lookup(v, a[0])
                if r is MISSING:
                    if len(a) > 1:
                        return a[1]
                    self.throw('KeyError', a[0])
                self.put(v, a[0], MISSING)
                self.event('del', v, a[0], r)
                return r
            if n == 'setdefault':
                r = self.lookup(v, a[0])
                if r is MISSING:
                    r = a[1] if len(a) > 1 else None
                    self.put(v, a[0], r)
                    self.event('put', v, a[0], r)
                return r
            if n in ('keys', '__iter__'):
                return Seq('list', [x for x, _ in self.entries(v)])
            if n == 'values':
                return Seq('list', [x for _, x in self.entries(v)])
            if n == 'items':
                return Seq('list', [Seq('tuple', e) for e in self.entries(v)])
            if n == '__contains__':
                return self.contains(v, a[0])
            if n == '__getitem__':
                return self.getitem(v, a[0])
            if n == '__setitem__':
                return self.setitem(v, a[0], a[1])
            if n == '__len__':
                return len(self.entries(v))
            if n == 'copy':
                m = Map([], v.open, tag=v.tag)
                m.items = [list(x) for x in v.items]
                m.extra = v.extra
                return m
            if n == 'update':
                for x in a:
                    for kk, vv in self.entries(self.to_map(x)):
                        self.put(v, kk, vv)
                for kk, vv in k.items():
                    self.put(v, kk, vv)
                return None
            if n == 'clear':
                for it in list(v.items):
                    self.event('del', v, it[0], it[1])
                v.items, v.open = [], None
                return None
        if isinstance(v, Seq):
            if n == 'append':
                v.items.append(a[0])
                return None
            if n == 'add':
                self.add(v, a[0])
                self.event('add', v, a[0])
                return None
            if n == 'extend' or n == 'update':
                for x in self.iterate(a[0]):
                    v.items.append(x) if v.kind == 'list' else self.add(v, x)
                return None
            if n in ('remove', 'discard'):
                for i, x in enumerate(v.items):
                    if self.equal(x, a[0]):
                        del v.items[i]
                        self.event('remove', v, a[0])
                        return None
                if n == 'remove':
                    self.throw('KeyError' if v.kind == 'set' else 'ValueError', a[0])
                return None
            if n in ('difference', 'intersection', 'union', 'symmetric_difference'):
                return self.binop({'difference': ast.Sub, 'intersection': ast.BitAnd, 'union': ast.BitOr}[n](), v, self.to_seq('set', a[0]))
            if n == 'copy':
                return Seq(v.kind, v.items)
            if n == '__contains__':
                return self.contains(v, a[0])
            if n == '__len__':
                return len(v.items)
            if n == 'pop' and v.items:
                return v.items.pop(a[0] if a else -1)
            if n == 'clear':
                v.items = []
                return None
            if n == 'index':
                for i, x in enumerate(v.items):
                    if self.equal(x, a[0]):
                        return i
                self.throw('ValueError')
            if n == 'sort':
                return None
        if isinstance(v, (str, bytes)):
            if n == 'join':
                xs = self.iterate(a[0])
                if all(isinstance(x, type(v)) for x in xs):
                    return v.join(xs)
                return Sym('join', (v,) + tuple(xs), ty=type(v).__name__)
            if all(self.const(x) for x in a) and not k:
                try:
                    r = getattr(v, n)(*a)
                except Exception as e:
                    self.throw(type(e).__name__)
                return Seq(type(r).__name__, r) if isinstance(r, (list, tuple)) else r
            return Sym('str.' + n, (v,) + tuple(a), ty='str' if n in ('format', 'replace', 'strip') else None)
        raise Unsupported('method %s of %s' % (n, short(v)))

    def to_map(self, v):
        if isinstance(v, Map):
            return v
        if isinstance(v, Sym):
            return Map([], lambda k: Sym('item', (v, k)), tag=v)
        m = Map()
        for x in self.iterate(v):
            self.put(m, x.items[0], x.items[1])
        return m

    def to_seq(self, kind, v):
        s = Seq(kind, [])
        for x in self.iterate(v):
            self.add(s, x) if kind == 'set' else s.items.append(x)
        return s

    # Calls.

    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps')
        if isinstance(f, Bound):
            if isinstance(f.f, Native):
                return f.f.f(self, [f.self] + args, kw)
            return self.call(f.f, [f.self] + args, kw)
        if isinstance(f, Partial):
            return self.call(f.f, f.args + args, dict(f.kw, **kw))
        if isinstance(f, Native):
            return f.f(self, args, kw)
        if isinstance(f, Func):
            r = self.enter(f, args, kw)
            if r is not NotImplemented:
                return r
            env = self.bindargs(f, args, kw)
            if f.kind != 'fn':
                return Gen(f, env)
            return self.body(f, env)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Obj):
            g = f.cls.find('__call__')
            if isinstance(g, Func):
                return self.call(Bound(g, f), args, kw)
        if isinstance(f, Sym):
            return self.libcall(f, args, kw)
        if f is None:
            self.throw('TypeError', 'call')
        raise Unsupported('call of %s' % short(f))

    def enter(self, f, args, kw):
        """A call of a function of the sources; a hook."""
        return NotImplemented

    def libcall(self, f, args, kw):
        name = f.args[0] if f.op == 'lib' else '.' + str(f.args[1]) if f.op == 'attr' else None
        if name == 'functools.partial' or name == 'partial':
            return Partial(args[0], args[1:], kw)
        if name is not None:
            r = self.lib(name, f.args[0] if f.op == 'attr' else None, args, kw)
            if r is not NotImplemented:
                return r
        if name and name.startswith('enum.') or name == 'dataclasses.field':
            if name == 'dataclasses.field':
                return Sym('field', (kw.get('default', MISSING), kw.get('default_factory', MISSING)))
        self.event('call', f, tuple(args), tuple(sorted(kw.items())))
        if f.op == 'lib' and not self.loading or f.op != 'lib':
            return self.fresh('call', f, *(tuple(args) + tuple(kw.items())))
        return Sym('call', (f,) + tuple(args))

    def lib(self, name, recv, args, kw):
        return NotImplemented

    def bindargs(self, f, args, kw):
        a = f.node.args
        env = Env({}, f.env)
        env.mod, env.cls, env.fn = f.env.mod, f.cls, f
        pos = [x.arg for x in a.posonlyargs + a.args]
        names = [mangle(x, f.cls.name) if f.cls else x for x in pos]
        args = list(args)
        kw = dict(kw)
        nd = len(f.defaults[0])
        rest = args[len(names):]
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw and i >= len(a.posonlyargs):
                    self.throw('TypeError', 'multiple values', n)
                env.vars[n] = args[i]
            elif n in kw and i >= len(a.posonlyargs):
                env.vars[n] = kw.pop(n)
            elif i >= len(names) - nd:
                env.vars[n] = f.defaults[0][i - (len(names) - nd)]
            else:
                self.throw('TypeError', 'missing argument', n)
        if a.vararg:
            env.vars[a.vararg.arg] = Seq('tuple', rest)
        elif rest:
            self.throw('TypeError', 'too many arguments')
        for x, d in zip(a.kwonlyargs, f.defaults[1]):
            n = x.arg
            if n in kw:
                env.vars[n] = kw.pop(n)
            elif d is not MISSING:
                env.vars[n] = d
            else:
                self.throw('TypeError', 'missing argument', n)
        if a.kwarg:
            env.vars[a.kwarg.arg] = Map(list(kw.items()))
        elif kw:
            self.throw('TypeError', 'unexpected argument', sorted(kw)[0])
        return env

    def body(self, f, env):
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        self.stack.append(f)
        line = self.line
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            self.block(f.node.body, env)
            return None
        except Return as r:
            return r.v
        finally:
            self.stack.pop()
            self.line = line

    def construct(self, c, args, kw):
        if c in TYPES.values():
            return self.builtin(c.name, args, kw)
        if c is ENUM:
            m = Cls(args[0], (ENUM,))
            m.members = {}
            xs = args[1]
            if isinstance(xs, str):
                xs = Seq('list', xs.replace(',', ' ').split())
            for x in self.iterate(xs):
                n = x.items[0] if isinstance(x, Seq) else x
                m.members[n] = Obj(m, {'name': n, 'value': x.items[1] if isinstance(x, Seq) else len(m.members) + 1}, tag=n)
            return m
        if c.members is not None:
            for x in c.members.values():
                if self.equal(x.attrs['value'], args[0]):
                    return x
            self.throw('ValueError')
        o = Obj(c)
        f = c.find('__init__')
        if isinstance(f, Func):
            self.call(Bound(f, o), args, kw)
            return o
        fields = self.fields(c)
        if fields is not None:
            names = [n for n, _ in fields]
            if len(args) > len(names):
                self.throw('TypeError', 'too many arguments')
            kw = dict(kw)
            for i, (n, d) in enumerate(fields):
                if i < len(args):
                    if n in kw:
                        self.throw('TypeError', 'multiple values', n)
                    v = args[i]
                elif n in kw:
                    v = kw.pop(n)
                elif isinstance(d, Sym) and d.op == 'field':
                    v = self.call(d.args[1], [], {}) if d.args[1] is not MISSING else d.args[0]
                    if v is MISSING:
                        self.throw('TypeError', 'missing argument', n)
                elif d is not MISSING:
                    v = d
                else:
                    self.throw('TypeError', 'missing argument', n)
                o.attrs[n] = v
            if kw:
                self.throw('TypeError', 'unexpected argument', sorted(map(str, kw))[0])
            f = c.find('__post_init__')
            if isinstance(f, Func):
                self.call(Bound(f, o), [], {})
            return o
        if any(x.name == 'BaseException' for x in c.mro()):
            o.attrs['args'] = Seq('tuple', args)
            return o
        if args or kw:
            if all(isinstance(b, Cls) for b in c.mro() for b in b.bases):
                self.throw('TypeError', 'constructor takes no arguments')
        return o

    def fields(self, c):
        for x in c.mro():
            if x.fields is not None:
                r = []
                for b in reversed(x.mro()):
                    for n, d in b.fields or ():
                        r = [y for y in r if y[0] != n] + [(n, d)]
                return r
        return None

    def format(self, v):
        """A value as text: a term that contains all that the text shows."""
        if self.const(v):
            return str(v)
        if isinstance(v, Obj):
            for n in ('__str__', '__repr__'):
                f = v.cls.find(n)
                if isinstance(f, Func):
                    return self.call(Bound(f, v), [], {})
            fs = self.fields(v.cls)
            if fs is not None:
                return Sym('text', (v.cls.name,) + tuple(self.format(v.attrs.get(n)) for n, _ in fs), ty='str')
            if v.cls.find('args') is MISSING and 'args' in v.attrs:
                return Sym('text', (v.cls.name,) + tuple(self.format(x) for x in v.attrs['args'].items), ty='str')
            if v.cls.members is not None:
                return '%s.%s' % (v.cls.name, v.attrs['name'])
            return Sym('text', (v.cls.name,), ty='str')
        if isinstance(v, Seq):
            return Sym('text', tuple(self.format(x) for x in v.items), ty='str')
        if isinstance(v, Map):
            return Sym('text', tuple(self.format(x) for e in v.items if e[1] is not MISSING for x in e[:2]), ty='str')
        if isinstance(v, Sym):
            return v if v.ty == 'str' else Sym('str', (v,), ty='str')
        return Sym('text', (repr(v),), ty='str')

    def builtin(self, n, a, k):
        if n in ('str', 'repr', 'ascii', 'format'):
            if not a:
                return ''
            if n == 'repr' and isinstance(a[0], (str, bytes)):
                return repr(a[0])
            return self.format(a[0])
        if n == 'int':
            if not a:
                return 0
            if isinstance(a[0], (int, float)):
                return int(a[0])
            if isinstance(a[0], str):
                try:
                    return int(a[0])
                except ValueError:
                    self.throw('ValueError')
            if isinstance(a[0], Sym):
                if a[0].ty in ('int', 'bool'):
                    return a[0]
                if not self.decide(('int', a[0]), '%s is a number' % short(a[0])):
                    self.throw('ValueError')
                return Sym('int', (a[0],), ty='int')
            self.throw('TypeError')
        if n == 'float':
            return float(a[0]) if isinstance(a[0], (int, float)) else Sym('float', a, ty='float')
        if n == 'bool':
            if not a:
                return False
            if isinstance(a[0], Sym):
                return a[0] if a[0].ty == 'bool' else Sym('bool', a, ty='bool')
            return self.truth(a[0])
        if n == 'len':
            v = a[0]
            if isinstance(v, Seq):
                return len(v.items)
            if isinstance(v, Map):
                return len(self.entries(v))
            if isinstance(v, (str, bytes)):
                return len(v)
            if isinstance(v, Obj):
                return self.call(self.getattr(v, '__len__'), [], {})
            return Sym('len', (v,), ty='int')
        if n in ('tuple', 'list', 'set', 'frozenset', 'sorted', 'reversed'):
            r = self.to_seq({'frozenset': 'set', 'sorted': 'list', 'reversed': 'list'}.get(n, n), a[0]) if a else Seq(n, [])
            if n == 'reversed':
                r.items.reverse()
            return r
        if n == 'iter':
            return Seq('list', self.iterate(a[0]))
        if n == 'dict':
            m = Map()
            for x in a:
                if isinstance(x, Map):
                    m = self.method(x, 'copy', [], {})
                elif isinstance(x, Sym):
                    m = Map([], lambda k_, x=x: Sym('item', (x, k_)), tag=x)
                else:
                    for e in self.iterate(x):
                        self.put(m, e.items[0], e.items[1])
            for x, y in k.items():
                self.put(m, x, y)
            return m
        if n == 'isinstance' or n == 'issubclass':
            cs = a[1].items if isinstance(a[1], Seq) else [a[1]]
            return any(self.isinst(a[0], c) if n == 'isinstance' else isinstance(a[0], Cls) and a[0].sub(c) for c in cs)
        if n == 'type':
            v = a[0]
            if isinstance(v, Obj):
                return v.cls
            t = self.typename(v)
            return TYPES.get(t) or Sym('type', (v,))
        if n == 'getattr':
            try:
                return self.getattr(a[0], a[1])
            except Raise as e:
                if len(a) > 2 and e.v.cls is exc_class('AttributeError'):
                    return a[2]
                raise
        if n == 'hasattr':
            try:
                self.getattr(a[0], a[1])
                return True
            except Raise as e:
                if e.v.cls is exc_class('AttributeError'):
                    return False
                raise
        if n == 'setattr':
            return self.setattr(a[0], a[1], a[2])
        if n == 'callable':
            return isinstance(a[0], (Func, Bound, Native, Cls, Partial))
        if n in ('any', 'all'):
            xs = self.iterate(a[0])
            return any(self.truth(x) for x in xs) if n == 'any' else all(self.truth(x) for x in xs)
        if n == 'map':
            return Seq('list', [self.call(a[0], list(x), {}) for x in zip(*[self.iterate(y) for y in a[1:]])])
        if n == 'filter':
            return Seq('list', [x for x in self.iterate(a[1]) if self.truth(x if a[0] is None else self.call(a[0], [x], {}))])
        if n == 'zip':
            return Seq('list', [Seq('tuple', x) for x in zip(*[self.iterate(y) for y in a])])
        if n == 'enumerate':
            return Seq('list', [Seq('tuple', (i, x)) for i, x in enumerate(self.iterate(a[0]))])
        if n == 'next':
            xs = self.iterate(a[0])
            if xs:
                return xs[0]
            if len(a) > 1:
                return a[1]
            self.throw('StopIteration')
        if n == 'anext':
            return self.call(self.getattr(a[0], '__anext__'), [], {})
        if n == 'super':
            f = self.stack[-1]
            return Sym('super', (f.cls,))
        if n in ('min', 'max', 'sum', 'abs', 'round'):
            xs = a if len(a) > 1 else None
            if xs is None and not isinstance(a[0], Sym) and not self.const(a[0]):
                xs = self.iterate(a[0])
            if xs is not None and all(isinstance(x, (int, float)) for x in xs) and xs:
                return {'min': min, 'max': max, 'sum': sum}[n](xs) if n in ('min', 'max', 'sum') else Sym(n, xs)
            return Sym(n, tuple(a), ty='int')
        if n == 'range':
            return Seq('list', list(range(*a))) if all(isinstance(x, int) for x in a) else Sym('range', tuple(a))
        if n == 'hash' or n == 'id':
            return Sym(n, tuple(a), ty='int')
        if n == 'vars':
            return self.getattr(a[0], '__dict__')
        if n == 'object':
            return Obj(TYPES['object'])
        if n == 'bytes':
            return Sym('bytes', tuple(a), ty='bytes')
        if n == 'print':
            self.event('print', *a)
            return None
        return self.fresh('call', n, *a)

    def isinst(self, v, c):
        if isinstance(c, Cls):
            if isinstance(v, Obj):
                return v.cls.sub(c)
            t = self.typename(v)
            if t is not None:
                return t in TYPES and TYPES[t].sub(c) or c is TYPES['object']
            if isinstance(v, Sym):
                return self.decide(('isinstance', v, c), 'isinstance(%s, %s)' % (short(v), c.name))
            return c is TYPES['object']
        if isinstance(c, Seq):
            return any(self.isinst(v, x) for x in c.items)
        return self.decide(('isinstance', v, c), 'isinstance(%s, %s)' % (short(v), short(c)))

    # Suspension.

    def suspend(self):
        self.epoch += 1
        self.event('suspend')

    def await_(self, v):
        if isinstance(v, Gen):
            if v.f.kind == 'co':
                if v.done:
                    self.throw('RuntimeError', 'coroutine awaited twice')
                v.done = True
                return self.body(v.f, v.env)
        self.event('await', v)
        self.suspend()
        r = self.awaits(v)
        return self.fresh('await', v) if r is NotImplemented else r

    def awaits(self, v):
        return NotImplemented

    # Statements.

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.line = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        self.eval(s.value, env)

    def s_Return(self, s, env):
        raise Return(self.eval(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise Break

    def s_Continue(self, s, env):
        raise Continue

    def s_Global(self, s, env):
        env.globals.update(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            top = a.name if a.asname else a.name.split('.')[0]
            if a.name.split('.')[0] == 'procstar':
                self.module(a.name)
                v = self.module(top)
            else:
                v = self.libval(top)
            self.store(a.asname or top, v, env)

    def s_ImportFrom(self, s, env):
        m = self.resolve(s.module or '', s.level, env.mod.name)
        for a in s.names:
            if a.name == '*':
                continue
            self.store(a.asname or a.name, self.import_from(m, a.name), env)

    def store(self, n, v, env):
        if n in env.globals:
            env.mod.ns[n] = v
            return
        if n in env.nonlocals:
            e = env.up
            while e is not None:
                if n in e.vars and getattr(e, 'fn', None) is not None:
                    e.vars[n] = v
                    return
                e = e.up
        env.vars[n] = v

    def load(self, n, env):
        e = env
        while e is not None:
            if n in e.vars and (e is env or not getattr(e, 'isclass', False)):
                return e.vars[n]
            e = e.up
        if n in env.mod.ns:
            return env.mod.ns[n]
        if n in TYPES:
            return TYPES[n]
        if n in BUILTIN_EXC:
            return exc_class(n)
        if hasattr(builtins, n) or n == 'anext':
            return Native(n, lambda I, a, k: I.builtin(n, a, k))
        self.throw('NameError', n)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(self.mang(t.id, env), v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), self.mang(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Sym) and v.op not in ('it',):
                xs = None
                n = len(t.elts)
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.fresh('rest', v), env)
                    else:
                        self.assign(x, self.getitem(v, i), env)
                return
            xs = self.iterate(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(xs) < i + after:
                    self.throw('ValueError')
                for x, y in zip(t.elts[:i], xs):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, Seq('list', xs[i:len(xs) - after]), env)
                for x, y in zip(t.elts[i + 1:], xs[len(xs) - after:]):
                    self.assign(x, y, env)
                return
            if len(xs) != len(t.elts):
                self.throw('ValueError', 'unpack')
            for x, y in zip(t.elts, xs):
                self.assign(x, y, env)
        else:
            raise Unsupported('assignment')

    def mang(self, n, env):
        c = env.cls
        return mangle(n, c.name) if c is not None else n

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)
        if getattr(env, 'isclass', False) and isinstance(s.target, ast.Name):
            env.annots.append(self.mang(s.target.id, env))
            env.clsobj.annot[self.mang(s.target.id, env)] = s.annotation

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            v = self.load(self.mang(t.id, env), env)
            v = self.augop(s.op, v, self.eval(s.value, env))
            self.store(self.mang(t.id, env), v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            n = self.mang(t.attr, env)
            v = self.getattr(o, n)
            self.setattr(o, n, self.augop(s.op, v, self.eval(s.value, env)))
        else:
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.setitem(o, k, self.augop(s.op, self.getitem(o, k), self.eval(s.value, env)))

    def augop(self, op, a, b):
        if isinstance(a, Seq) and a.kind != 'tuple' and isinstance(op, (ast.Add, ast.BitOr)):
            for x in self.iterate(b):
                a.items.append(x) if a.kind == 'list' else self.add(a, x)
            return a
        if isinstance(a, Map) and isinstance(op, ast.BitOr):
            self.method(a, 'update', [b], {})
            return a
        return self.binop(op, a, b)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, env), self.eval(t.slice, env)
                if isinstance(o, Map):
                    self.method(o, 'pop', [k], {})
                else:
                    self.event('del', o, k, None)
            else:
                o = self.eval(t.value, env)
                self.event('delattr', o, t.attr)
                if isinstance(o, Obj):
                    o.attrs.pop(self.mang(t.attr, env), None)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.event('assert fails')
            self.throw('AssertionError')

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.excs:
                self.throw('RuntimeError')
            raise Raise(self.excs[-1])
        v = self.eval(s.exc, env)
        if s.cause is not None:
            self.eval(s.cause, env)
        if isinstance(v, Cls):
            v = self.construct(v, [], {})
        raise Raise(v)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > self.loops(s):
                raise Prune
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                pass
        self.block(s.orelse, env)

    def loops(self, s):
        return 4

    def s_For(self, s, env):
        for x in self.iterate(self.eval(s.iter, env)):
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                pass
        self.block(s.orelse, env)

    def s_AsyncFor(self, s, env):
        v = self.eval(s.iter, env)
        if isinstance(v, Obj) and isinstance(v.cls.find('__aiter__'), Func):
            v = self.call(self.getattr(v, '__aiter__'), [], {})
        if isinstance(v, Gen):
            def each(x):
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Break:
                    raise GenExit(v)
                except Continue:
                    pass
            self.consume(v, each)
            return
        for x in self.aiter(v):
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                pass
        self.block(s.orelse, env)

    def aiter(self, v):
        n = 0
        while True:
            if isinstance(v, Obj):
                x = self.await_(self.call(self.getattr(v, '__anext__'), [], {}))
            else:
                self.suspend()
                x = self.fresh('next', v)
            n += 1
            if n > self.bound:
                raise Prune
            yield x

    def s_FunctionDef(self, s, env):
        self.store(self.mang(s.name, env), self.function(s, env), env)

    s_AsyncFunctionDef = s_FunctionDef

    def function(self, s, env):
        cls = getattr(env, 'isclass', None) and env.clsobj or getattr(env, 'cls', None)
        up = env
        f = Func(s, up, env.mod.name, cls)
        f.defaults = ([self.eval(d, env) for d in s.args.defaults], [MISSING if d is None else self.eval(d, env) for d in s.args.kw_defaults])
        if not isinstance(s, ast.Lambda):
            ds = []
            for d in s.decorator_list:
                n = d.func if isinstance(d, ast.Call) else d
                n = n.attr if isinstance(n, ast.Attribute) else n.id
                ds.append(n)
            f.decos = tuple(ds)
        return f

    def s_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        name = s.name
        c = Cls(name, bases, mod=env.mod.name)
        e = Env(c.ns, env)
        e.mod, e.cls, e.isclass, e.annots, e.clsobj = env.mod, c, True, [], c
        e.fn = None
        self.block(s.body, e)
        for d in s.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            n = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', None)
            if n == 'dataclass':
                c.fields = [(a, c.ns.get(a, MISSING)) for a in e.annots]
        if any(isinstance(b, Cls) and ENUM in b.mro() for b in bases):
            c.members = {}
            for n, v in list(c.ns.items()):
                if not n.startswith('_') and not isinstance(v, Func):
                    c.members[n] = Obj(c, {'name': n, 'value': v}, tag=n)
                    del c.ns[n]
        self.store(self.mang(name, env), c, env)

    def matches(self, x, c):
        if isinstance(c, Seq):
            return any(self.matches(x, y) for y in c.items)
        if isinstance(c, Cls):
            return x.cls.sub(c)
        return self.decide(('exc', x.cls.name, c), '%s is a %s' % (x.cls.name, short(c)))

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raise as r:
                for h in s.handlers:
                    if h.type is None or self.matches(r.v, self.eval(h.type, env)):
                        if h.name:
                            self.store(h.name, r.v, env)
                        self.excs.append(r.v)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.excs.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (Raise, Return, Break, Continue, GenExit):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def s_With(self, s, env):
        self.with_(s, list(s.items), env, isinstance(s, ast.AsyncWith))

    s_AsyncWith = s_With

    def with_(self, s, items, env, asyn):
        if not items:
            return self.block(s.body, env)
        it = items[0]
        v = self.eval(it.context_expr, env)
        if isinstance(v, Gen):
            ran = []

            def each(x):
                if ran:
                    raise Unsupported('context manager yields twice')
                ran.append(1)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, x, env)
                try:
                    self.with_(s, items[1:], env, asyn)
                except (Return, Break, Continue, GenExit) as r:
                    if isinstance(r, GenExit) and r.gen is v:
                        raise
                    left.append(r)
            left = []
            self.consume(v, each)
            if left:
                raise left[0]
            return
        ent, ext = ('__aenter__', '__aexit__') if asyn else ('__enter__', '__exit__')
        if isinstance(v, Obj):
            x = self.call(self.getattr(v, ent), [], {})
            x = self.await_(x) if asyn else x
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, env)
            try:
                self.with_(s, items[1:], env, asyn)
            except (Raise, Return, Break, Continue, GenExit) as r:
                y = self.call(self.getattr(v, ext), [r.v.cls if isinstance(r, Raise) else None, r.v if isinstance(r, Raise) else None, None], {})
                y = self.await_(y) if asyn else y
                if isinstance(r, Raise) and self.truth(y):
                    return
                raise
            y = self.call(self.getattr(v, ext), [None, None, None], {})
            if asyn:
                self.await_(y)
            return
        x = self.libwith(v, asyn)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, x, env)
        sup = None
        if isinstance(v, Sym) and v.op == 'call' and v.args[0] == Sym('lib', ('contextlib.suppress',)):
            sup = Seq('tuple', [a for a in v.args[1:] if isinstance(a, Cls)])
        try:
            self.with_(s, items[1:], env, asyn)
        except Raise as r:
            if sup is None or not self.matches(r.v, sup):
                raise

    def libwith(self, v, asyn):
        if asyn:
            self.suspend()
        return Sym('with', (v,))

    def s_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            b = {}
            if self.pattern(c.pattern, v, b, env):
                for k, x in b.items():
                    self.store(k, x, env)
                if c.guard is None or self.truth(self.eval(c.guard, env)):
                    self.block(c.body, env)
                    return

    def pattern(self, p, v, b, env):
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.equal(v, p.value, True)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, b, env):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(x, v, b, env) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.isinst(v, c):
                return False
            if p.patterns and c in TYPES.values():
                return self.pattern(p.patterns[0], v, b, env)
            names = [n for n, _ in (self.fields(c) or ())]
            if len(p.patterns) > len(names):
                self.throw('TypeError', 'patterns')
            for n, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                if not self.pattern(q, self.getattr(v, n), b, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Seq):
                if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                    raise Unsupported('star pattern')
                return len(v.items) == len(p.patterns) and all(self.pattern(q, x, b, env) for q, x in zip(p.patterns, v.items))
            return False
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, Map):
                return False
            for k, q in zip(p.keys, p.patterns):
                x = self.lookup(v, self.eval(k, env))
                if x is MISSING or not self.pattern(q, x, b, env):
                    return False
            return True
        raise Unsupported('pattern %s' % type(p).__name__)

    # Expressions.

    def eval(self, e, env):
        if hasattr(e, 'lineno'):
            self.line = e.lineno
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load(self.mang(e.id, env), env)

    def e_Attribute(self, e, env):
        v = self.eval(e.value, env)
        n = self.mang(e.attr, env)
        if isinstance(v, Sym) and v.op == 'super':
            return self.superattr(v, n, env)
        return self.getattr(v, n)

    def superattr(self, v, n, env):
        e = env
        while e is not None and not e.vars.get('self'):
            e = e.up
        o = e.vars['self'] if e else None
        cls = v.args[0]
        mro = o.cls.mro() if isinstance(o, Obj) else cls.mro()
        for c in mro[mro.index(cls) + 1:]:
            if n in c.ns:
                return self.bind(c.ns[n], o, c)
        if n == '__init__' and isinstance(o, Obj):
            def init(I, a, k):
                if any(x.name == 'BaseException' for x in o.cls.mro()):
                    o.attrs['args'] = Seq('tuple', a)
            return Native('__init__', init)
        return Sym('attr', (v, n))

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                for x, y in self.entries(self.to_map(v)):
                    kw[x] = y
            else:
                kw[k.arg] = v
        self.line = e.lineno
        if isinstance(f, Native) and f.name == 'super':
            return Sym('super', (env.cls,))
        return self.call(f, args, kw)

    def e_Await(self, e, env):
        v = self.eval(e.value, env)
        self.line = e.lineno
        return self.await_(v)

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value else None
        x = env
        while not hasattr(x, 'on_yield'):
            x = x.up
        x.on_yield(v)
        return None

    def e_YieldFrom(self, e, env):
        for v in self.iterate(self.eval(e.value, env)):
            env.on_yield(v)

    def e_JoinedStr(self, e, env):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            else:
                x = self.eval(v.value, env)
                ps.append(self.builtin('repr' if v.conversion == 114 else 'str', [x], {}))
        if all(isinstance(p, str) for p in ps):
            return ''.join(ps)
        return Sym('fstr', ps, ty='str')

    def e_BoolOp(self, e, env):
        for x in e.values[:-1]:
            v = self.eval(x, env)
            t = self.truth(v)
            if t == isinstance(e.op, ast.Or):
                return v
        return self.eval(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        return Sym('unary', (type(e.op).__name__, v), ty='int')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        n = type(op).__name__
        if isinstance(a, Seq) and isinstance(b, Seq):
            if n == 'Add':
                return Seq(a.kind, a.items + b.items)
            if n == 'Sub':
                return Seq('set', [x for x in a.items if not self.contains(b, x)])
            if n == 'BitAnd':
                return Seq('set', [x for x in a.items if self.contains(b, x)])
            if n == 'BitOr':
                s = Seq('set', a.items)
                for x in b.items:
                    self.add(s, x)
                return s
            if n == 'BitXor':
                return Seq('set', [x for x in a.items if not self.contains(b, x)] + [x for x in b.items if not self.contains(a, x)])
        if isinstance(a, Map) and isinstance(b, Map) and n == 'BitOr':
            m = self.method(a, 'copy', [], {})
            for k, v in self.entries(b):
                self.put(m, k, v)
            return m
        if self.const(a) and self.const(b) and a is not None and b is not None:
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
                 'Mod': operator.mod, 'BitOr': operator.or_, 'BitAnd': operator.and_, 'Pow': operator.pow, 'BitXor': operator.xor,
                 'LShift': operator.lshift, 'RShift': operator.rshift}[n]
            try:
                return f(a, b)
            except TypeError:
                self.throw('TypeError')
        t = None
        for x in (a, b):
            if self.typename(x) in ('str', 'int', 'float', 'bytes'):
                t = self.typename(x)
        return Sym('op' + n, (a, b), ty=t)

    def e_Compare(self, e, env):
        a = self.eval(e.left, env)
        for op, x in zip(e.ops, e.comparators):
            b = self.eval(x, env)
            if not self.compare(op, a, b):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == 'Is':
            return self.equal(a, b, True)
        if n == 'IsNot':
            return not self.equal(a, b, True)
        if n == 'Eq':
            return self.equal(a, b)
        if n == 'NotEq':
            return not self.equal(a, b)
        if n == 'In':
            return self.contains(b, a)
        if n == 'NotIn':
            return not self.contains(b, a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[n]
        if n in ('Gt', 'LtE'):
            # a > b  ==  b < a;  a <= b  ==  not b < a
            r = self.decide(('<', b, a), '%s < %s' % (short(b), short(a)))
            return r if n == 'Gt' else not r
        r = self.decide(('<', a, b), '%s < %s' % (short(a), short(b)))
        return r if n == 'Lt' else not r

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        x = env
        while getattr(x, 'comp', False):
            x = x.up
        self.store(e.target.id, v, x)
        return v

    def e_Lambda(self, e, env):
        return self.function(e, env)

    def elems(self, es, env):
        r = []
        for x in es:
            if isinstance(x, ast.Starred):
                r += self.iterate(self.eval(x.value, env))
            else:
                r.append(self.eval(x, env))
        return r

    def e_List(self, e, env):
        return Seq('list', self.elems(e.elts, env))

    def e_Tuple(self, e, env):
        return Seq('tuple', self.elems(e.elts, env))

    def e_Set(self, e, env):
        s = Seq('set', [])
        for x in self.elems(e.elts, env):
            self.add(s, x)
        return s

    def e_Dict(self, e, env):
        m = Map()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for x, y in self.entries(self.to_map(self.eval(v, env))):
                    self.put(m, x, y)
            else:
                k = self.eval(k, env)
                self.put(m, k, self.eval(v, env))
        return m

    def comp(self, gens, env, f):
        if not gens:
            return f(env)
        g = gens[0]
        for x in self.iterate(self.eval(g.iter, env)):
            e = Env({}, env)
            e.mod, e.cls, e.fn, e.comp = env.mod, env.cls, getattr(env, 'fn', None), True
            self.assign(g.target, x, e)
            if all(self.truth(self.eval(c, e)) for c in g.ifs):
                self.comp(gens[1:], e, f)

    def e_ListComp(self, e, env):
        s = Seq('list', [])
        self.comp(e.generators, env, lambda v: s.items.append(self.eval(e.elt, v)))
        return s

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        s = Seq('set', [])
        self.comp(e.generators, env, lambda v: self.add(s, self.eval(e.elt, v)))
        return s

    def e_DictComp(self, e, env):
        m = Map()
        self.comp(e.generators, env, lambda v: self.put(m, self.eval(e.key, v), self.eval(e.value, v)))
        return m

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        if isinstance(v, Sym) and v.op == 'lib' and not self.loading:
            r = self.item(v, self.eval(e.slice, env))
            return v if r is NotImplemented else r
        if isinstance(v, Sym) and v.op == 'lib' or isinstance(v, Cls) and v.members is None:
            return v
        return self.getitem(v, self.eval(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_FormattedValue(self, e, env):
        return self.format(self.eval(e.value, env))

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')


class Result:
    def __init__(self, I, kind, value):
        self.I, self.kind, self.value = I, kind, value

    def trace(self):
        return [dict(file=w.rsplit(':', 1)[0], line=w.rsplit(':', 1)[1], event='%s: %s' % (what, c)) for w, what, c in self.I.notes]

    def of(self, *kinds):
        return [e for e in self.I.events if e[0] in kinds]


def explore(cls, pkg, start, limit=20000, rep=None, **kw):
    """Yields the result of every path of `start(interp)`."""
    trail = []
    n = 0
    while True:
        I = cls(pkg, trail, rep)
        for k, v in kw.items():
            setattr(I, k, v)
        try:
            v = start(I)
            r = Result(I, 'return', v)
        except Raise as x:
            r = Result(I, 'raise', x.v)
        except Prune:
            r = None
        n += 1
        if n > limit:
            raise Unsupported('more than %d paths' % limit)
        if r is not None:
            yield r
        trail = trail[:I.pos]
        while trail and trail[-1][0] == trail[-1][1] - 1:
            trail.pop()
        if not trail:
            return
        trail[-1] = [trail[-1][0] + 1, trail[-1][1]]
