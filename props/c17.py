"""C17: agent and server agree on the wire format."""
import ast
import models
import paths as pathsmod
from pyserve import *
from common import Missing, Prog
from wire import *
import absint
from absint import mk, show

SPEC, HTTP = 'procstar.spec', 'procstar.http.client'
INTS = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1),
        'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1)}


class Ctx:
    """Whether a Python value is accepted as a value of a Rust type, and as which."""

    def __init__(self, I):
        self.I = I
        self.w = Wire.get()
        self.bad = []

    def fail(self, path, what):
        self.bad.append(('.'.join(path), what))
        return None

    def const(self, v):
        """The constant that a term was found to equal."""
        if isinstance(v, Sym):
            for k, r in self.I.facts.items():
                if r and k[0] == '==' and len(k) == 3:
                    for a, b in ((k[1], k[2]), (k[2], k[1])):
                        if a == v and self.I.const(b):
                            return b
            if v.op in ('str', 'text') and len(v.args) == 1:
                b = self.const(v.args[0])
                if isinstance(b, str):
                    return b
        return v

    def accept(self, ty, v, path=()):
        """The value as the agent has it, or None after a failure."""
        v = self.const(v)
        I = self.I
        n, args = generic(ty)
        last = n.rsplit('::', 1)[-1]
        t = I.typename(v)
        if last in ('Option',):
            if v is None:
                return ('none',)
            return self.accept(args[0], v, path)
        if v is None:
            return self.fail(path, 'null where a value is required')
        if isinstance(v, Sym) and v.ty is None:
            return self.fail(path, 'a value of any type (%s), not surely a %s' % (short(v), last))
        if last in ('String', 'str', 'PathBuf'):
            return v if t == 'str' else self.fail(path, 'a %s where a string is required' % t)
        if last == 'bool':
            return v if t == 'bool' else self.fail(path, 'a %s where a Boolean is required' % t)
        if last in INTS:
            if t != 'int':
                return self.fail(path, 'a %s where an integer is required' % t)
            if isinstance(v, int) and not INTS[last][0] <= v <= INTS[last][1]:
                return self.fail(path, '%d is out of range' % v)
            return v
        if last in ('f32', 'f64'):
            return v if t in ('int', 'float') else self.fail(path, 'a %s where a number is required' % t)
        if last in ('Vec', 'VecDeque', 'BTreeSet', 'HashSet'):
            if isinstance(v, Seq) and v.kind in ('list', 'tuple'):
                return ['list'] + [self.accept(args[0], x, path + ('*',)) for x in v.items]
            return self.fail(path, 'a %s where a sequence is required' % t)
        if last in ('BTreeMap', 'HashMap'):
            if isinstance(v, Map):
                return ['map'] + [(self.accept(args[0], k, path + ('key',)), self.accept(args[1], x, path + ('*',))) for k, x, _ in v.items if x is not MISSING]
            return self.fail(path, 'a %s where a mapping is required' % t)
        if ty.startswith('('):
            ts = split(ty[1:-1])
            if isinstance(v, Seq) and v.kind in ('list', 'tuple') and len(v.items) == len(ts):
                return ['tuple'] + [self.accept(a, x, path + (str(i),)) for i, (a, x) in enumerate(zip(ts, v.items))]
            return self.fail(path, 'a %s where %d values are required' % (t, len(ts)))
        if last == 'Box':
            return self.accept(args[0], v, path)
        a = self.w.adts.get(n)
        if a is None:
            raise Unknown('type %s' % ty)
        return self.adt(a, v, path)

    def adt(self, a, v, path):
        de = [i for i in self.w.impls if i['trait'] == 'serde::de::Deserialize' and i['self'].split('<')[0] == a['path']]
        if not de:
            raise Unknown('%s is not deserialized' % a['path'])
        if not any(i['derived'] for i in de):
            return self.custom(a, v, path)
        at = known(a)
        t = self.I.typename(v)
        if not a['enum']:
            if not isinstance(v, Map):
                return self.fail(path, 'a %s where a mapping is required' % t)
            return self.struct(a, a['variants'][0], {'': 1}, v, path, 'deny_unknown_fields' in at, 'default' in at)
        names = {}
        for x in a['variants']:
            if 'skip' in known(x) or 'skip_deserializing' in known(x):
                continue
            for n in [variant_name(a, x)] + aliases(x):
                names[n] = x
        tag = at.get('tag')
        if 'untagged' in at:
            raise Unknown('untagged enumeration %s' % a['path'])
        if tag:
            if not isinstance(v, Map):
                return self.fail(path, 'a %s where a mapping is required' % t)
            tv = [x for k, x, _ in v.items if k == tag and x is not MISSING]
            if not tv:
                return self.fail(path, 'no %s' % tag)
            x = names.get(self.const(tv[0])) if self.I.const(self.const(tv[0])) else None
            if x is None:
                return self.fail(path, 'unknown %s %s' % (tag, short(tv[0])))
            rest = Map([(k, y) for k, y, _ in v.items if k != tag])
            return self.struct(a, x, {}, rest, path + (x['name'],), 'deny_unknown_fields' in at, False)
        if isinstance(v, Map):
            it = [(k, x) for k, x, _ in v.items if x is not MISSING]
            if len(it) != 1 or not self.I.const(self.const(it[0][0])) or self.const(it[0][0]) not in names:
                return self.fail(path, 'unknown variant %s' % ', '.join(short(k) for k, _ in it))
            x = names[self.const(it[0][0])]
            c = it[0][1]
            if x['ctor'] == 'None':
                if not isinstance(c, Map):
                    return self.fail(path, 'a %s for the fields of %s' % (self.I.typename(c), x['name']))
                return self.struct(a, x, {}, c, path + (x['name'],), 'deny_unknown_fields' in at, False)
            if not x['fields']:
                return ['adt', x['name'], {}] if c is None else self.fail(path, 'a value for %s' % x['name'])
            if len(x['fields']) == 1:
                return ['adt', x['name'], {'0': self.accept(x['fields'][0]['ty'], c, path + (x['name'],))}]
            raise Unknown('tuple variant %s' % x['name'])
        if self.I.const(v):
            x = names.get(v)
            if x is None:
                return self.fail(path, '%r is no %s' % (v, a['path'].rsplit('::', 1)[-1]))
            if x['ctor'] == 'None' and x['fields'] or x['fields']:
                return self.fail(path, '%r without its fields' % v)
            return ['adt', x['name'], {}]
        return self.fail(path, 'any %s where a %s is required' % (t, a['path'].rsplit('::', 1)[-1]))

    def struct(self, a, x, _, v, path, deny, dflt):
        fs = {}
        for f in x['fields']:
            if 'skip' in known(f) or 'skip_deserializing' in known(f):
                continue
            for n in [field_name(a, x, f)] + aliases(f):
                fs[n] = f
        r, seen = {}, set()
        for k, val, _ in v.items:
            if val is MISSING:
                continue
            if not isinstance(k, str):
                self.fail(path, 'a key %s' % short(k))
                continue
            f = fs.get(k)
            if f is None:
                self.fail(path, 'field %s, which the agent does not know' % k)
                continue
            if f['name'] in seen:
                self.fail(path, 'field %s twice' % k)
            seen.add(f['name'])
            w = known(f).get('with')
            if w == 'serde_bytes':
                r[f['name']] = val if self.I.typename(val) == 'bytes' else self.fail(path + (k,), 'not bytes')
            elif w:
                raise Unknown('with = %s' % w)
            else:
                r[f['name']] = self.accept(f['ty'], val, path + (k,))
        for f in x['fields']:
            if f['name'] not in seen and not dflt and 'default' not in known(f) and 'skip' not in known(f) and not f['ty'].startswith('core::option::Option<'):
                self.fail(path, 'no field %s' % field_name(a, x, f))
            elif f['name'] not in seen and f['ty'].startswith('core::option::Option<') and 'default' not in known(f) and not dflt:
                r[f['name']] = ('none',)
        return ['adt', x['name'], r]

    def custom(self, a, v, path):
        """A hand-written deserializer: by the methods of its visitor."""
        w = self.w
        vis = {i['path'].rsplit('::', 1)[-1]: i['path'] for i in w.items if '<%s as serde::de::Deserialize' % a['path'] in i['path'] and '::visit_' in i['path']}
        if not vis:
            raise Unknown('deserializer of %s' % a['path'])
        t = self.I.typename(v)
        need = {'bool': ['visit_bool'], 'str': ['visit_str', 'visit_string', 'visit_borrowed_str'], 'int': ['visit_i64', 'visit_u64'], 'list': ['visit_seq'], 'tuple': ['visit_seq'],
                'dict': ['visit_map']}.get(t, [])
        if not any(n in vis for n in need):
            return self.fail(path, 'a %s, which is no %s' % (t, a['path'].rsplit('::', 1)[-1]))
        if isinstance(v, bool) or t == 'bool':
            m = visitor_bool(a['path'])
            return ['custom', {b: r for b, r in m.items() if not isinstance(v, bool) or b == v}]
        if isinstance(v, Seq):
            vs = [x for x in a['variants'] if x['fields']]
            if len(vs) == 1 and len(vs[0]['fields']) == 1:
                return ['adt', vs[0]['name'], {'0': self.accept(vs[0]['fields'][0]['ty'], v, path)}]
        raise Unknown('a %s for %s' % (t, a['path']))


_lib = []


def visitor_bool(adt):
    """What a visitor makes of true and of false: by its paths."""
    if not _lib:
        _lib.append(Prog('lib'))
    p = _lib[0]
    ks = [k for k in p.fns if '<%s as serde::de::Deserialize' % adt in k and '::visit_bool' in k]
    if not ks:
        raise Unknown('visit_bool of %s' % adt)
    r = {}
    names = [v['name'] for v in Wire.get().adts[adt]['variants']]
    for b in (False, True):
        f = p.fns[ks[0]]
        args = [absint.sym('visitor')] * (f['argc'] - 1) + [mk('int', int(b))]
        m = pathsmod.paths(p, ks[0], lambda path, c: None, args=args)
        rs = set()
        for x in m.paths:
            v = x.result
            if x.kind == 'return' and v is not None and v.k == 'agg' and v.a[1] == 0 and v.a[2] and v.a[2][0].k == 'agg':
                rs.add(names[v.a[2][0].a[1] or 0])
            else:
                rs.add(None)
        r[b] = rs
    return r


# What the agent sends, as Python has it.

class Emit:
    """Values of Rust types as they arrive."""

    def __init__(self, I, full):
        self.I, self.full = I, full
        self.w = Wire.get()

    def emit(self, ty, path, depth=0):
        I = self.I
        n, args = generic(ty)
        last = n.rsplit('::', 1)[-1]
        nm = '.'.join(path)
        if last == 'Option':
            return self.emit(args[0], path, depth) if self.full else None
        if last in ('String', 'str'):
            return Sym(nm, ty='str')
        if last == 'bool':
            return Sym(nm, ty='bool')
        if last in INTS:
            return Sym(nm, ty='int')
        if last in ('f64', 'f32'):
            return Sym(nm, ty='float')
        if last in ('Vec',):
            return Seq('list', [self.emit(args[0], path + ('0',), depth + 1)] if self.full else [])
        if last in ('BTreeMap', 'HashMap'):
            m = Map()
            if self.full:
                m.items.append([Sym(nm + ' key', ty='str'), self.emit(args[1], path + ('*',), depth + 1), 0])
            return m
        if ty.startswith('('):
            return Seq('list', [self.emit(a, path + (str(i),), depth + 1) for i, a in enumerate(split(ty[1:-1]))])
        a = self.w.adts.get(n)
        if a is None:
            raise Unknown('type %s' % ty)
        if not any(i['derived'] for i in self.w.impls if i['trait'] == 'serde::ser::Serialize' and i['self'].split('<')[0] == a['path']):
            return Sym(nm, ty='custom')
        if not a['enum']:
            return self.struct(a, a['variants'][0], path, depth)
        x = a['variants'][I.choose(len(a['variants']), '%s is' % nm) if depth < 3 else 0]
        return self.variant(a, x, path, depth)

    def variant(self, a, x, path, depth):
        wn = variant_name(a, x)
        tag = known(a).get('tag')
        if tag:
            m = self.struct(a, x, path, depth)
            m.items.insert(0, [tag, wn, 0])
            return m
        if x['ctor'] == 'None':
            return Map([(wn, self.struct(a, x, path, depth))])
        if not x['fields']:
            return wn
        if len(x['fields']) == 1:
            return Map([(wn, self.emit(x['fields'][0]['ty'], path + (wn,), depth + 1))])
        raise Unknown('tuple variant %s' % x['name'])

    def struct(self, a, x, path, depth):
        m = Map()
        for f in x['fields']:
            at = known(f)
            if 'skip' in at or 'skip_serializing' in at:
                continue
            if 'skip_serializing_if' in at and not self.full:
                continue
            n = field_name(a, x, f)
            if at.get('with') == 'serde_bytes':
                v = Sym('.'.join(path + (n,)), ty='bytes')
            elif at.get('with'):
                raise Unknown('with = %s' % at['with'])
            else:
                v = self.emit(f['ty'], path + (n,), depth + 1)
            m.items.append([n, v, 0])
        return m


class W(Py):
    """Packing and unpacking."""

    def lib(self, name, recv, args, kw):
        if name in ('msgpack.dumps', 'msgpack.packb'):
            self.event('packed', args[0], dict(kw))
            return Sym('packed', (len(self.events),), ty='bytes', nn=True)
        if name in ('msgpack.loads', 'msgpack.unpackb') and isinstance(args[0], Sym) and args[0].op == 'from the agent':
            self.event('unpacked', args[0], dict(kw))
            return self.wire
        if name == 'uuid.uuid4':
            return Sym('uuid', (self.tick(),))
        if name in ('shutil.which',):
            return Sym('bash', ty='str')
        if name in ('.strip',) and isinstance(recv, Sym) and recv.ty == 'str':
            return recv
        if name == 'pathlib.Path':
            return Sym('path', tuple(args), nn=True)
        if name == 'os.access':
            return True
        return Py.lib(self, name, recv, args, kw)

    def attr(self, v, n):
        if isinstance(v, Sym) and v.op == 'path' and n == 'name':
            return 'bash'
        return NotImplemented


def annotated(I, node, name, mod, spec=None):
    """A value of an annotated type."""
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        node = ast.parse(node.value, mode='eval').body
    if isinstance(node, ast.Constant) and node.value is None:
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return annotated(I, (node.left, node.right)[I.choose(2, 'type of %s' % name)], name, mod, spec)
    if isinstance(node, ast.Name):
        if node.id in ('str', 'int', 'bool', 'float', 'bytes'):
            return Sym(name, ty=node.id)
        if node.id == 'dict':
            return spec if spec is not None else Sym(name, ty='dict')
        c = mod.ns.get(node.id)
        if isinstance(c, Cls) and c.members is not None:
            ms = list(c.members.values())
            return ms[I.choose(len(ms), name)]
    if isinstance(node, ast.Subscript):
        b = ast.unparse(node.value).rsplit('.', 1)[-1].lower()
        a = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        if b == 'optional':
            return annotated(I, a[0], name, mod, spec) if I.choose(2, name + ' is given') == 0 else None
        if b in ('list', 'sequence'):
            return Seq('list', [annotated(I, a[0], name + '.0', mod, spec)])
        if b in ('dict', 'mapping'):
            return Map([(annotated(I, a[0], name + ' key', mod), annotated(I, a[1], name + ' value', mod, spec))])
    raise Unsupported('annotation of %s' % name)


def table_of(m, name):
    t = m.ns.get(name)
    if not isinstance(t, Map):
        raise Missing('table ' + name)
    return {k: v for k, v, _ in t.items if v is not MISSING}


def ev(I, kind):
    return [e for e in I.events if e[0] == kind]


def outgoing(rep, pkg):
    """What the server sends is what the agent accepts."""
    w = Wire.get()
    I0 = W(pkg, [])
    m0 = I0.module(PROTO)
    names = sorted(table_of(m0, 'OUTGOING_MESSAGE_TYPES'))
    adt = w.adt('proto::IncomingMessage')
    rust = {variant_name(adt, x) for x in adt['variants']}
    rep.require(set(names) == rust, 'request types', 'the server has requests %s, the agent %s' % (sorted(set(names) - rust), sorted(rust - set(names))))
    n = [0]
    for name in names:
        def start(I):
            m = I.module(PROTO)
            sp = I.module(SPEC)
            I.loading = False
            c = table_of(m, 'OUTGOING_MESSAGE_TYPES')[name]
            spec = I.call(I.getattr(I.construct(sp.ns['Proc'], [Seq('list', [Sym('argument', ty='str')])], {}), 'to_jso'), [], {})
            kw = {f: annotated(I, c.annot[f], f, m, spec) for f, _ in I.fields(c)}
            o = I.construct(c, [], kw)
            r = I.call(m.ns['serialize_message'], [o], {})
            return kw, r
        for r in explore(W, pkg, start, limit=2000):
            rep.obligation('requests')
            if r.kind == 'raise':
                rep.violation('cannot send: ' + name, 'the server cannot encode a %s: %s' % (name, r.value.cls.name), r.trace())
                continue
            kw, _ = r.value
            p = ev(r.I, 'packed')
            if not rep.require(len(p) == 1, 'encoding: ' + name, 'a %s is encoded %d times' % (name, len(p)), r.trace()):
                continue
            options(rep, p[0][1][1], 'packing', r)
            x = Ctx(r.I)
            v = x.accept('procstar::proto::IncomingMessage', p[0][1][0])
            for at, what in x.bad:
                rep.violation('request: %s %s' % (name, at), 'the agent does not accept a %s: %s: %s' % (name, at, what), r.trace())
            if v and not x.bad:
                n[0] += 1
                rep.require(v[1].lower() == name.lower(), 'meaning: ' + name, 'the agent takes a %s for %s' % (name, v[1]), r.trace())
                for f, val in kw.items():
                    if f in v[2] and isinstance(val, Sym):
                        rep.require(v[2][f] == val, 'meaning: %s.%s' % (name, f), "the agent's %s of a %s is another value" % (f, name), r.trace())
                    if f not in v[2]:
                        rep.violation('meaning: %s.%s' % (name, f), '%s of a %s is not sent' % (f, name), r.trace())
    rep.require(n[0], 'no requests', 'the analysis found no request that the agent accepts')
    rep.note(requests=n[0])


def options(rep, kw, what, r):
    bad = {k: v for k, v in kw.items() if (k, v) in (('use_bin_type', False), ('raw', True), ('use_list', None), ('strict_types', True)) or k in ('default', 'object_hook', 'encoding', 'ext_hook')}
    rep.require(not bad, 'codec: ' + what, 'messages are encoded with %s' % bad, r.trace())


def incoming(rep, pkg):
    """What the agent sends is what the server accepts."""
    w = Wire.get()
    adt = w.adt('proto::OutgoingMessage')
    n = 0
    for x in adt['variants']:
        name = variant_name(adt, x)

        def start(I):
            m = I.module(PROTO)
            I.loading = False
            e = Emit(I, I.choose(2, 'optional parts are present') == 0)
            I.wire = e.variant(adt, x, (), 0)
            I.sent = {k: v for k, v, _ in I.wire.items}
            return I.call(m.ns['deserialize_message'], [Sym('from the agent', ty='bytes')], {})
        for r in explore(W, pkg, start, limit=3000):
            rep.obligation('messages')
            if r.kind == 'raise':
                rep.violation('message: ' + name, 'the server does not accept a %s of the agent: %s' % (name, say(r.value)), r.trace())
                continue
            for e in ev(r.I, 'unpacked'):
                options(rep, e[1][1], 'unpacking', r)
            v = r.value
            if not rep.require(isinstance(v, Seq) and len(v.items) == 2 and isinstance(v.items[1], Obj), 'message: ' + name, 'a %s becomes %s' % (name, short(v)), r.trace()):
                continue
            t, o = v.items
            rep.require(t == name and o.cls.name == name, 'meaning: ' + name, 'the server takes a %s for a %s' % (name, o.cls.name), r.trace())
            n += 1
            for f, s in r.I.sent.items():
                if f == known(adt).get('tag'):
                    continue
                g = o.attrs.get(f, MISSING)
                rep.require(g is not MISSING, 'dropped: %s.%s' % (name, f), '%s of a %s is dropped' % (f, name), r.trace())
                if g is not MISSING:
                    rep.require(sameas(r.I, g, s), 'meaning: %s.%s' % (name, f), "the server's %s of a %s is %s, not %s" % (f, name, short(g), short(s)), r.trace())
                if isinstance(s, Sym) and 'data' == f:
                    rep.require(s.ty == 'bytes', 'data: ' + name, 'captured output does not arrive as bytes', r.trace())
                if f == 'data' and isinstance(s, Seq):
                    rep.violation('data: ' + name, 'captured output arrives as a list of numbers', r.trace())
    rep.require(n, 'no messages', 'the analysis found no message that the server accepts')
    rep.note(messages=n)


def say(e):
    a = e.attrs.get('args')
    return '%s %s' % (e.cls.name, ' '.join(short(x) for x in a.items) if isinstance(a, Seq) else '')


def sameas(I, g, s):
    """Whether a value of the server's is the one that was sent."""
    if g is s or not isinstance(s, (Map, Seq)) and not isinstance(g, Obj) and I.const(g) == I.const(s) and g == s:
        return True
    if isinstance(g, Obj) and g.cls.members is not None:
        return g.attrs.get('name') == s
    if isinstance(g, Obj) and isinstance(s, Map):
        d = {k: v for k, v, _ in s.items}
        return all(f in d and sameas(I, g.attrs.get(f), d[f]) for f, _ in I.fields(g.cls) or ()) and len(d) == len(I.fields(g.cls) or ())
    if isinstance(g, Map) and isinstance(s, Map):
        a = {k: v for k, v, _ in g.items if v is not MISSING}
        b = {k: v for k, v, _ in s.items if v is not MISSING}
        return set(a) == set(b) and all(sameas(I, a[k], b[k]) for k in a)
    if isinstance(g, Seq) and isinstance(s, Seq):
        return len(g.items) == len(s.items) and all(sameas(I, x, y) for x, y in zip(g.items, s.items))
    return g == s


# Process specs.

def any_arg(I, name):
    if name == 'proc_id':
        return Sym(name, ty='str')
    if name == 'fd':
        return Sym(name, ty=('int', 'str')[I.choose(2, 'type of %s: a number, a name' % name)])
    return Sym(name)


def fd_classes(I, sp):
    c = sp.ns['Proc'].ns['Fd']
    return {n: v for n, v in c.ns.items() if isinstance(v, Cls)}


def params(c):
    f = c.find('__init__')
    if not isinstance(f, Func):
        return []
    a = f.node.args
    return [x.arg for x in a.args[1:] + a.kwonlyargs]


def base(v, I):
    """A term without conversions."""
    while isinstance(v, Sym) and v.op in ('str', 'int', 'bool', 'text', 'float') and len(v.args) == 1:
        v = v.args[0]
    return v


def fdspecs(rep, pkg):
    w = Wire.get()
    adt = w.adt('spec::Fd')
    I0 = W(pkg, [])
    sp0 = I0.module(SPEC)
    names = sorted(fd_classes(I0, sp0))
    rust = {x['name'].lower(): x for x in adt['variants']}
    rep.require({n.lower() for n in names} == set(rust), 'fd kinds', 'fd specs of the Python API: %s; of the agent: %s' % (names, sorted(x['name'] for x in adt['variants'])))
    values = {}
    n = 0
    for name in names:
        ps = params(fd_classes(I0, sp0)[name])

        def start(I):
            sp = I.module(SPEC)
            I.loading = False
            c = fd_classes(I, sp)[name]
            d = I.choose(2, 'all arguments, only the required ones') if ps else 0
            kw = {p: any_arg(I, p) for p in ps}
            if d:
                f = c.find('__init__')
                k = len(f.node.args.args) - 1 - len(f.node.args.defaults)
                kw = {p: kw[p] for p in ps[:k]}
            o = I.construct(c, [], kw)
            return kw, I.call(I.getattr(o, 'to_jso'), [], {})
        for r in explore(W, pkg, start, limit=3000):
            rep.obligation('fd specs')
            if r.kind == 'raise':
                if r.value.cls.name not in ('ValueError', 'TypeError'):
                    rep.violation('fd spec: ' + name, 'making a %s fails with %s' % (name, r.value.cls.name), r.trace())
                continue
            kw, jso = r.value
            x = Ctx(r.I)
            v = x.accept('procstar::spec::Fd', jso)
            for at, what in x.bad:
                rep.violation('fd spec: %s %s' % (name, at), 'the agent does not accept a %s made by the Python API: %s: %s' % (name, at, what), r.trace())
            if not v or x.bad:
                continue
            n += 1
            rep.require(v[1].lower() == name.lower(), 'fd meaning: ' + name, 'the agent takes %s for %s' % (name, v[1]), r.trace())
            for p, val in kw.items():
                got = v[2].get(p, MISSING)
                if not rep.require(got is not MISSING, 'fd meaning: %s.%s' % (name, p), '%s of %s is not sent' % (p, name), r.trace()):
                    continue
                c = x.const(val)
                if isinstance(got, list) and got[0] == 'adt':
                    vs = {variant_name(w.adts[k], y): y['name'] for k in w.adts if k.startswith('procstar::spec::') for y in w.adts[k]['variants'] if w.adts[k]['enum']}
                    rep.require(isinstance(c, str) and vs.get(c) == got[1], 'fd meaning: %s.%s' % (name, p), 'the %s %s of %s becomes %s' % (p, short(c), name, got[1]), r.trace())
                    values.setdefault((name, p), set()).add(got[1])
                elif got == ('none',):
                    rep.require(c is None, 'fd meaning: %s.%s' % (name, p), '%s of %s is dropped' % (p, name), r.trace())
                else:
                    rep.require(base(got, r.I) == base(val, r.I) or got == c, 'fd meaning: %s.%s' % (name, p), '%s of %s is %s, not %s' % (p, name, short(got), short(val)), r.trace())
    # Everything that the agent offers can be said.
    for name in names:
        x = rust.get(name.lower())
        for f in x['fields'] if x else ():
            t = f['ty'].replace('core::option::Option<', '').rstrip('>')
            a = w.adts.get(t)
            if a and a['enum']:
                want = {y['name'] for y in a['variants']}
                have = values.get((name, f['name']), set())
                rep.require(have == want, 'fd values: %s.%s' % (name, f['name']), 'the Python API can express %s of the %s of the agent for %s' % (sorted(have), sorted(want), name))
    rep.require(n, 'no fd specs', 'the analysis found no fd spec that the agent accepts')
    rep.note(fd_specs=n)


def procspecs(rep, pkg):
    n = 0

    def start(I):
        sp = I.module(SPEC)
        I.loading = False
        P = sp.ns['Proc']
        I.A = [Sym('arg0'), Sym('arg1', ty='str')]
        I.N, I.V = Sym('name'), Sym('value')
        how = I.choose(6, 'environment: default, all, nothing, named, named and set, unset')
        E = P.ns['Env']
        var = Map([(I.N, I.V if how < 5 else None)]) if how >= 4 else Map()
        I.inh = [True, True, False, None, None, True][how]
        inh = I.inh if I.inh is not None else Seq('list', [Sym('inherited')])
        I.how = how
        kw = {}
        if how:
            kw['env'] = I.construct(E, [], dict(inherit=inh, vars=var))
        F = I.choose(3, 'fds: default, a number, a name')
        I.fdk = None
        if F:
            I.fdk = Sym('fd', ty=('int', 'str')[F - 1])
            kw['fds'] = Map([(I.fdk, I.construct(fd_classes(I, sp)['Null'], [], {}))])
        o = I.construct(P, [Seq('list', list(I.A))], kw)
        return I.call(I.getattr(o, 'to_jso'), [], {})
    for r in explore(W, pkg, start, limit=3000):
        rep.obligation('process specs')
        if r.kind == 'raise':
            rep.violation('process spec', 'making a process spec fails with %s' % r.value.cls.name, r.trace())
            continue
        I = r.I
        x = Ctx(I)
        v = x.accept('procstar::spec::Proc', r.value)
        for at, what in x.bad:
            rep.violation('process spec: ' + at, 'the agent does not accept a process spec made by the Python API: %s: %s' % (at, what), r.trace())
        if not v or x.bad:
            continue
        n += 1
        f = v[2]
        rep.require([base(a, I) for a in f.get('argv', ['list'])[1:]] == I.A, 'spec meaning: argv', 'argv of a process spec becomes %s' % (f.get('argv'),), r.trace())
        e = f.get('env')
        if rep.require(e is not None, 'spec meaning: env', 'the environment of a process spec is not sent', r.trace()):
            inh = e[2].get('inherit')
            if I.inh is None:
                rep.require(inh and inh[0] == 'adt' and inh[1] == 'Vars' and [base(a, I) for a in inh[2]['0'][1:]] == [Sym('inherited')], 'spec meaning: inherit',
                            'inheriting named variables becomes %s' % (inh,), r.trace())
            else:
                rep.require(inh and inh[0] == 'custom' and inh[1] == {I.inh: {'All' if I.inh else 'None'}}, 'spec meaning: inherit', 'inherit=%s becomes %s' % (I.inh, inh), r.trace())
            vs = e[2].get('vars', ['map'])[1:]
            want = [(I.N, I.V)] if I.how == 4 else [(I.N, ('none',))] if I.how == 5 else []
            got = [(base(k, I), base(y, I)) for k, y in vs]
            if I.how == 4 and got == [(I.N, ('none',))] and x.const(I.V) is None:
                continue    # the value None
            rep.require(got == want, 'spec meaning: vars', 'variables %s become %s' % (want, got), r.trace())
        fd = f.get('fds', ['list'])[1:]
        rep.require([base(t[1], I) for t in fd] == ([I.fdk] if I.fdk is not None else []), 'spec meaning: fds', 'the fds of a process spec become %s' % (fd,), r.trace())
    rep.require(n, 'no process specs', 'the analysis found no process spec that the agent accepts')
    rep.note(process_specs=n)


def made(rep, pkg):
    """Specs made by the convenience functions, as documents."""
    n = 0

    def start(I):
        sp = I.module(SPEC)
        I.loading = False
        c = I.choose(2, 'a command, an argument vector')
        what = Sym('command', ty='str') if c == 0 else Seq('list', [Sym('arg0')])
        I.fdk = None
        kw = {}
        f = I.choose(3, 'fds: default, a number, a name')
        if f:
            kw['fds'] = Map([(Sym('fd', ty=('int', 'str')[f - 1]), I.construct(fd_classes(I, sp)['Inherit'], [], {}))])
        I.f = f
        s = I.call(sp.ns['make_proc'], [what], kw)
        return I.call(sp.ns['to_jso'], [s], {'named': s})
    for r in explore(W, pkg, start, limit=6000):
        rep.obligation('made specs')
        if r.kind == 'raise':
            if r.value.cls.name not in ('ValueError', 'RuntimeError', 'AssertionError'):
                rep.violation('made spec', 'making a process spec fails with %s' % r.value.cls.name, r.trace())
            continue
        x = Ctx(r.I)
        v = x.accept('procstar::spec::Input', r.value)
        for at, what in x.bad:
            rep.violation('document: ' + at, 'the agent does not accept a document made by the Python API: %s: %s' % (at, what), r.trace())
        if not v or x.bad:
            continue
        n += 1
        for _, p in v[2]['specs'][1:]:
            fds = {(t[1] if isinstance(t[1], str) else 'other'): t[2] for t in p[2]['fds'][1:]}
            given = [t for t in p[2]['fds'][1:] if t[2][1] == 'Inherit']
            rep.require(len(given) == (1 if r.I.f else 0), 'made: given fd', 'make_proc() passes on %d of the given fds' % len(given), r.trace())
            d = {'stdin': 'Null', 'stdout': 'Capture', 'stderr': 'Capture'}
            rep.require(all(k in fds and fds[k][1] in (d[k], 'Inherit') for k in d), 'made: standard fds', 'make_proc() gives %s' % sorted((k, y[1]) for k, y in fds.items()), r.trace())
    rep.require(n, 'no made specs', 'the analysis found no document that the agent accepts')
    rep.note(documents=n)


def enums(rep, pkg):
    """Enumerated values are the same on both sides."""
    I = W(pkg, [])
    m = I.module(PROTO)
    w = Wire.get()
    c = m.ns.get('ShutdownState')
    if not isinstance(c, Cls) or c.members is None:
        raise Missing('enumeration ShutdownState')
    a = w.adt('shutdown::State')
    rust = [variant_name(a, x) for x in a['variants']]
    rep.require(sorted(c.members) == sorted(rust), 'shutdown states', 'shutdown states: %s and %s' % (sorted(c.members), sorted(rust)))
    # What the sources compare a process's state to.
    a = w.adt('state::State')
    states = {variant_name(a, x) for x in a['variants']}
    n = 0
    for mod, (tree, _, path) in pkg.trees.items():
        for x in ast.walk(tree):
            if isinstance(x, ast.Compare):
                side = [x.left] + x.comparators
                if any(isinstance(y, ast.Attribute) and y.attr == 'state' or isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Constant) and y.slice.value == 'state' for y in side):
                    for y in side:
                        for z in ast.walk(y):
                            if isinstance(z, ast.Constant) and isinstance(z.value, str) and z.value != 'state':
                                n += 1
                                rep.require(z.value in states, 'process state: %s' % z.value, '%s compares the state of a process to %r; the agent has %s' % (path, z.value, sorted(states)))
    rep.note(state_comparisons=n)


def codec(rep, prog):
    """The agent encodes maps with names, and bytes as bytes."""
    enc, dec = [], []
    for k in prog.fns:
        if prog.local(k):
            for x in prog.G.ext.get(k, ()):
                if 'rmp_serde' in x and '{' not in x:
                    if 'encode::' in x or 'Serializer' in x:
                        enc.append((k, x))
                    elif 'decode::' in x or 'from_' in x:
                        dec.append((k, x))
    enc = [(k, x) for k, x in enc if 'Error' not in x]
    dec = [(k, x) for k, x in dec if 'Error' not in x]
    rep.require(enc, 'no encoding', 'the agent encodes no message')
    rep.require(dec, 'no decoding', 'the agent decodes no message')
    for k, x in enc:
        rep.require(x.rsplit('::', 1)[-1] in ('to_vec_named', 'write_named', 'with_struct_map') or 'to_vec' not in x and 'write' not in x, 'unnamed: ' + prog.fns[k]['path'].split('::{closure')[0],
                    '%s encodes messages without the names of fields: %s' % (prog.fns[k]['path'], x))
    rep.note(encoders=len(enc), decoders=len(dec))


CALLS = {'get_procs': ('GET', 'procs'), 'start_proc': ('POST', 'procs'), 'get_proc': ('GET', 'procs', 'proc_id'), 'delete_proc': ('DELETE', 'procs', 'proc_id'),
         'get_output_data': ('GET', 'procs', 'proc_id', 'output', 'fd', 'data'), 'send_signal': ('POST', 'procs', 'proc_id', 'signals', 'signum')}


def pieces(v, r=None):
    """The segments of a path: constants, or ('quoted' or 'raw', term)."""
    r = [[]] if r is None else r
    if isinstance(v, str):
        ps = v.split('/')
        if ps[0]:
            r[-1].append(ps[0])
        for x in ps[1:]:
            r.append([x] if x else [])
    elif isinstance(v, Sym) and v.op == 'join':
        for i, x in enumerate(v.args[1:]):
            if i:
                pieces(v.args[0], r)
            pieces(x, r)
    elif isinstance(v, Sym) and v.op in ('text', 'str', 'opAdd'):
        for x in v.args:
            pieces(x, r)
    else:
        r[-1].append(('quoted', v.args[0]) if isinstance(v, Sym) and v.op == 'quoted' else ('raw', v))
    return r


def response(v):
    return isinstance(v, Sym) and (v.op == 'response' or v.op == 'with' and response(v.args[0]))


class Http(W):
    """A client of the agent's HTTP service."""
    charset = None

    def lib(self, name, recv, args, kw):
        if name == 'urllib.parse.urlunsplit':
            self.parts = args[0]
            return Sym('url', (self.tick(),), ty='str')
        if name in ('urllib.parse.quote', 'urllib.parse.quote_plus'):
            x = args[0]
            if not isinstance(x, str):
                # quote_plus() writes a space as +, which is not one in a path.
                safe = name.endswith('quote') and (args[1] if len(args) > 1 else kw.get('safe', '/')) == ''
                return Sym('quoted' if safe else 'partly quoted', (x,), ty='str')
            return x if not set(x) - set('abcdefghijklmnopqrstuvwxyz') else Sym('quoted', (x,), ty='str')
        if name in ('.raise_for_status', '.close', '.aclose'):
            return None
        if name == '.json' and response(recv):
            return self.reply
        if name == '.request':
            self.event('request', tuple(args), dict(kw))
            rsp = Sym('response', nn=True)
            return rsp
        if name == 'requests.Session':
            return Sym('session', nn=True)
        return W.lib(self, name, recv, args, kw)

    def awaits(self, v):
        if response(v):
            return v
        return NotImplemented

    def attr(self, v, n):
        if response(v):
            if n == 'charset_encoding' or n == 'encoding' and not self.async_:
                if self.charset is None:
                    self.charset = self.choose(2, 'the response has an encoding: no, yes')
                return Sym('charset', ty='str', nn=True) if self.charset else None
            if n == 'encoding':
                # httpx: a default if there is none.
                return Sym('charset or utf-8', ty='str', nn=True)
            if n in ('content', 'text'):
                return Sym(n, ty='bytes' if n == 'content' else 'str', nn=True)
            if n == 'headers':
                self.headers = True
                return Map([('content-type', 'application/json')])
        return W.attr(self, v, n)


def client(rep, pkg, prog):
    """The clients of the HTTP service use its routes, and take what it answers."""
    import c15
    routes = {c15.norm(p) for p, _ in c15.router(rep, prog)}
    seen, quoted = 0, set()
    names = [n for n, c in Http(pkg, []).module(HTTP).ns.items() if isinstance(c, Cls) and 'Client' in n]
    for cn in names:
        c0 = Http(pkg, []).module(HTTP).ns[cn]
        for meth in sorted(c0.ns):
            f0 = c0.ns[meth]
            if meth.startswith('_') or not isinstance(f0, Func):
                continue
            what = '%s.%s()' % (cn, meth)

            def start(I):
                m = I.module(HTTP)
                sp = I.module(SPEC)
                I.loading = False
                I.async_ = cn == 'AsyncClient'
                I.headers = False
                I.id = Sym('proc_id', ty='str')
                I.reply = Map([('data', Map([('procs', Map([(I.id, Sym('process'))]))]))])
                o = I.construct(m.ns[cn], [Seq('tuple', [Sym('host', ty='str'), Sym('port', ty='int')])] + ([Sym('http client', nn=True)] if I.async_ else []), {})
                a = f0.node.args
                kw = {}
                for x in a.args[1:]:
                    kw[x.arg] = I.id if x.arg == 'proc_id' else I.construct(sp.ns['Proc'], [Seq('list', [Sym('argument', ty='str')])], {}) if x.arg == 'spec' else Sym(x.arg, ty='str')
                for x, d in zip(a.kwonlyargs, a.kw_defaults):
                    if d is None or I.choose(2, '%s is given' % x.arg) == 0:
                        kw[x.arg] = I.id if x.arg == 'proc_id' else Sym(x.arg, ty='str')
                I.spec = kw.get('spec')
                I.given = kw.get('proc_id')
                v = I.call(I.getattr(o, meth), [], kw)
                return I.await_(v) if I.async_ else v
            for r in explore(Http, pkg, start, limit=2000):
                I = r.I
                rep.obligation('HTTP client')
                if r.kind == 'raise':
                    if r.value.cls.name == 'AssertionError':
                        continue
                    rep.violation('client: ' + what, '%s fails with %s' % (what, say(r.value)), r.trace())
                    continue
                q = ev(I, 'request')
                if not rep.require(len(q) == 1, 'client: ' + what, '%s sends %d requests' % (what, len(q)), r.trace()):
                    continue
                args, kw = q[0][1]
                method = args[0] if args else kw.get('method')
                path = I.parts.items[2]
                segs = [x[0] if len(x) == 1 else tuple(x) for x in pieces(path)[1:]]
                norm = tuple(x if isinstance(x, str) else '*' for x in segs)
                pat = '/' + '/'.join(norm)
                ok = rep.require(norm in routes and method in {m for k, ms in c15.ROUTES.items() if c15.norm(k) == norm for m in ms}, 'route: ' + what,
                                 '%s requests %s %s, which the agent does not have' % (what, method, pat), r.trace())
                if not ok:
                    continue
                seen += 1
                want = CALLS.get(meth)
                if want is None:
                    continue
                rep.require(method == want[0] and norm == tuple('*' if x in ('proc_id', 'fd', 'signum') else x for x in want[1:]), 'operation: ' + what,
                            '%s requests %s %s' % (what, method, pat), r.trace())
                for x, y in zip(segs, want[1:]):
                    if isinstance(x, str):
                        continue
                    rep.require(isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Sym) and base(x[1], I).op == y, 'operation: %s %s' % (what, y),
                                '%s has %s in the place of %s' % (what, short(x), y), r.trace())
                    if x[0] == 'quoted' and y == 'proc_id':
                        quoted.add(what)
                    if x[0] == 'raw' and y == 'proc_id':
                        rep.violation('raw: ' + what, '%s puts a process ID into a path without quoting it' % what, r.trace())
                if meth == 'start_proc':
                    x = Ctx(I)
                    v = x.accept('procstar::spec::Input', kw.get('json'))
                    for at, w in x.bad:
                        rep.violation('body: %s %s' % (what, at), 'the agent does not accept the request of %s: %s: %s' % (what, at, w), r.trace())
                    if v and not x.bad:
                        ids = [k for k, _ in v[2]['specs'][1:]]
                        rep.require(len(ids) == 1 and base(ids[0], I) == base(r.value, I) and (I.given is None or ids[0] == I.given), 'identifier: ' + what,
                                    '%s starts %s and answers %s' % (what, short(ids), short(r.value)), r.trace())
                if meth == 'get_proc':
                    rep.require(r.value == Sym('process'), 'answer: ' + what, '%s answers %s' % (what, short(r.value)), r.trace())
                if meth == 'get_procs':
                    rep.require(r.value is I.reply.items[0][1].items[0][1], 'answer: ' + what, '%s answers %s' % (what, short(r.value)), r.trace())
                if meth == 'get_output_data':
                    v = r.value
                    good = isinstance(v, Sym) and (v.op == 'content' or v.op == 'text' and (I.charset or I.headers))
                    rep.require(good, 'output: ' + what, '%s decodes output that has no encoding' % what if isinstance(v, Sym) and v.op == 'text' else '%s answers %s' % (what, short(v)), r.trace())
    rep.require(seen, 'no requests by clients', 'the analysis found no request of an HTTP client')
    if quoted and literal(rep, prog):
        rep.violation('percent-encoding', 'the clients send a process ID percent-encoded in a path, but the agent looks for the process under the ID as it is in the path')
    rep.note(client_requests=seen)


def literal(rep, prog):
    """Whether the agent looks a process up under an ID as it is in the path."""
    import c15
    hh = c15.H(rep, prog)
    m = hh.run()
    hh.eng = m.eng
    for p in m.paths:
        rt = hh.route(p)
        if rt and c15.norm(rt[0])[1:2] == ('*',):
            i = hh.param(p, 1, rt[0])
            if i is not None and c15.found(hh.eng, p.st, i) is not None:
                return True
    return False


def run(rep):
    pkg = Package()
    I = W(pkg, [])
    I.module(PROTO), I.module(SPEC)
    prog = Prog.get()

    rep.parallel([lambda r: outgoing(r, pkg), lambda r: incoming(r, pkg), lambda r: fdspecs(r, pkg), lambda r: procspecs(r, pkg), lambda r: made(r, pkg),
                  lambda r: enums(r, pkg), lambda r: codec(r, prog), lambda r: client(r, pkg, prog)])
    return __doc__ + """ The agent's side is the wire format that serde derives from the declarations (names, types, attributes, tags, defaults) of the types it receives and sends;
        a hand-written deserializer is taken by the methods of its visitor and their MIR.  The server's side is interpreted from the Python sources: every request type with
        arbitrary field values is encoded and must be accepted as the request of the same name with the same values; every message type, with its optional parts present or not and
        each enumerated value, is decoded and must become the message of the same name with the same values.  Every kind of fd spec, process spec and document that the Python API
        constructs without an error, from arbitrary arguments, must be accepted as the same; every kind, mode, encoding and flag of the agent must be expressible."""
