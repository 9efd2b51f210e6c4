"""C10: a child's environment is exactly what its spec says."""
from startp import *
from paths import Collect, paths, default_args
from climb import agg
import models

ENV = 'procstar::spec::Env'
INHERIT = 'procstar::spec::EnvInherit'
EXCLUDED = ('PROCSTAR_AGENT_CERT', 'PROCSTAR_AGENT_KEY', 'PROCSTAR_AGENT_TOKEN')


def seq(*xs):
    return mk('seq', tuple(('one', ('a', i), x) for i, x in enumerate(xs)))


def iterator(v):
    return mk('it', v, 0, 'own', ('env',))


def fmt(v):
    """The pieces of a formatted string: literals and values."""
    while v.k == 'op' and str(v.a[0]).rsplit('::', 1)[-1] in ('format', 'new', 'new_const', 'to_string', 'must_use') and len(v.a[1]) == 1:
        v = v.a[1][0]
    if v.k == 'op' and v.a[0] == 'concat':
        out = []
        for x in v.a[1]:
            ps = fmt(x)
            out += ps if ps is not None else [x.a[0] if x.k == 'str' else x]
        return out
    if v.k != 'op' or len(v.a[1]) != 2:
        return None
    tpl, args = v.a[1]
    if tpl.k == 'agg':
        bs = [x.a[0] for x in tpl.a[2]]
    elif tpl.k == 'bytes':
        bs = list(tpl.a[0])
    else:
        return None
    args = list(args.a[2]) if args.k == 'agg' else []
    out = []
    i = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode('utf-8', 'replace'))
            i += b
        elif b >= 0xc0 and args:
            a = args.pop(0)
            out.append(a.a[1][0] if a.k == 'op' and str(a.a[0]).rsplit('::', 1)[-1].startswith('new_') and len(a.a[1]) == 1 else a)
        else:
            return None
    return out


class Lazy(Collect):
    """Lazy statics have the value of their initializer; std::env::vars() is given."""

    def __init__(self, prog, start=None):
        Collect.__init__(self, lambda p, c: None)
        self.prog = prog
        self.start = start
        self.cache = {}

    def on_call(self, st, c, path, vals):
        if path == 'lazy_static::lazy::Lazy::<T>::get':
            k = st.fr.key.replace('::__stability', '::__static_ref_initialize')
            if k in self.prog.fns and k != st.fr.key:
                if k not in self.cache:
                    m = paths(self.prog, k, lambda p, c: None)
                    r = [p.result for p in m.paths if p.kind == 'return']
                    self.cache[k] = r[0] if len(r) == 1 else None
                if self.cache[k] is not None:
                    return ref(('V', self.cache[k]))
            return None
        if path in ('std::env::vars', 'std::env::vars_os') and self.start is not None:
            return self.start
        return None


def builders(prog):
    """Functions that make an environment from its spec."""
    r = []
    for k, f in prog.fns.items():
        if not prog.local(k) or f.get('cor') or '{closure' in k:
            continue
        ts = [prog.P.types[f['locals'][i]]['s'] for i in range(f['argc'] + 1)]
        if any(t in (ENV, '&' + ENV) for t in ts[1:]) and ('Map<alloc::string::String, alloc::string::String' in ts[0] or 'Vec<' in ts[0]) and ENV not in ts[0]:
            r.append(k)
    return r


def among(eng, st, K):
    """K is known to be one of the excluded names."""
    for t in list(st.facts):
        if t.k == 'op' and t.a[0] == 'contains' and t.a[1][1] is K and eng.truth(st, t) is True and t.a[1][0].k == 'seq':
            if all(s[0] == 'one' and s[2].k == 'str' and s[2].a[0] in EXCLUDED for s in t.a[1][0].a[0]):
                return True
    return False


def check_builder(rep, prog, key):
    P = prog.P
    f = prog.fns[key]
    names = [n for n, t in P.tdef[ENV]['variants'][0]['fields']]
    var = {v['name']: (i, len(v['fields'])) for i, v in enumerate(P.tdef[INHERIT]['variants'])}
    if not rep.require(set(names) == {'inherit', 'vars'} and set(var) == {'None', 'All', 'Vars'}, 'env spec', 'the environment part of a process spec has other parts: %s %s' % (names, sorted(var))):
        return 0
    V, X, O = sym('W:value'), sym('W:explicit'), sym('W:other')
    n = 0
    for kind, K in [('excluded', mk('str', x)) for x in EXCLUDED] + [('plain', sym('W:name')), ('plain', mk('str', 'PATH')), ('plain', mk('str', 'PROCSTAR_AGENT_HOST'))]:
        pair = lambda k, v: agg('tuple', 0, k, v)
        for have in (True, False):
            for inh, named in (('None', None), ('All', None), ('Vars', []), ('Vars', [K]), ('Vars', [O, K])):
                for exp in (None, 'set', 'unset'):
                    v, nf = var[inh]
                    i = agg(INHERIT, v, *([seq(*named)] if named is not None else []))
                    e = seq() if exp is None else seq(pair(K, some(X) if exp == 'set' else NONE))
                    spec = agg(ENV, 0, *[i if x == 'inherit' else e for x in names])
                    start = iterator(seq(*([pair(K, V)] if have else [])))
                    args = []
                    for a in range(f['argc']):
                        t = P.types[f['locals'][a + 1]]['s']
                        args.append(spec if t == ENV else ref(('V', spec)) if t == '&' + ENV else start)
                    m = Lazy(prog, start)
                    m = paths(prog, key, None, mon=m, args=args, rep=rep, max_states=60000)
                    what = '%s %s, %s%s, %s' % (kind, 'present' if have else 'absent', inh, '' if named is None else '/named' if K in named else '/not named', exp or 'not explicit')
                    for p in m.paths:
                        if p.kind != 'return':
                            rep.violation('build ends: ' + what, 'building an environment (%s) ends by %s' % (what, p.kind), p.trace)
                            continue
                        n += 1
                        st = p.st
                        eq = lambda a, b: m.engine.truth(st, models.eq_term(m.engine, st, a, b)) is True
                        excl = kind == 'excluded' or K.k == 'sym' and (any(eq(K, mk('str', x)) for x in EXCLUDED) or among(m.engine, st, K))
                        inherited = have and (inh == 'All' or inh == 'Vars' and any(x is K or eq(x, K) for x in named)) and not excl
                        want = X if exp == 'set' else None if exp == 'unset' else V if inherited else None
                        r = p.result
                        if not rep.require(r is not None and r.k == 'seq' and all(s[0] in ('one', 'del') for s in r.a[0]), 'unknown environment: ' + what,
                                           'the environment built (%s) is %s' % (what, show(r, 6) if r is not None else None), p.trace):
                            continue
                        got = [s[2] for s in r.a[0] if s[0] == 'one']
                        okk = len(got) == (want is not None) and all(g.k == 'agg' and g.a[2][0] is K and g.a[2][1] is want for g in got)
                        rep.require(okk, 'environment: ' + what, 'for a variable %s, the environment is %s instead of %s' % (what, show(r, 5), 'its value' if want is V else
                                    'the explicit value' if want is X else 'without it'), p.trace)
    return n


class Exec(Collect):
    def __init__(self):
        Collect.__init__(self, lambda p, c: sysname(p) if sysname(p) in EXECS else None)

    def add(self, st, label, args):
        return Collect.add(self, st, label, args)


def check_wrapper(rep, prog, key):
    """The function that calls exec: its arguments reach the system call unchanged."""
    P = prog.P
    f = prog.fns[key]
    A0, A1, N1, V1, XE = sym('W:arg0'), sym('W:arg1'), sym('W:name'), sym('W:value'), sym('W:exe')
    args = []
    roles = []
    for i in range(f['argc']):
        t = P.types[f['locals'][i + 1]]['s']
        by = t.startswith('&')
        b = t.lstrip('&')
        if 'Map<' in b:
            v, r = seq(agg('tuple', 0, N1, V1)), 'env'
        elif 'Vec<' in b or b.startswith('['):
            v, r = seq(A0, A1), 'argv'
        else:
            v, r = XE, 'exe'
        roles.append(r)
        args.append(ref(('V', v)) if by else v)
    m = Exec()
    paths(prog, key, None, mon=m, args=args, rep=rep)
    n = 0
    for p in m.paths:
        for e in p.evs:
            n += 1
            lab, (exe, argv, *env) = e[0], e[1]
            s = p.show(7)[:500]
            cs = lambda v: v.a[1][0] if v.k == 'op' and v.a[0] == 'cstring' else None
            rep.require(cs(exe) is XE, 'exe changed', 'the path executed is not the one given: %s' % s, p.trace)
            vec = lambda v: [x[2] for x in v.a[0]] if v.k == 'seq' and all(x[0] == 'one' for x in v.a[0]) else None
            a = vec(argv)
            rep.require(a is not None and len(a) == 3 and cs(a[0]) is A0 and cs(a[1]) is A1 and a[2].k == 'int' and a[2].a[0] == 0, 'argv changed',
                        'the argument vector executed is not the one given: %s' % s, p.trace)
            if 'env' in roles:
                a = vec(env[0]) if env else None
                ps = fmt(cs(a[0])) if a and cs(a[0]) is not None else None
                rep.require(a is not None and len(a) == 2 and ps is not None and len(ps) == 3 and ps[0] is N1 and ps[1] == '=' and ps[2] is V1 and a[1].k == 'int' and a[1].a[0] == 0,
                            'environment changed', 'the environment executed is not the one given: %s' % s, p.trace)
    return n, roles


class Given(ForkMon):
    """What start_procs gives to the function that executes."""

    def __init__(self, rep, prog, wrapper, roles, build):
        self.rep, self.prog, self.wrapper, self.roles, self.build = rep, prog, wrapper, roles, build
        self.n = 0

    def on_call(self, st, c, path, vals):
        if path == 'std::env::vars':
            return op('the environment')
        if c.get('key') in self.wrapper and 'child' in st.mon:
            self.n += 1
            eng = self.eng
            v = {r: models.freeze(eng, st, models.value(eng, st, x)) for r, x in zip(self.roles[c['key']], vals)}
            P = self.prog.P
            a = v.get('argv')
            i = field(P, 'argv')
            rec = a.a[0] if a is not None and a.k == 'fld' and a.a[1:] == (0, i) else None
            self.rep.require(rec is not None, 'argv of other', 'the arguments executed are not exactly those of the spec: %s' % (show(a, 7) if a is not None else None), st.trace())
            e = v.get('env')
            if self.rep.require(e is not None, 'no environment given', 'a program is executed with the environment of the service', st.trace()):
                okk = e.k in ('res', 'op') and str(e.a[0]) in {self.prog.fns[k]['path'] for k in self.build}
                xs = [models.value(eng, st, x) for x in e.a[-1]] if okk else []
                j = field(P, 'env')
                sp = [x for x in xs if x.k == 'fld' and x.a[1:] == (0, j)]
                st0 = [x for x in xs if x not in sp]
                self.rep.require(okk and len(sp) == 1 and (rec is None or sp[0].a[0] is rec), 'environment of other',
                                 'the environment executed is not the one built from the spec: %s' % show(e, 7), st.trace())
                self.rep.require(all(x.k == 'op' and x.a[0] == 'the environment' for x in st0), 'other base environment', 'the environment is not built from that of the service: %s' % show(e, 7), st.trace())
        return ForkMon.on_call(self, st, c, path, vals) if hasattr(ForkMon, 'on_call') else None


def field(P, name):
    return [n for n, t in P.tdef['procstar::spec::Proc']['variants'][0]['fields']].index(name)


def run(rep):
    prog = Prog.get()
    start = start_fn(prog)
    wr = [k for k in prog.fns if prog.local(k) and '{closure' not in k and any(sysname(x) in EXECS for x in prog.G.ext[k]) and k in prog.G.reach(start)]
    rep.require(wr, 'no exec', 'no function executes a program')
    roles = {}
    n = 0
    for k in wr:
        if k == start:
            raise Missing('exec called in %s itself' % start)
        m, roles[k] = check_wrapper(rep, prog, k)
        n += m
    bs = [k for k in builders(prog) if k in prog.G.reach(start)]
    rep.require(bs, 'no environment', 'no function builds an environment from a spec')
    nb = 0
    for k in bs:
        nb += check_builder(rep, prog, k)
    g = Given(rep, prog, set(wr), roles, bs)
    base = prog.opaque(lambda x: x in ('std::process::exit',) or sysname(x) == 'fork')
    opq = lambda k: k in wr or k in bs or base(k)
    e = absint.Eng(prog.P, [g], opaque=opq, name=start)
    e.start(start, start_args(prog, start))
    e.run()
    rep.engine(e)
    rep.require(g.n, 'no exec reached', 'the analysis found no execution of a program')
    rep.note(exec_calls=n, exec_sites=g.n, environment_cases=nb, builders=[prog.fns[k]['path'] for k in bs], wrappers=[prog.fns[k]['path'] for k in wr])
    return __doc__ + """ The function that builds an environment is analysed for one arbitrary variable (plain or one of the excluded), present or not in the service's
        environment, for each kind of inheritance and explicit setting; the function that executes is analysed with an arbitrary argument vector and environment: both
        reach the system call unchanged, in order, as NAME=value, NULL-terminated; start_procs gives it the argv of the spec and the environment built from
        the same spec and the service's environment."""
