"""C03: a failed child set-up step is reported and prevents execution."""
import re
import c06
import reap
from startp import *
from paths import paths

# Calls of the child that are part of its set-up and may fail.
STEPS = ('close', 'dup2', 'dup', 'dup3', 'open', 'openat', 'open64', 'fcntl', 'fcntl64', 'setsid', 'setpgid', 'chdir', 'setuid', 'setgid', 'umask')


class Mon(ForkMon):
    def __init__(self, rep, errpipes=()):
        self.rep = rep
        self.errpipes = errpipes
        self.written = set()
        self.steps = {}
        self.ends = {}

    def on_sys(self, st, c, path, n, vals):
        if 'child' not in st.mon:
            return None
        eng = self.eng
        if n == 'write':
            self.written.add(base(models.value(eng, st, vals[0])))
            if any(m == 'unreported' for m in st.mon):
                st.mon = st.mon - {'unreported'}
            # The pipe takes all that is written.
            return models.value(eng, st, vals[2])
        if n in EXECS:
            self.ends['exec'] = self.ends.get('exec', 0) + 1
            self.rep.require('failed' not in st.mon, 'exec after failed step',
                             'the program is executed although a step of its set-up failed', st.trace())
            # exec returns: it failed.
            st = st.copy()
            st.mon = (st.mon | {'failed', 'unreported', 'exec'})
            st.note('%s fails' % n)
            return [(st, I(-1))]
        if n in STEPS:
            self.steps[n] = self.steps.get(n, 0) + 1
            if n == 'close' and self.own(st, vals):
                return None
            out = []
            s = st.copy()
            r = eng.fresh(s, path, eng.site(s), *[models.value(eng, s, v) for v in vals])
            eng.refine(s, r, 0, INF, EMPTY)
            out.append((s, r))
            s = st.copy()
            s.mon = s.mon | {'failed', 'unreported'}
            s.note('%s fails' % n)
            out.append((s, I(-1)))
            return out
        return None

    def own(self, st, vals):
        """The child's other end of the pipe it reports through: nothing can be reported about it."""
        return base(models.value(self.eng, st, vals[0])) in self.errpipes

    def on_panic(self, st, what, *a):
        if 'child' in st.mon:
            self.rep.require('unreported' not in st.mon, 'panic after failed step',
                             'the child panics after a failed step without having reported it to the parent', st.trace())

    def on_end(self, st, kind, *a):
        if 'child' not in st.mon:
            return
        self.ends[kind] = self.ends.get(kind, 0) + 1
        self.rep.require('unreported' not in st.mon, 'failed step not reported',
                         'the child ends after a failed step without reporting an error to the parent', st.trace())


def base(v):
    if v.k != 'fld':
        return None
    b = v.a[0]
    return tuple(sorted((l.a[0], str(l.a[1])) for l in b.leaves if l.k == 'res')) or b


class Quiet:
    def require(self, *a):
        return True
    violation = require


WIDTH = re.compile(r'(?:put|read|get|write)_[ui](\d+)(_le|_ne)?$')


def codec(path):
    """(bits, order) of a method that encodes or decodes an integer."""
    m = WIDTH.search(path)
    if m:
        return int(m.group(1)), 'be' if not m.group(2) else 'le'
    m = re.search(r'num::<impl [ui](\d+|size)>::(?:to|from)_([lnb])e_bytes$', path)
    if m:
        return 64 if m.group(1) == 'size' else int(m.group(1)), 'be' if m.group(2) == 'b' else 'le'
    return None


def framing(rep, prog, writer, reader):
    """What the child writes is what the parent reads: a length of so many bytes in so many bits, and these bytes."""
    def want(p, c):
        return 'encode' if codec(p) else 'write' if sysname(p) == 'write' else None
    forms = set()
    f = prog.fns[writer]
    m = paths(prog, writer, want, rep=rep)
    done = 0
    for p in m.paths:
        w = [e for e in p.evs if e[0] == 'write']
        if p.kind != 'return' or len(w) < 2:
            continue
        if not rep.require(len(w) == 2, 'writes', 'an error is written as %s' % p.show(6)[:300], p.trace):
            continue
        done += 1
        fds = [base(e[1][0]) or e[1][0] for e in w]
        rep.require(w[0][1][0] is w[1][1][0], 'written elsewhere', 'the length and the text of an error are written to different descriptors: %s' % p.show(6)[:300], p.trace)
        text, n = w[1][1][1], w[1][1][2]
        enc = [e for e in p.evs if e[0] == 'encode']
        arg = enc[-1][1][-1] if enc else None
        rep.require(arg is not None and any_node(arg, lambda x: x is n or x.k == 'op' and x.a[0] == 'len' and x.a[1][0] is text or text.k == 'op' and text.a[0] == 'slice:RangeTo' and x is text.a[1][1]) is not None, 'length of other',
                    'the length that precedes an error is not that of the text that follows: %s' % p.show(7)[:400], p.trace)
        rep.require(any_node(text, lambda x: x.k == 'sym') is not None, 'text lost', 'the text written is not the error: %s' % p.show(7)[:300], p.trace)
    for b in prog.G.reach(writer):
        for x in prog.G.ext.get(b, ()):
            if codec(x):
                forms.add(codec(x))
    rep.require(done, 'no error written', 'no path of %s writes a length and a text' % f['path'])

    def want(p, c):
        return 'decode' if codec(p) else 'exact' if p.endswith('::read_exact') else 'add' if p.startswith('alloc::vec::Vec') and p.endswith('::push') else None
    back = set()
    m = paths(prog, reader, want, rep=rep, limit=4, poll=False)
    got = clean = 0
    for p in m.paths:
        if p.kind != 'return':
            continue
        evs = [e[0] for e in p.evs]
        if 'decode' in evs and 'exact' not in evs and 'add' not in evs:
            clean += 1
            rep.require(p.result is not None and p.result.k == 'seq' and not p.result.a[0], 'errors from nothing', 'errors are read although the child wrote none: %s' % p.show(6)[:300], p.trace)
        for i, e in enumerate(p.evs):
            if e[0] == 'exact':
                rep.require(evs[i + 1:i + 2] == ['add'], 'error dropped', 'a message of the child, or a failure to read it, is dropped: %s' % p.show(6)[:300], p.trace)
            if e[0] == 'exact' and evs[i + 1:i + 2] == ['add'] and evs.count('decode') == 2:
                # A message, and then the end.
                got += 1
                buf = e[1][1]
                n = any_node(buf, lambda x: x.k == 'res' and x.a[0] == 'await' or x.k == 'op' and x.a[0] == 'await')
                rep.require(n is not None, 'read another length', 'the text of an error is not read by the length that precedes it: %s' % p.show(7)[:400], p.trace)
                added = p.evs[i + 1][1][1]
                core = any_node(buf, lambda x: x.k in ('op', 'res') and x.a[0] != 'await' and 'slice' not in str(x.a[0]))
                rep.require(core is not None and any_node(added, lambda x: x is core or x is buf or x.k in ('op', 'res') and str(x.a[0]).endswith('read_exact')) is not None and any_node(
                    p.result, lambda x: x is added) is not None, 'error dropped', 'an error that was read is not among those that are returned: %s' % p.show(7)[:400], p.trace)
    rep.require(clean and got, 'no error read', 'no path of %s reads a length and that many bytes' % prog.fns[reader]['path'])
    for b in prog.G.reach(reader):
        for x in prog.G.ext.get(b, ()):
            if codec(x) and 'tokio' in x or codec(x) and 'num::' in x:
                back.add(codec(x))
    rep.require(len(forms) == 1 and forms == back, 'other encoding', 'the length of an error is written as %s and read as %s' % (sorted(forms), sorted(back)))
    rep.note(framing=sorted(map(str, forms)))


class Attach(c06.Mon):
    """When a process is announced as not running, its record has what the child reported."""

    def need(self, cond, key, msg, st):
        return cond

    def on_notify(self, st, var, payload):
        if 'task' not in st.mon or var != self.notrunning:
            return
        rec = self.record(st)
        errs = self.field(rec, 'errors') if rec is not None else None
        self.count('observed')
        self.rep.require(errs is not None and any_node(errs, lambda x: x.k in ('res', 'op') and str(x.a[0]) in self.readers) is not None, 'errors not attached',
                         'a process is announced as not running before what its child reported is in its record: %s' % show(errs, 6)[:300], st.trace())
        reported = lambda x: any_node(x, lambda x: x.k in ('res', 'op') and str(x.a[0]) in self.readers) is not None
        self.rep.require(errs is None or errs.k != 'seq' or all(s[0] != 'star' for s in errs.a[0]) or any(s[0] == 'base' and reported(s[1]) for s in errs.a[0]), 'errors lost',
                         'the reported errors are replaced: %s' % show(errs, 7)[:400], st.trace())


def run(rep):
    prog = Prog.get()
    P, G = prog.P, prog.G
    start = start_fn(prog)
    rel = ext('fork', 'exit', 'write', *EXECS, *STEPS)
    opq = prog.opaque(lambda x: rel(x) or x == 'std::process::exit')
    with part(rep):
        m0 = Mon(Quiet())
        m0.child_only(prog)
        e = absint.Eng(P, [m0], opaque=opq, name=start)
        e.start(start, start_args(prog, start))
        e.run()
        m = Mon(rep, m0.written - {None})
        m.child_only(prog)
        e = absint.Eng(P, [m], opaque=opq, name=start)
        e.start(start, start_args(prog, start))
        e.run()
        rep.engine(e)
        rep.note(child_steps=m.steps, child_ends=m.ends)
        rep.require(m.ends.get('exec'), 'no exec', 'the analysis found no execution of a program')
    pipes = [k for k in prog.fns if prog.local(k) and any(codec(x) and 'tokio' in x for x in prog.G.ext[k])]
    rep.require(pipes, 'no reader', 'no function reads the errors that a child reports')
    readers = prog.G.callers(lambda k: k in pipes)
    a = Attach(rep, prog)
    a.readers = {prog.fns[k]['path'] for k in readers}
    with part(rep):
        reap.explore(rep, prog, a)
        rep.require(a.n.get('observed'), 'no announcement', 'the analysis found no announcement of a process that ended')
    writers = [k for k in prog.fns if prog.local(k) and any(codec(x) for x in prog.G.ext[k]) and any(sysname(x) == 'write' for x in prog.G.reach_ext(k)) and k in prog.G.reach(start)]
    # The messages may be read one by one by a function of its own.
    lists = [k for k in readers if 'alloc::vec::Vec<alloc::string::String>' in prog.P.types[prog.fns[k]['locals'][0]]['s'] and '{closure' in prog.fns[k]['path']]
    lists = [k for k in lists if not any(j != k and j in prog.G.reach(k) for j in lists)] or pipes
    for w in writers:
        for r in lists:
            body = next((k for k in prog.fns if r.startswith(k + '::{closure') and prog.P.types[prog.fns[k]['locals'][0]]['k'] == 'coroutine'), r)
            framing(rep, prog, w, body)
    rep.require(writers, 'no writer', 'no function writes an error to the parent')
    return __doc__ + """ In the forked child, each set-up call (close, dup2, open, fcntl, setsid, ...) may fail on each path; after a failure a write to the error pipe
        must precede the child's end and no exec may follow.  The writer's and the reader's encodings of an error's length are the same and the length is that of
        the text; what the reader has read is in the process's record before the process is announced as not running."""
