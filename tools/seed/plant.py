#!/usr/bin/env python3
"""Plants a bug: checks that it is one, and writes /verif/seeded/<id>/.

In a script: from plant import plant; plant(id, property, [(file, old, new)...], needs, breaks, demo)
where demo is the Python source of the demonstration (after `from lib import *`).
"""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
ROOT = '/verif/seeded'
COPY = '/tmp/w/plant'
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def copy():
    if not os.path.isdir(COPY):
        r = sh('mkdir -p /tmp/w && cp -a /repo %s' % COPY)
        assert r.returncode == 0, r.stderr
    sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd -e target' % COPY)


def build(tests=True):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=COPY + '/target')
    r = sh('cd %s && cargo build --workspace --offline --locked 2>&1' % COPY, env=env)
    return r.returncode == 0, r.stdout, env


def suite(env):
    r = sh('cd %s && timeout -k 10 200 cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 2>&1' % COPY, env=env)
    ok = set()
    for l in r.stdout.splitlines():
        if l.startswith('test ') and l.endswith(' ... ok'):
            ok.add(l[5:-7])
    e = dict(env, PROCSTAR=COPY + '/target/debug/procstar', PYTHONPATH=COPY + '/python', PYTHONDONTWRITEBYTECODE='1')
    sh('cd %s && timeout -k 10 300 /opt/vp/venv/bin/python -m pytest test -q -p no:cacheprovider --timeout 30 --continue-on-collection-errors '
       '--basetemp=/tmp/w/pt --junitxml=/tmp/w/pt.xml' % COPY, env=e)
    sh("pkill -KILL -f '^%s/target/debug/procstar'" % COPY)
    for c in ET.parse('/tmp/w/pt.xml').iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    bad = []
    for b in BASE:
        n = b.split('::', 1)[1] if b.startswith('procstar:') else b
        if n not in ok:
            bad.append(b)
    return bad


def demo(d):
    r = sh('cd %s && timeout 300 bash %s/demo.sh 2>&1' % (COPY, d))
    sh("pkill -KILL -f '^%s/target/debug/procstar'" % COPY)
    return r.returncode, (r.stdout + r.stderr)[-700:]


def plant(id, prop, edits, needs, breaks, src, quick=False):
    copy()
    d = os.path.join(ROOT, id)
    tmp = '/tmp/w/seed-' + id
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    shutil.copy(os.path.join(HERE, 'lib.py'), tmp)
    open(tmp + '/demo.py', 'w').write('from lib import *\n\n' + src.strip() + '\n')
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\n# Run with cwd /repo after the build.\nexec /opt/vp/venv/bin/python -B "$(dirname "$(realpath "$0")")/demo.py"\n')
    ok, out, env = build()
    assert ok, out
    rc, o = demo(tmp)
    if rc != 0:
        print('##', id, 'demo fails on the clean tree', rc, o)
        return False
    for f, a, b in edits:
        p = os.path.join(COPY, f)
        s = open(p).read()
        if s.count(a) < 1:
            print('##', id, 'not found', a[:80])
            return False
        open(p, 'w').write(s.replace(a, b, 1))
    patch = sh('cd %s && git diff' % COPY).stdout
    ok, out, env = build()
    if not ok:
        print('##', id, 'does not build', out[-2500:])
        return False
    rc, o = demo(tmp)
    if rc == 0:
        print('##', id, 'demo passes with the change', o)
        return False
    bad = suite(env)
    if bad:
        bad = suite(env) 
    if bad:
        print('##', id, 'tests fail', bad[:5])
        return False
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    shutil.rmtree(tmp)
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('cd /repo && git apply --check %s/patch.diff' % d)
    print('##', id, 'planted', 'demo:', o.strip().splitlines()[-1][:200] if o.strip() else rc, r.stderr)
    return True
