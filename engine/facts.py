"""Builds the fact extractor and extracts facts from /repo's current tree."""
import fcntl, hashlib, json, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PROCSTAR_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(BUILD, 'driver', 'debug', 'procstar-facts')

# Library code whose bodies are inlined.  Everything else is modelled or opaque.
ALLOW = ','.join("""
core::option core::result core::ops core::convert core::cmp core::mem:: core::pin core::future core::task core::array
core::iter core::slice::iter core::bool core::ptr::non_null core::poll core::time core::cell::Cell
std::option std::result std::ops std::convert std::cmp std::mem std::pin std::future std::task std::iter
alloc::boxed std::boxed futures_util::future futures_util::fns futures_core pin_project_lite T_as_futures_util::fns lazy_static
tokio::future tokio::macros bool:: matchit::Params
Option Result
core::bool core::num::<impl std::os
""".split()).replace('_as_', ' as ').replace('T as', '<T as')


def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in list(e):
        if k.startswith('CARGO_') and k != 'CARGO_NET_OFFLINE' and k != 'CARGO_HOME':
            del e[k]
    e.pop('RUSTC_WRAPPER', None)
    e.pop('RUSTFLAGS', None)
    return e


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    e = env()
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--locked', '--target-dir', os.path.join(BUILD, 'driver')],
                       cwd=os.path.join(VERIF, 'driver'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise SystemExit('driver build failed:\n' + r.stdout[-4000:])


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for f in sorted(fs):
            files.append(os.path.join(base, f))
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    for base, ds, fs in os.walk(os.path.join(VERIF, 'driver', 'src')):
        for f in sorted(fs):
            files.append(os.path.join(base, f))
    files.append(os.path.abspath(__file__))
    for p in files:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def extract(out, targets=True):
    """Runs the driver over the workspace; writes <crate>.<type>.json to `out`."""
    e = env()
    root = sysroot()
    e['LD_LIBRARY_PATH'] = os.path.join(root, 'lib')
    e['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
    e['RUSTFLAGS'] = '-Zalways-encode-mir'
    e['PROCSTAR_FACTS_OUT'] = out
    e['PROCSTAR_FACTS_ALLOW'] = ALLOW
    tgt = os.path.join(BUILD, 'target')
    e['CARGO_INCREMENTAL'] = '0'
    # Cargo skips the wrapper for packages it believes fresh.
    for d in ('debug/.fingerprint', 'debug/build'):
        d = os.path.join(tgt, d)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n == 'procstar' or n.startswith('procstar-'):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--bins', '--target-dir', tgt,
                        '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                       env=e, cwd='/', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise SystemExit('fact extraction failed:\n' + r.stdout[-6000:])
    return r.stdout


def get():
    """Returns the path of the directory with facts for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        h = tree_hash()
        out = os.path.join(BUILD, 'facts', h)
        if not (os.path.exists(os.path.join(out, 'procstar.lib.json')) and os.path.exists(os.path.join(out, 'procstar.bin.json'))):
            base = os.path.join(BUILD, 'facts')
            if os.path.isdir(base):
                old = sorted(os.listdir(base), key=lambda d: os.path.getmtime(os.path.join(base, d)))
                for d in old[:-6]:
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            os.makedirs(out, exist_ok=True)
            log = extract(out)
            for f in ('procstar.lib.json', 'procstar.bin.json'):
                if not os.path.exists(os.path.join(out, f)):
                    raise SystemExit('facts missing: %s\n%s' % (f, log[-3000:]))
        return out


if __name__ == '__main__':
    print(get())
