"""Build the compiler driver, run it on /repo's current tree, load the facts.

The driver (../driver) is a rustc_private wrapper: it is injected with
RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and dumps resolved MIR,
ADTs, impls, statics and public items of the workspace crates as JSON.
"""
import fcntl, json, os, subprocess, sys, time, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FC_REPO', '/repo')
WORK = os.environ.get('FC_WORK', os.path.join(VERIF, 'work'))
DRIVER = os.path.join(VERIF, 'driver')
DRIVER_BIN = os.path.join(DRIVER, 'target', 'debug', 'fc-driver')
RUSTFLAGS = ('--cap-lints allow -Zmir-opt-level=0 '
             '-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums')


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',):
            del e[k]
    e.pop('RUSTC_WRAPPER', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def _sysroot():
    r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, env=_env())
    if r.returncode != 0:
        raise BuildError('no nightly toolchain: ' + r.stderr)
    return r.stdout.strip()


def build_driver():
    src = max(os.path.getmtime(p) for p in
              glob.glob(DRIVER + '/src/*.rs') + [DRIVER + '/Cargo.toml'])
    if os.path.exists(DRIVER_BIN) and os.path.getmtime(DRIVER_BIN) >= src:
        return
    e = _env()
    e['RUSTFLAGS'] = ''
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=DRIVER, env=e,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('driver does not build:\n' + r.stderr[-4000:])
    os.utime(DRIVER_BIN)


def run_driver(name, cargo_args, crates, cwd=None):
    """Run the driver in one cargo configuration; returns (facts by crate, stderr)."""
    target = os.path.join(WORK, 'target-' + name)
    out = os.path.join(WORK, 'facts-' + name)
    os.makedirs(out, exist_ok=True)
    for f in glob.glob(out + '/*.json'):
        os.unlink(f)
    # forget the workspace crates (and only them), so the driver always runs on the current tree
    for pat in ('.fingerprint', 'build', 'incremental', 'deps'):
        for n in ('ferrous*', 'fecl*', 'libferrous*', 'libfecl*', 'probe*', 'libprobe*'):
            for d in glob.glob('%s/debug/%s/%s' % (target, pat, n)):
                shutil.rmtree(d) if os.path.isdir(d) else os.unlink(d)
    e = _env()
    e['LD_LIBRARY_PATH'] = _sysroot() + '/lib'
    e['RUSTC_WORKSPACE_WRAPPER'] = DRIVER_BIN
    e['FC_CRATES'] = ','.join(crates)
    e['FC_OUT'] = out
    e['RUSTFLAGS'] = RUSTFLAGS
    e['CARGO_TARGET_DIR'] = target
    r = subprocess.run(['cargo', '+nightly', 'check', '--locked', '--offline'] + cargo_args,
                       cwd=cwd or REPO, env=e, capture_output=True, text=True)
    facts = {}
    for c in crates:
        p = os.path.join(out, c + '.json')
        if os.path.exists(p):
            with open(p) as fh:
                facts[c] = json.load(fh)
    return r.returncode, facts, r.stderr


class Lock:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.fh = open(os.path.join(WORK, 'lock-' + self.name), 'w')
        fcntl.flock(self.fh, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.fh.close()


_cache = {}


def load(name='default', cargo_args=('--workspace',), crates=('ferrous_chloride', 'fecl'), cwd=None):
    """Facts of /repo's current tree in one configuration (fresh on every process)."""
    if name in _cache:
        return _cache[name]
    with Lock('driver'):
        build_driver()
    with Lock(name):
        rc, facts, err = run_driver(name, list(cargo_args), list(crates), cwd)
    if rc != 0 or any(c not in facts for c in crates):
        raise BuildError('configuration %s does not build:\n%s' % (name, err[-4000:]))
    _cache[name] = facts
    return facts


def probe():
    """facts of the witness crate in ../probe, type-checked against /repo's current library"""
    d = os.path.join(VERIF, 'probe')
    if REPO != '/repo':
        # another tree is looked at: the witness has to depend on that one
        d2 = os.path.join(WORK, 'probe-src')
        shutil.rmtree(d2, ignore_errors=True)
        shutil.copytree(d, d2, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(d2, 'Cargo.toml')
        with open(p) as fh:
            s = fh.read()
        with open(p, 'w') as fh:
            fh.write(s.replace('/repo/', REPO.rstrip('/') + '/'))
        d = d2
    return load('probe', (), ('probe',), d)
