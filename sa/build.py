"""Obtains the dump of the resolved program of /repo's current working tree."""
import fcntl, hashlib, os, subprocess, sys
from .prog import Prog

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VDUMP_REPO', '/repo')
TGT = os.path.join(VERIF, 'target')


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def sources():
    r = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'stl', 'doc'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock')): r.append(os.path.join(root, f))
    return r


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(TGT, 'vdump-' + digest([src]))
    if not os.path.exists(out):
        r = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', out + '.tmp'])
        if r.returncode != 0: raise SystemExit('cannot build the driver:\n' + r.stdout)
        os.rename(out + '.tmp', out)
    return out


def forget(tdir):
    """Make cargo compile the crate again (both layouts of the build directory)."""
    for sub in ('.fingerprint', 'build'):
        d = os.path.join(tdir, 'debug', sub)
        if not os.path.isdir(d): continue
        for n in os.listdir(d):
            if n in ('strict_types', 'strict-types') or n.startswith(('strict_types-', 'strict-types-')): subprocess.run(['rm', '-rf', os.path.join(d, n)])


def dump(log=lambda s: None):
    os.makedirs(TGT, exist_ok=True)
    with open(os.path.join(TGT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        h = digest(sources()) + '-' + os.path.basename(drv)[6:]
        out = os.path.join(TGT, 'dump-' + h + '.json')
        if os.path.exists(out):
            log('dump of this tree is cached')
            return out, h
        tdir = os.path.join(TGT, 'check')
        forget(tdir)
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib', VDUMP_CRATE='strict_types', VDUMP_OUT=out + '.tmp',
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tdir,
                   RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on')
        env.pop('RUSTC_WRAPPER', None)
        if os.path.exists(out + '.tmp'): os.remove(out + '.tmp')
        cmd = ['cargo', '+nightly', 'check', '--lib', '--all-features', '--offline']
        r = sh(cmd, cwd=REPO, env=env)
        if r.returncode == 0 and not os.path.exists(out + '.tmp'):     # cargo thought that the crate is up to date
            subprocess.run(['rm', '-rf', tdir])
            r = sh(cmd, cwd=REPO, env=env)
        if r.returncode != 0 or not os.path.exists(out + '.tmp'):
            raise SystemExit('cannot compile /repo for analysis:\n' + r.stdout[-4000:])
        old = sorted((f for f in os.listdir(TGT) if f.startswith('dump-') and f.endswith('.json')),
                     key=lambda f: os.path.getmtime(os.path.join(TGT, f)))
        for f in old[:-3]: os.remove(os.path.join(TGT, f))
        os.rename(out + '.tmp', out)
        log('dump regenerated')
        return out, h


def load(log=lambda s: None):
    path, h = dump(log)
    p = Prog(path)
    p.hash = h
    return p
