"""Front end: builds the THIR extractor and extracts the type-checked program
of /repo's current working tree (compiler front end only; nothing is run)."""
import glob, hashlib, json, os, shutil, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')


class FrontError(Exception):
    pass


def sha(paths, base):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p, base).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def files_under(d, pats=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            out.append(os.path.join(r, f))
    return out


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True, env=env()).strip()


def driver():
    src = files_under(os.path.join(ROOT, 'driver'))
    src = [p for p in src if p.endswith(('.rs', '.sh'))]
    out = os.path.join(CACHE, 'thirx-' + sha(src, ROOT))
    if not os.path.exists(out):
        r = subprocess.run(['bash', os.path.join(ROOT, 'driver', 'build.sh'), out], env=env(),
                           capture_output=True, text=True)
        if r.returncode:
            raise FrontError('extractor does not build:\n' + r.stdout + r.stderr)
    return out


def repo_sources():
    ps = files_under(os.path.join(REPO, 'src'))
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml'):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            ps.append(p)
    return ps


def extract():
    """directory with thir.json of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        drv = driver()
        key = sha(repo_sources(), REPO) + '-' + os.path.basename(drv)[-8:]
        out = os.path.join(CACHE, 'thir-' + key)
        if os.path.exists(os.path.join(out, 'thir.json')):
            return out
        tgt = os.path.join(CACHE, 'target')
        tmp = out + '.tmp'
        e = env()
        e.update(LD_LIBRARY_PATH=sysroot() + '/lib', THIR_OUT_DIR=tmp, THIR_CRATE='circuit_converters',
                 CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=drv)
        e.pop('RUSTFLAGS', None)
        for attempt in (0, 1):
            # cargo would take the crate for fresh and not call the extractor
            for pat in (('*', '.fingerprint', 'circuit_converters-*'), ('*', 'build', 'circuit_converters'), ('*', 'build', 'circuit_converters-*')):
                for p in glob.glob(os.path.join(tgt, *pat)):
                    shutil.rmtree(p, ignore_errors=True)
            if attempt:
                shutil.rmtree(tgt, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline'],
                               cwd=REPO, env=e, capture_output=True, text=True)
            if r.returncode == 0 and os.path.exists(os.path.join(tmp, 'thir.json')):
                break
        else:
            raise FrontError('cargo check failed:\n' + (r.stdout + r.stderr)[-4000:])
        for p in glob.glob(os.path.join(CACHE, 'thir-*')):
            shutil.rmtree(p, ignore_errors=True) if p != tmp else None
        os.rename(tmp, out)
        return out
    finally:
        lock.close()


def load():
    d = extract()
    with open(os.path.join(d, 'thir.json')) as f:
        J = json.load(f)
    J['_dir'] = d
    return J


if __name__ == '__main__':
    print(extract())
