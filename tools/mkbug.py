"""Makes a seeded bug from a spec file (python, defining ID, PROP, EDITS =
[(file, old, new)], DEMO (rust main), NEEDS, BREAKS): applies it in the scratch
copy /tmp/w/br of /repo, builds, runs the tests and the demo on both trees,
writes seeded/ID and runs the property's check on the changed copy."""
import json, os, subprocess as sp, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BR = '/tmp/w/br'
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
circuit_converters = { path = "$PWD" }
num-bigint = "*"
rand = "*"
[workspace]
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" && timeout 250 cargo run -q --offline
'''


def sh(cmd, cwd, **k):
    return sp.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', BR)
    sh('rsync -a --delete /repo/src/ /tmp/w/br/src/ 2>/dev/null || (rm -rf /tmp/w/br/src && cp -a /repo/src /tmp/w/br/src)', '/')
    sh('find /tmp/w/br/src -name "*.rs" | xargs touch', '/')


def main(spec, checks=None):
    g = {}
    exec(open(spec).read(), g)
    clean()
    d = os.path.join(ROOT, 'seeded', g['ID'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in g['EDITS']:
        p = os.path.join(BR, f)
        s = open(p).read()
        cnt = s.count(old)
        if cnt != 1:
            print('EDIT FAILED', f, cnt, repr(old[:60])); return 1
        open(p, 'w').write(s.replace(old, new))
    r = sh('git diff -- src', BR)
    open(d + '/patch.diff', 'w').write(r.stdout)
    open(d + '/demo.rs', 'w').write(g['DEMO'])
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('cargo test --offline -- --test-threads 8 2>&1 | grep -E "^test |test result|^error" ', BR)
    bad = [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
    print(g['ID'], 'tests:', 'FAIL ' + str(bad[:4]) if bad else 'pass')
    if bad:
        return 1
    a = sh(f'bash {d}/demo.sh', '/repo')
    b = sh(f'bash {d}/demo.sh', BR)
    print('  demo: unchanged', a.returncode, 'patched', b.returncode, '' if a.returncode == 0 and b.returncode else (a.stdout + a.stderr)[-800:] + (b.stdout + b.stderr)[-800:])
    if a.returncode != 0 or b.returncode == 0:
        print('  DOES NOT COUNT')
        return 1
    for c in checks or [g['PROP']]:
        e = sh(f'SA_REPO={BR} bash check.sh {c}', ROOT)
        print('  check', c, 'rc', e.returncode, '|', (e.stdout + e.stderr).strip()[-600:])
    return 0


rc = 0
for s in sys.argv[1:]:
    rc |= main(s)
clean()
sys.exit(rc)
