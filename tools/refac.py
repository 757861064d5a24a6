#!/usr/bin/env python3
"""Behaviour-preserving edits: apply each to a scratch copy of /repo, build and
test it there, run the related checks on the copy and report any alarm.
  refac.py mk SPEC.py     make refactorings/NAME.diff from NAME = [(file, [(old, new), ...])]
  refac.py run [NAME...]  run the related checks on each
"""
import glob, os, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.join(V, 'refactorings')
REL = {'src/evaluator.rs': 'C01 C02 C03 C11 C25 C26',
       'src/bristol_converter.rs': 'C09 C10 C11 C12 C13 C14 C25 C26',
       'src/bool_circuit.rs': 'C04 C05 C06 C07 C08 C11 C25 C26 C27 C12',
       'src/gates.rs': 'C04 C05 C06 C14 C27 C01',
       'src/utils.rs': 'C21 C22',
       'src/circuits/logic': 'C15 C16 C17 C11', 'src/circuits/arithmetic': 'C16 C17 C18 C11 C25 C15',
       'src/circuits/finite_field': 'C19 C20 C11', 'src/circuits/bristol_files': 'C23 C24', 'src/circuits': 'C15 C16 C17 C18 C19 C20 C23'}


def related(diff):
    out = set()
    for f in re.findall(r'^\+\+\+ b/(\S+)', diff, re.M):
        for k in sorted(REL, key=len, reverse=True):
            if f.startswith(k):
                out |= set(REL[k].split())
                break
    return sorted(out)


def scratch(name):
    d = f'/tmp/refac/{name}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/refac', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    return d


def test(d):
    e = dict(os.environ, CARGO_TARGET_DIR='/tmp/refac/target', RUSTFLAGS='-Awarnings')
    shutil.copy('/repo/Cargo.lock', d) if os.path.exists('/repo/Cargo.lock') else None
    p = subprocess.run('cargo test --offline 2>&1 | tail -400', shell=True, cwd=d, env=e, capture_output=True, text=True)
    bad = re.findall(r'^error.*|test .* FAILED', p.stdout, re.M)
    return bad, p.stdout


def mk(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for name, edits in ns['SPEC'].items():
        d = scratch('mk')
        try:
            for f, reps in edits:
                p = os.path.join(d, f)
                s = open(p).read()
                for r in reps:
                    o, n = r[0], r[1]
                    cnt = r[2] if len(r) > 2 else 1
                    assert s.count(o) == cnt or not cnt, (name, s.count(o), o)
                    s = s.replace(o, n)
                open(p, 'w').write(s)
        except AssertionError as x:
            print(name, 'EDIT', x)
            continue
        bad, out = test(d)
        if bad:
            print(name, 'BAD', bad[:6])
            print(out[-1500:] if 'error' in bad[0] else '')
            continue
        diff = subprocess.run(['git', 'diff', '--', 'src'], cwd=d, capture_output=True, text=True).stdout
        open(os.path.join(R, name + '.diff'), 'w').write(diff)
        print(name, 'ok')


def one(a):
    name, d, c = a
    e = dict(os.environ, SA_REPO=d)
    try:
        p = subprocess.run(['bash', 'check.sh', c], cwd=V, env=e, capture_output=True, text=True, timeout=900)
        o, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        o, rc = 'TIMEOUT', -1
    m = re.search(r'(\d+) undecided, (\d+) violated.*?([\d.]+) s', o)
    res = f'{name} {c} rc={rc} und={m and m.group(1)} viol={m and m.group(2)} {m and m.group(3)}s'
    alarm = rc != 0 or 'VIOLATION' in o
    if alarm or (m and m.group(1) != '0'):
        res += ('  <<< ALARM' if alarm else '') + '\n' + '\n'.join('     ' + l[:260] for l in o.splitlines()[1:5])
    return res


def run(names):
    names = names or [os.path.basename(x)[:-5] for x in sorted(glob.glob(R + '/*.diff'))]
    jobs = []
    for n in names:
        d = scratch(n)
        f = f'{R}/{n}.diff'
        subprocess.run(['git', 'apply', f], cwd=d, check=True)
        for c in related(open(f).read()):
            jobs.append((n, d, c))
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for r in ex.map(one, jobs):
            if 'und=0 viol=0' not in r or os.environ.get('ALL'):
                print(r, flush=True)
    for n in names:
        shutil.rmtree(f'/tmp/refac/{n}', ignore_errors=True)
    print('done', len(jobs))


if sys.argv[1] == 'mk':
    for f in sys.argv[2:]:
        mk(f)
else:
    run(sys.argv[2:])
