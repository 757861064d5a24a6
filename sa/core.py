"""Check framework: obligations, verdicts, evidence, known findings."""
import json, os, sys, time, traceback
import front

ROOT = front.ROOT
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


class Ctx:
    def __init__(self, pid, J, tier, seed):
        self.pid, self.J, self.tier, self.seed = pid, J, tier, seed
        self.obs = []          # (name, status, detail, loc, how)
        self.assumptions = []
        self.counts = {}
        self.deadline = time.time() + (300 if tier == 'quick' else 3000)
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, name, how, loc=None, detail=None):
        self.obs.append({'obligation': name, 'status': 'discharged', 'how': how, 'at': loc, 'detail': detail})

    def und(self, name, why, loc=None):
        self.obs.append({'obligation': name, 'status': 'undecided', 'how': why, 'at': loc})

    def bad(self, name, detail, loc=None, key=None):
        self.obs.append({'obligation': name, 'status': 'violated', 'how': detail, 'at': loc, 'key': key or name})


def loc_of(fn):
    return f"{fn.get('span', '?')} {fn.get('path') or fn.get('name')}" if fn else None


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def run(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    J = front.load()
    c = Ctx(pid, J, tier, seed)
    try:
        CHECKS[pid](c)
    except Exception as x:       # the analysis gave up: no verdict, no alarm
        c.und('analysis', 'internal: ' + traceback.format_exc()[-1500:])
    kf = {k['key']: k for k in known() if k['property'] == pid and k['status'] == 'known'}
    viol, kn = [], []
    for o in c.obs:
        if o['status'] == 'violated':
            (kn if o['key'] in kf else viol).append(o)
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    nd = sum(o['status'] == 'discharged' for o in c.obs)
    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': c.extra.pop('level', 'other'),
        'coverage': {
            'explanation': c.extra.pop('explanation', ''),
            'obligations': len(c.obs), 'discharged': nd,
            'undecided': sum(o['status'] == 'undecided' for o in c.obs),
            'analysed': c.counts,
            'samples': [o for o in c.obs][:400],
            'checker_cmd': f'bash check.sh {pid}',
            'trusted_base': ['rustc nightly front end (THIR)', 'driver/src/main.rs', 'sa/ (abstract interpreter, models of std and num-bigint, term algebra)'],
            **c.extra,
        },
        'assumptions': c.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    path = os.path.join(ev, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(path + '.tmp', path)
    for o in kn:
        print(f"KNOWN-FINDING: property={pid} {o['obligation']}: {o['how']}")
    und = [o for o in c.obs if o['status'] == 'undecided']
    print(f"{pid}: {nd} obligations discharged, {len(und)} undecided, {len(viol)} violated, {len(kn)} known; {doc['wall_s']} s")
    for o in und:
        print(f"  undecided: {o['obligation']} ({str(o['how'])[-400:]})")
    for o in viol:
        print(f"  at {o['at']}: {o['obligation']}: {o['how']}")
    if viol:
        rp = os.path.join(ev, pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1, default=str)
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0
