"""C11: errors of I/O, parsing and circuit operations reach the caller."""
import itertools, random, time
from terms import *
import terms as Tm
import facts as Fx
import models
from models import lit, pystr
from interp import Unsupported
from core import check, loc_of
from build import Missing, find_fn, B
import builder
import c_circ, c_read, c_write, c_eval
from c_circ import TR, Hist
from c_read import Rd, okl

OPS = ('input', 'output', 'constant', 'not', 'xor', 'and', 'or', 'equivalent', 'identity', 'module')
RES = 'core::result::Result'


# ------------------------------------------------------------------- the lint
def isres(t):
    return isinstance(t, dict) and t.get('k') == 'adt' and t.get('d') == RES


def hasres(t):
    if isres(t):
        return True
    if isinstance(t, dict):
        return any(hasres(x) for x in t.values() if isinstance(x, (dict, list)))
    return isinstance(t, list) and any(hasres(x) for x in t)


DROPPING = {'ok', 'err', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'is_ok', 'is_err', 'is_ok_and', 'is_err_and', 'iter', 'or', 'or_else',
            'map_or', 'map_or_else', 'unwrap', 'expect', 'into_iter', 'unwrap_err', 'as_ref', 'inspect', 'inspect_err'}
PANIC = {'unwrap', 'expect'}
ITER = {'flatten', 'flat_map', 'count', 'last', 'nth', 'for_each', 'filter_map', 'map_while', 'find_map', 'take_while', 'skip_while', 'filter', 'partition'}


class Lint:
    """classifies the consumer of every value of a Result type in one body"""

    def __init__(self, J, fn):
        self.J, self.fn = J, fn
        self.sites = 0
        self.sus = []
        self.uses = {}
        self.bound = {}
        self.returns = isres(fn.get('ret') or {})

    def flag(self, e, why):
        self.sus.append((e.get('sp') or self.fn.get('span'), why))

    def run(self):
        b = self.fn.get('body')
        if b:
            self.visit(b, 'use' if self.fn.get('ret') is None or hasres(self.fn['ret']) or self.fn.get('kind') == 'Closure' else 'plain')
        for v, sp in self.bound.items():
            if not self.uses.get(v):
                self.sus.append((sp, 'a result is bound to a name that is never used'))
        return self

    def visit(self, e, ctx):
        k = e.get('k')
        if k == 'scope':
            return self.visit(e['e'], ctx)
        if k in ('var', 'upvar'):
            self.uses[e['v']] = True
        if k == 'call':
            f = e.get('f') or {}
            if isinstance(f, dict) and 'd' in f:
                nm = f.get('nm')
                args = e.get('args') or []
                if isres(e.get('t')) and not f['d'].endswith(('::Ok', '::Err')):
                    self.sites += 1
                    if ctx == 'drop':
                        self.flag(e, f'the result of {nm} is discarded')
                t0 = args[0].get('t') if args else None
                while isinstance(t0, dict) and t0.get('k') == 'ref':
                    t0 = t0['t']
                if args and isres(t0) and nm in DROPPING and (f.get('d') or '').startswith('core::result'):
                    self.flag(e, f'{nm} on the result of a call' + (' (panics)' if nm in PANIC else ' (the error is lost)'))
                if nm in ITER and (f.get('tr') or '').endswith('Iterator') and hasres(f.get('ta')):
                    self.flag(e, f'{nm} over results')
        if k == 'zst' and (e.get('f') or {}).get('d', '').startswith('core::result') and e['f'].get('nm') in DROPPING:
            self.flag(e, f"{e['f']['nm']} passed as a function")
        if k == 'block':
            for s in e.get('st') or []:
                if s['k'] == 'let':
                    init = s.get('init')
                    if init:
                        if s['pat']['k'] == 'wild':
                            self.visit(init, 'drop')
                        else:
                            if isres(init.get('t')) and s['pat']['k'] == 'bind':
                                self.bound[s['pat']['v']] = init.get('sp')
                            self.visit(init, 'use')
                    if s.get('els'):
                        if init and hasres(init.get('t')) and not self.yields(s['els']):
                            self.flag(init, 'let-else without an error')
                        self.visit(s['els'], 'use')
                else:
                    self.visit(s['e'], 'drop' if isres(s['e'].get('t')) else 'use')
            if e.get('e'):
                self.visit(e['e'], ctx)
            return
        if k == 'match':
            if e.get('src') != 'TryDesugar' and e.get('src') != 'ForLoopDesugar' and hasres(e['e'].get('t')):
                self.sites += 1
                for a in e['arms']:
                    if self.coverserr(a['pat'], e['e'].get('t')) and not self.yields(a['b']):
                        self.flag(e, 'an arm that covers the error does not return it')
            self.visit(e['e'], 'use')
            for a in e['arms']:
                self.visit(a['b'], ctx)
                if isinstance(a.get('guard'), dict):
                    self.visit(a['guard'], 'use')
            return
        if k == 'if':
            c = e['c']
            lets = []
            self.lets(c, lets)
            for l in lets:
                if hasres(l['e'].get('t')):
                    self.sites += 1
                    if self.misseserr(l['pat']):
                        if not (e.get('el') and self.yields(e['el'])):
                            self.flag(l, 'if-let without an error in the other branch')
                    if self.coverserr(l['pat'], l['e'].get('t')) and not self.yields(e['th']):
                        self.flag(l, 'if-let on the error that does not return it')
            self.visit(c, 'use')
            self.visit(e['th'], ctx)
            if e.get('el'):
                self.visit(e['el'], ctx)
            return
        for key, v in e.items():
            if key in ('t', 'pat', 'f') and not (key == 'f' and isinstance(v, dict) and v.get('k')):
                continue
            if isinstance(v, dict) and v.get('k'):
                self.visit(v, 'use')
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        y = x.get('e') if 'k' not in x and isinstance(x.get('e'), dict) else x
                        if isinstance(y, dict) and y.get('k'):
                            self.visit(y, 'use')

    def lets(self, c, out):
        if c['k'] == 'let':
            out.append(c)
        elif c['k'] == 'scope':
            self.lets(c['e'], out)
        elif c['k'] == 'logic':
            self.lets(c['l'], out)
            self.lets(c['r'], out)

    def misseserr(self, p):
        """can a value holding an Err fail to match the pattern"""
        k = p['k']
        if k == 'wild':
            return False
        if k == 'bind':
            return bool(p.get('sub')) and self.misseserr(p['sub'])
        if k == 'deref':
            return self.misseserr(p['sub'])
        if k == 'or':
            return all(self.misseserr(x) for x in p['ps'])
        if k == 'variant' and p.get('vn') in ('Some', 'Err'):
            subs = [x.get('pat') if isinstance(x, dict) and 'pat' in x else x for x in (p.get('fs') or [])]
            subs = [x[-1] if isinstance(x, list) else x for x in subs]
            return any(not isinstance(x, dict) or self.misseserr(x) or (p['vn'] == 'Err' and x.get('k') not in ('wild', 'bind', 'deref')) for x in subs)
        return True

    def coverserr(self, p, t):
        """can the pattern match a value holding an Err"""
        k = p['k']
        if k in ('wild',):
            return True
        if k == 'bind':
            return not p.get('sub') or self.coverserr(p['sub'], t)
        if k == 'variant':
            if p.get('d') == RES or p.get('vn') in ('Ok', 'Err'):
                return p.get('vn') == 'Err'
            if p.get('vn') == 'None':
                return False
            subs = [x.get('pat') if isinstance(x, dict) and 'pat' in x else x for x in (p.get('fs') or [])]
            subs = [x[-1] if isinstance(x, list) else x for x in subs]
            out = False
            for x in subs:
                if isinstance(x, dict) and x.get('k') == 'bind' and not x.get('sub') and p.get('vn') == 'Some':
                    self.bound[x['v']] = self.fn.get('span')       # handed on: like let
                elif isinstance(x, dict) and x.get('k') and self.coverserr(x, t):
                    out = True
            return out
        if k == 'or':
            return any(self.coverserr(x, t) for x in p['ps'])
        if k == 'deref':
            return self.coverserr(p['sub'], t)
        return k != 'const'

    def yields(self, e):
        """does evaluating e surely give or return an error"""
        if not isinstance(e, dict):
            return False
        k = e.get('k')
        if k == 'scope':
            return self.yields(e['e'])
        if k == 'return':
            return bool(e.get('e')) and self.yields(e['e'])
        if k == 'call':
            d = (e.get('f') or {}).get('d') or ''
            return d.endswith('::Err') or (e.get('f') or {}).get('nm') in ('from_residual',)
        if k == 'adt' and e.get('vn') == 'Err':
            return True
        if k in ('var', 'upvar'):
            self.uses[e['v']] = True
            return isres(e.get('t'))
        if k == 'block':
            if any(s.get('k') != 'let' and self.yields(s['e']) for s in e.get('st') or []):
                return True
            return bool(e.get('e')) and self.yields(e['e'])
        if k == 'if':
            return bool(e.get('el')) and self.yields(e['th']) and self.yields(e['el'])
        if k == 'match':
            if e.get('src') == 'TryDesugar':
                return self.yields(((e['e'].get('args') or [None])[0]) or {})
            return all(self.yields(a['b']) for a in e['arms'])
        if k == 'coerce':
            return self.yields(e['a'])
        return False


def lint(J):
    n = fns = 0
    out = []
    for f in J['fns']:
        if f.get('derived') or not f.get('body'):
            continue
        L = Lint(J, f).run()
        n += L.sites
        fns += 1
        for sp, why in L.sus:
            out.append((f, sp, why))
    return fns, n, out


# ----------------------------------------------------------- fault injection
class Faults:
    """circuit operations that fail on demand: which calls fail is ghost state of
    the heap, so that summarised loops carry it like any other value"""

    def __init__(self, ip, st, inner):
        self.ip, self.inner = ip, inner
        self.site = self.k = None          # failing call site (None: any), failing call (None: all)
        self.sites = {}
        self.cnt, self.hit = ip.alloc(st, ZERO), ip.alloc(st, FALSE)
        self.armed = False
        ip.trait_model = self.model

    def arm(self, st, site=None, k=None):
        self.site, self.k, self.armed = site, k, True
        st.cells[self.cnt], st.cells[self.hit] = ZERO, FALSE

    def model(self, ip, st, tr, name, args, selfty, e):
        if not self.armed or tr.split('::')[-1] != TR or name not in OPS:
            return self.inner(ip, st, tr, name, args, selfty, e)
        site = (e.get('sp'), name)
        self.sites[site] = True
        if self.site is not None and self.site != site:
            return self.inner(ip, st, tr, name, args, selfty, e)
        bad = err(mk('opfail', name))
        if self.k is None:
            ip.writeref(st, ip.ref(self.hit), TRUE)
            return bad
        n = ip.readcell(st, self.cnt)
        now = eq0(sub(n, I(self.k)))
        ip.writeref(st, ip.ref(self.cnt), add(n, ONE))
        ip.writeref(st, ip.ref(self.hit), bor(ip.readcell(st, self.hit), now))
        # the operation of a failed call has no effect
        return ip.branch(st, now, lambda s: bad, lambda s: self.inner(ip, s, tr, name, args, selfty, e))


def silent(ip, st, v, mark, hit):
    """what definitely goes wrong: None, or a message (the failing call happened)"""
    for o in ip.obls[mark:]:
        if o['cond'] is FALSE and all(p is TRUE for p in o['pc']) and o['kind'] not in ('foreign-gate', 'module-arity'):
            return f"panics ({o['kind']})", o
    if st.dead:
        return 'panics', None
    if hit is not None and hit is not TRUE:
        return None
    v = Fx.prune(v, ())
    if isvar(v, 'Ok') is TRUE:
        return 'reports success', None
    if isvar(v, 'Err') is not TRUE:
        raise Unsupported('result ' + show(v)[:60])
    return None


# reader
def reader_faults(c):
    """(function, message) or None"""
    rng = random.Random(c.seed + 5)
    texts = list(c_read.CURATED) + [c_read.random_text(rng, s % 8) for s in range(24 if c.thorough else 8)]
    texts = [t for t in texts if len(t) < 160] + ['2 4\n1 2\n1 1\n\n2 1 0 1 3 XOR\n1 1 0 2 INV']
    for text in texts:
        ls = text.split('\n')
        if ls and ls[-1] == '':
            ls.pop()
        nops, k = None, 0
        while nops is None or k < nops:
            W = Rd(c.J)
            W.ip.inline_rec = True
            st = W.st.copy()
            F = Faults(W.ip, st, W.trait)
            try:
                rc = W.new(st)
                F.arm(st, k=k if nops is not None else 10 ** 6)
                mark = len(W.ip.obls)
                fn, v = W.read(st, rc, seq(*[okl(lit(l)) for l in ls]))
                if nops is None:
                    nops = isint(st.cells[F.cnt])
                    if nops is None or st.dead or isvar(Fx.prune(v, ()), 'Ok') is not TRUE:
                        raise Unsupported('operations of the text')
                    continue
                c.count('reader runs with a failing operation')
                w = silent(W.ip, st, v, mark, st.cells[F.hit] if not st.dead else None)
                if w:
                    return fn, f'read {w[0]} although circuit operation number {k} fails; text {text!r}'
            except Unsupported as x:
                c.count('reader runs not resolved')
                c.why = str(x)
                if nops is None:
                    break
            k += 1
        last = max(i for i, l in enumerate(ls) if i < 3 or l.split())
        h = ls[0].split()
        more = [' '.join([str(int(h[0]) + 1)] + h[1:])] + ls[1:last + 1]
        for i in range(last + 2):
            # the line before which (or, for the last, after which) the reader fails
            if i == 3 and not ls[3].split():
                continue
            W = Rd(c.J)
            W.ip.inline_rec = True
            st = W.st.copy()
            try:
                rc = W.new(st)
                mark = len(W.ip.obls)
                fn, v = W.read(st, rc, seq(*[okl(lit(l)) for l in more[:i]], el(err(mk('ioerr'))), *[okl(lit(l)) for l in more[i:]]))
                c.count('reader runs with an unreadable line')
                w = silent(W.ip, st, v, mark, None)
                if w:
                    return fn, f'read {w[0]} although line {i + 1} cannot be read; text {text!r}'
            except Unsupported as x:
                c.count('reader runs not resolved')
                c.why = str(x)
        # numbers that are no numbers
        for i, l in enumerate(ls[:last + 1]):
            ts = l.split()
            if i == 0:
                todo = [1]
            elif i < 3:
                todo = range(len(ts))
            else:
                todo = [j for j in range(2, len(ts) - 1) if not (ts[-1] == 'EQ' and j == 2)]
            for j in todo:
                if j >= len(ts):
                    continue
                for junk in ('x', '-1', '1.5'):
                    t2 = list(ts)
                    t2[j] = junk
                    W = Rd(c.J)
                    W.ip.inline_rec = True
                    st = W.st.copy()
                    try:
                        rc = W.new(st)
                        mark = len(W.ip.obls)
                        fn, v = W.read(st, rc, seq(*[okl(lit(' '.join(t2) if q == i else m)) for q, m in enumerate(ls)]))
                        c.count('reader runs with an unparsable number')
                        w = silent(W.ip, st, v, mark, None)
                        if w:
                            return fn, f'read {w[0]} although {junk!r} on line {i + 1} is no number; text {text!r}'
                    except Unsupported as x:
                        c.count('reader runs not resolved')
                        c.why = str(x)
                    if rng.random() < .6:
                        break
    return None


# writer
def build_hist(c, prog):
    H = Hist(c.J)
    for s in prog:
        R = H.step(*s)
        if R is not None and R.st.dead:
            raise Unsupported('construction panics')
    H.W.ip.inline_rec = True
    return H


def writer_faults(c):
    progs = list(itertools.islice(c_write.wcurated(()), 0, None, 9 if c.thorough else 29))
    for prog in progs:
        try:
            H = build_hist(c, prog)
        except Unsupported:
            continue
        W, ip = H.W, H.W.ip
        base = H.st.copy()
        n, mode = None, None
        todo = [(None, None)]
        while todo:
            fail, short = todo.pop(0)
            st = base.copy()
            try:
                sink = c_write.Sink(ip, st, fail=fail, short=short)
                wcell = c_write.new_writer(W, st, W.cref(H.cs[0]['cell']))
                mark = len(ip.obls)
                fn, v = c_write.write(W, st, wcell, H.cs[0]['nin'], ip.alloc(st, EMAP))
                c.count('writer runs with a failing or short write' if fail is not None or short is not None else 'writer runs')
                if fail is not None:
                    w = silent(ip, st, v, mark, None)
                    if w:
                        return fn, f'write {w[0]} although call number {fail} of the sink fails; {H.desc()}'
                    continue
                if st.dead or isvar(Fx.prune(v, ()), 'Ok') is not TRUE:
                    if short is None:
                        raise Unsupported('write')
                    continue
                t, f = sink.text(st), sink.flushed(st)
                if t is None or f is None:
                    raise Unsupported('written text not resolved')
                if t != f:
                    return fn, f'write reports success with {len(t) - len(f)} bytes not flushed; {H.desc()}'
                if short is None:
                    ref = t
                    n = sink.calls(st)
                    todo += [(k, None) for k in range(n)] + [(None, k) for k in range(n) if k in sink.partial]
                elif t != ref:
                    return fn, f'write reports success although call number {short} of the sink took only a part of the bytes; {H.desc()}'
            except Unsupported as x:
                c.count('writer runs not resolved')
                c.why = str(x)
                if fail is None and short is None:
                    break
    return None


def watch(W):
    """notes whether an operation of the circuit really reported an error"""
    ip = W.ip
    orig = ip.call_fn
    ip.reported = False

    def call_fn(st, fn, *a, **k):
        v = orig(st, fn, *a, **k)
        if not st.dead and isres(fn.get('ret') or {}) and (fn.get('self_ty') or {}).get('d', '').split('::')[-1] in ('NXAOBoolCircuit', 'BoolCircuitRef', 'ModuleStorage', 'ModuleStorageRef') \
                and v.op == 'adt' and v.args[1] == 'Err':
            ip.reported = True
        return v
    ip.call_fn = call_fn


# circuits that refer to gates that do not exist
def bad_circuits():
    """programs in which the id 'BAD' stands for a gate the circuit does not have"""
    for op in ('not', 'xor', 'and', 'or', 'equivalent', 'identity'):
        n = 1 if op in ('not', 'identity') else 2
        for pos in range(n):
            for deep in (0, 1, 2):
                a = [0] * n
                a[pos] = 'BAD'
                p = [(0, 'input'), (0, op) + tuple(a)]
                if deep == 0:
                    yield p + [(0, 'output', -1)]
                    yield p + [(0, 'output', -1), (0, 'output', 0)]
                    yield p + [(0, 'output', 0), (0, 'output', -1)]
                elif deep == 1:
                    yield p + [(0, 'and', -1, 0), (0, 'not', -1), (0, 'output', 0), (0, 'output', -1), (0, 'output', 0)]
                else:
                    sub = [(0, 'sub'), (1, 'input'), (1, op) + tuple(a), (1, 'output', -1)]
                    yield sub + [(0, 'input'), (0, 'module', 1, [0]), (0, 'xor', -1, 0), (0, 'output', -1)]
    for k in (0, 1):
        ops = [0, 0]
        ops[k] = 'BAD'
        yield [(0, 'sub'), (1, 'input'), (1, 'input'), (1, 'xor', 0, 1), (1, 'output', -1), (0, 'input'), (0, 'module', 1, ops), (0, 'output', -1)]


def resolve(H, step):
    """replace BAD and negative operands by positions"""
    def pos(ci, x):
        ids = H.cs[ci]['ids']
        if x == 'BAD':
            ids.append(H.W.gid(I(7777)))
            H.bad = (ci, len(ids) - 1)
            return len(ids) - 1
        return len(ids) + x if isinstance(x, int) and x < 0 else x
    ci, op = step[:2]
    if op in ('constant', 'input', 'sub'):
        return step
    if op == 'module':
        return (ci, op, step[2], [pos(ci, x) for x in step[3]])
    return (ci, op) + tuple(pos(ci, x) for x in step[2:])


def bad_gates(c):
    for prog in bad_circuits():
        H = Hist(c.J)
        H.W.ip.inline_rec = True
        desc = ', '.join(f"{'' if s[0] == 0 else 'sub.'}{s[1]}{tuple(s[2:])}" for s in prog)
        try:
            refused = False
            for s in prog:
                n = len(H.W.ip.obls)
                R = H.step(*resolve(H, s))
                if R is None:
                    continue
                if R.st.dead:
                    refused = True
                    break
                if isvar(Fx.prune(R.v, ()), 'Err') is TRUE:      # the operation itself refuses
                    refused = True
                    break
                if any(getattr(H, 'bad', None) == (q, len(C['ids']) - 1) for q, C in enumerate(H.cs)):
                    raise Unsupported('no gate')
            if refused:
                c.count('operations that refuse an unknown gate')
                continue
            W, st, ip = H.W, H.st, H.W.ip
            watch(W)
            nin = H.cs[0]['nin']
            fn = W.anyfn('eval_output', c_eval.EV, 'BoolEvaluator')
            for bits in itertools.product((FALSE, TRUE), repeat=nin):
                s1 = st.copy()
                ev = W.refto(s1, W.call(s1, c_circ.find(W, 'new', c_eval.EV), W.cref(H.cs[0]['cell'])))
                mark = len(ip.obls)
                ip.reported = False
                v = W.call(s1, fn, ev, W.refto(s1, seq(*[el(x) for x in bits])))
                c.count('evaluations of a circuit with an unknown gate')
                w = silent(ip, s1, v, mark, None)
                if w and ip.reported:
                    return fn, f'eval_output {w[0]} on {[x is TRUE for x in bits]} although a gate refers to an unknown gate (BAD): {desc}'
            s2 = st.copy()
            sink = c_write.Sink(ip, s2)
            wcell = c_write.new_writer(W, s2, W.cref(H.cs[0]['cell']))
            mark = len(ip.obls)
            ip.reported = False
            fn, v = c_write.write(W, s2, wcell, nin, ip.alloc(s2, EMAP))
            c.count('writes of a circuit with an unknown gate')
            w = silent(ip, s2, v, mark, None)
            if w and ip.reported:
                return fn, f'write {w[0]} although a gate refers to an unknown gate (BAD): {desc}'
        except Unsupported as x:
            c.count('unknown-gate runs not resolved')
            c.why = str(x)
    return None


# builders
class Args:
    """arguments of public builder functions, by type"""

    def __init__(self, b, cfgs, ops):
        self.b, self.cfgs, self.ops = b, cfgs, ops

    def make(self, st, t, n):
        ip, b = b_ip(self.b), self.b
        s = ip.stripref(t)
        d = s.get('d', '').split('::')[-1]
        isref = t.get('k') == 'ref'
        if d in self.cfgs:
            return self.cfgs[d] if isref else b.val(self.cfgs[d], st)
        if d in self.ops:
            return self.ops[d] if isref else b.val(self.ops[d], st)
        if d == 'BoolCircuitRef':
            return b.cell(b.cref, st) if isref else b.cref
        if d == 'GateId':
            g = builder.gb(I(1), builder.inp(1, ZERO))
            return b.cell(g, st) if isref else g
        if d == 'BigUint':
            return b.cell(ONE, st) if isref else ONE
        if s.get('k') == 'int':
            return I(n)
        if d == 'Vec' or s.get('k') == 'slice':
            v = seq(*[el(builder.gb(I(1), builder.inp(1, I(i)))) for i in range(n)])
            return b.cell(v, st) if isref else v
        raise Unsupported('argument of type ' + str(d or s.get('k')))


def b_ip(b):
    return b.ip


def session(J, n, fp=False):
    b = B(J)
    b.N = I(n)
    b.cty = {('c', 'N'): I(n)}
    F = Faults(b.ip, b.st, b.S.trait)
    cfgs, ops, why = {}, {}, []
    for name, el_ in (('AllocBitsConfig', 'AllocBits'), ('AllocIntConfig', 'AllocInt'), ('AllocFpConfig', 'AllocFp')):
        if name == 'AllocFpConfig':
            if not fp or 'AllocIntConfig' not in cfgs:
                continue
        st = b.st.copy()
        try:
            if name == 'AllocFpConfig':
                f = find_fn(J, 'new', name)
                cfgs[name] = b.cell(b.okcall(f, b.cell(b.cref), cfgs['AllocIntConfig'], I(3), I(2)))
            else:
                cfgs[name] = b.new_cfg(name)
            ops[el_] = b.operand(el_, cfgs[name])
        except Unsupported as x:
            b.st = st
            why.append(f'{name}: {x}')
    return b, F, Args(b, cfgs, ops), why


def builders(J):
    """public functions that build circuits and can return an error"""
    out = []
    for f in J['fns']:
        if f.get('in_trait') or f.get('derived') or not f.get('body') or not (f.get('pub') or f.get('trait')):
            continue
        if not (f.get('path') or '').lstrip('<').split('<')[0].startswith('circuits::') or f.get('kind') == 'Closure':
            continue
        if f.get('trait') and f['trait'].split('::')[-1] in ('Clone', 'Debug', 'Display', 'PartialEq', 'Eq', 'Error', 'From'):
            continue
        out.append(f)
    return out


def reached(b, F, A, f, st0, n):
    """call sites of fallible circuit operations a run of f reaches"""
    F.sites = {}
    st = st0.copy()
    F.arm(st, site=('none', ''), k=None)
    try:
        args = [A.make(st, p.get('ty') or p.get('t') or p['pat']['t'], n) for p in f['params']]
        v = b.call(f, *args, st=st)
    finally:
        F.armed = False
    return list(F.sites), (None if st.dead else v)


def builder_faults(c, secs):
    t0 = time.time()
    fs = builders(c.J)
    ran, why = set(), {}
    for n, fp in ((3, False), (2, False), (6, True)):
        b, F, A, w0 = session(c.J, n, fp)
        for f in fs:
            if time.time() - t0 > secs:
                why.setdefault(f['path'], 'time')
                continue
            isfp = 'finite_field' in f['path']
            if isfp != fp:
                continue
            fixed = not f.get('gc') and not any((p.get('ty') or p.get('t') or p['pat']['t']).get('k') == 'int' for p in f['params'])
            if fixed and n != 3:
                continue
            try:
                sites, v = reached(b, F, A, f, b.st, n)
            except (Unsupported, Missing) as x:
                why[f['path']] = str(x)
                continue
            if v is None:
                why[f['path']] = 'panics without a fault'
                continue
            if not sites:
                continue
            plain = not isres(f.get('ret'))
            c.count('operators and constructors that can only panic' if plain else 'functions that can return an error')
            ran.add(f['path'])
            c.count('fallible call sites reached', len(sites))
            runs = [(s, None) for s in sites] + [(None, k) for k in range(4 if not fp else 1)]
            if fixed:
                runs = [(s, None) for s in sites if s[1] in ('input', 'output', 'xor')][:3] or runs[:2]
            if plain:
                runs = [(s, None) for s in sites]
            for site, k in runs:
                st = b.st.copy()
                F.arm(st, site=site, k=k)
                mark = len(b.ip.obls)
                try:
                    args = [A.make(st, p.get('ty') or p.get('t') or p['pat']['t'], n) for p in f['params']]
                    v = b.call(f, *args, st=st)
                    c.count('builder runs with a failing operation')
                    if plain:
                        w = None
                        if not st.dead and st.cells[F.hit] is TRUE and len(b.ip.obls) == mark:
                            w = ('returns normally', None)
                    else:
                        w = silent(b.ip, st, v, mark, st.cells[F.hit] if not st.dead else None)
                    if w:
                        where = f'the {site[1]} at {site[0]} fails' if site else f'circuit operation number {k} fails'
                        return f, f"{f['path']} {w[0]} although {where} (N = {n})"
                except (Unsupported, Missing) as x:
                    c.count('builder runs not resolved')
                    why.setdefault(f['path'] + ' with a fault', str(x))
                finally:
                    F.armed = False
    c.count('builder functions run with faults', len(ran))
    return why


@check('C11')
def c11(c):
    c.extra['explanation'] = ('Every value of a Result type in the typed IR of every body is followed to its consumer: `?`, a return, an arm that returns the error. A consumer that drops or panics on the error '
                              'is a suspect, unless its function cannot return an error. Independently the transfer functions are composed with faults: each circuit operation of reader and builders failing, unreadable '
                              'lines, unparsable numbers, failing and short writes, references to unknown gates. Only such a composed run that definitely reports success (or panics) is a violation.')
    fns, n, sus = lint(c.J)
    c.count('bodies analysed', fns)
    c.count('result values followed', n)
    cannot = [s for s in sus if s[0].get('ret') is not None and not hasres(s[0]['ret']) and 'panics' in s[2]]
    sus = [s for s in sus if s not in cannot]
    c.count('panics in functions that cannot return an error', len(cannot))
    parts = (('reader', reader_faults), ('writer', writer_faults), ('unknown gates', bad_gates),
             ('builders', lambda c: builder_faults(c, 600 if c.thorough else 120)))
    bad = False
    for name, f in parts:
        t0 = time.time()
        try:
            w = f(c)
        except Missing as x:
            c.bad(name, f'public operation {x} is missing')
            bad = True
            continue
        except Unsupported as x:
            c.und(name, str(x))
            continue
        c.extra.setdefault('seconds', {})[name] = round(time.time() - t0, 1)
        if isinstance(w, tuple):
            bad = True
            c.bad(name, w[1], loc_of(w[0]))
        elif isinstance(w, dict) and w:
            for k, v in list(w.items())[:8]:
                c.extra.setdefault('not resolved', []).append(f'{k}: {v[:100]}')
            c.ok(name, 'no run with a fault reports success')
        else:
            c.ok(name, 'no run with a fault reports success')
    if getattr(c, 'why', None):
        c.und('runs with faults', f'some were not resolved: {c.why}')
    if not bad:
        for f, sp, why in sus:
            c.und(f"{f['path']}", f'{why} at {sp}', loc_of(f))
    if not sus:
        c.ok('result values', f'all {n} reach `?`, a return or an arm that returns the error')
