"""C26: evaluation and writing are read-only and repeatable; C27: equality and
arithmetic of ids, gates and circuits."""
import itertools, random
from terms import *
import terms as Tm
import facts as Fx
from interp import Unsupported
from core import check, loc_of
from build import Missing, find_fn
from circ import Conc
import c_circ, c_eval, c_write, c_ref
from c_circ import TR, World, Hist, random_walk
from prove import equal, prove


# ------------------------------------------------------------------------ C26
# library operations through which a shared place can be changed
WRITES = {'borrow_mut', 'try_borrow_mut', 'replace', 'replace_with', 'swap', 'take', 'set', 'get_mut', 'as_ptr', 'update', 'store', 'fetch_add', 'lock', 'write', 'get_or_init', 'with'}
SHARED = {'RefCell', 'Cell', 'UnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'LocalKey', 'Rc', 'Arc', 'AtomicBool', 'AtomicUsize', 'AtomicU64'}
RCW = {'get_mut', 'make_mut', 'as_ptr', 'into_raw', 'get_mut_unchecked', 'increment_strong_count', 'decrement_strong_count'}


def edges(J, f, ids, impls):
    """(callees inside the crate, writes to shared places) of one body"""
    to, wr = {}, []

    def go(e, sp):
        if isinstance(e, list):
            for x in e:
                go(x, sp)
            return
        if not isinstance(e, dict):
            return
        sp = e.get('sp') or sp
        d = e.get('d')
        if isinstance(d, str) and 'nm' in e:                 # a function is named
            for k in (d, e.get('rd')):
                if k in ids:
                    to.setdefault(k, sp)
            if e.get('tr') and (not e.get('rd') or e['rd'] == d):        # not resolved: any implementation
                for g in impls.get((e['tr'], e['nm']), ()):
                    to.setdefault(g, sp)
            im = ((e.get('im') or {}).get('d') or '').split('::')[-1]
            if im in SHARED and e['nm'] in (RCW if im in ('Rc', 'Arc') else WRITES):
                wr.append((sp, f"{im}::{e['nm']}"))
        elif isinstance(d, str) and d in ids and e.get('k') not in ('adt',):
            to.setdefault(d, sp)
        if e.get('k') in ('static', 'threadlocal'):
            wr.append((sp, 'a static'))
        for k, v in e.items():
            if k in ('t', 'pat', 'im', 'ta') or not isinstance(v, (dict, list)):
                continue
            go(v, sp)
    go(f.get('body'), f.get('span'))
    return to, wr


def closure(J, roots):
    """call-graph closure: reached functions, call sites seen, and the paths on
    which a shared place is written"""
    ids = {f['id']: f for f in J['fns'] if f.get('body')}
    impls = {}
    for f in J['fns']:
        if f.get('trait') and f.get('body'):
            impls.setdefault((f['trait'], f['name']), []).append(f['id'])
    seen, n, bad = {}, 0, []
    todo = [(f['id'], None) for f in roots]
    while todo:
        g, par = todo.pop()
        if g in seen:
            continue
        seen[g] = par
        to, wr = edges(J, ids[g], ids, impls)
        n += len(to)
        for sp, what in wr:
            path, q = [], g
            while q:
                path.append(ids[q]['path'])
                q = seen[q]
            bad.append((ids[g], sp, what, ' <- '.join(path)))
        todo += [(t, g) for t in to]
    return seen, n, bad


def selfwrites(J, f):
    """assignments of a body to something inside self"""
    out = []
    me = None
    ps = f.get('params') or []
    if ps and ps[0].get('self') and ps[0]['pat'].get('k') == 'bind':
        me = ps[0]['pat']['v']

    def root(e):
        while isinstance(e, dict):
            k = e.get('k')
            if k in ('var', 'upvar'):
                return e.get('v'), False
            n = e.get('e') or e.get('a')
            if not isinstance(n, dict):
                return None, False
            e = n
        return None, False

    def go(e):
        if isinstance(e, list):
            for x in e:
                go(x)
        elif isinstance(e, dict):
            if e.get('k') in ('assign', 'assignop') and root(e.get('l') or e.get('a'))[0] == me and me:
                out.append(e.get('sp'))
            for k, v in e.items():
                if k not in ('t', 'pat') and isinstance(v, (dict, list)):
                    go(v)
    go(f.get('body'))
    return out


def entries(J, ty):
    return [f for f in J['fns'] if ((f.get('self_ty') or {}).get('d') or '').split('::')[-1] == ty and not f.get('derived') and f.get('body')
            and f.get('kind') != 'Closure' and f['name'] != 'new']


def programs(c):
    """construction histories, with operands as positions"""
    yield [(0, 'input'), (0, 'input'), (0, 'xor', 0, 1), (0, 'and', 0, 2), (0, 'output', 3), (0, 'output', 2), (0, 'output', 0)]
    yield [(0, 'sub'), (1, 'input'), (1, 'input'), (1, 'constant', 1), (1, 'or', 0, 2), (1, 'xor', 3, 1), (1, 'output', 4), (1, 'output', 0),
           (0, 'input'), (0, 'constant', 0), (0, 'module', 1, [1, 0]), (0, 'not', 2), (0, 'output', 4), (0, 'output', 3), (0, 'module', 1, [2, 2]), (0, 'output', 5)]
    yield [(0, 'constant', 1), (0, 'output', 0)]
    yield [(0, 'input'), (0, 'input'), (0, 'output', 0), (0, 'equivalent', 0, 1), (0, 'identity', 2), (0, 'output', 0), (0, 'output', 3), (0, 'output', 3)]
    for i in range(24 if c.thorough else 8):
        yield [s[:-1] for s in random_walk(random.Random(c.seed * 131 + i), 14)]


def history(c, prog):
    H = Hist(c.J)
    for s in prog:
        R = H.step(*s)
        if R is not None and R.st.dead:
            raise Unsupported('construction panics')
    H.W.ip.inline_rec = True
    return H


def state(H, st):
    """what can be observed of every circuit of the history in state st"""
    old = H.st
    H.st = st
    try:
        out = []
        for ci in range(len(H.cs)):
            out += [(f'circuit {ci}: {n}', v) for n, v in c_ref.snapshot(H, ci, False)]
        return out
    finally:
        H.st = old


def differs(a, b):
    for (n, x), (_, y) in zip(a, b):
        if x is not y and c_ref.ground(x) and c_ref.ground(y):
            return f'{n} was {show(x)[:90]} and is {show(y)[:90]}'
    return None


def refute26(c):
    """a history after which evaluating or writing definitely changes something"""
    for prog in programs(c):
        try:
            H = history(c, prog)
            W, ip, nin, nout = H.W, H.W.ip, H.cs[0]['nin'], H.cs[0]['nout']
            before = state(H, H.st)
        except (Unsupported, Missing, IndexError, KeyError) as x:
            c.count('histories not resolved')
            continue
        fn = W.anyfn('eval_output', c_eval.EV, 'BoolEvaluator')
        one = next((f for f in entries(c.J, c_eval.EV) if f['name'] == 'eval_single_output'), None)
        for bits in list(itertools.product((TRUE, FALSE), repeat=min(nin, 3)))[:6]:
            bits = list(bits) + [TRUE] * (nin - len(bits))
            what = f'{[x is TRUE for x in bits]}; {H.desc()}'
            try:
                st = H.st.copy()
                ev = W.refto(st, W.call(st, c_circ.find(W, 'new', c_eval.EV), W.cref(H.cs[0]['cell'])))
                a = W.call(st, fn, ev, W.refto(st, seq(*[el(x) for x in bits])))
                if st.dead:
                    continue
                c.count('ground evaluations')
                d = differs(before, state(H, st))
                if d:
                    return fn, f'after eval_output the circuit has changed: {d}; inputs {what}'
                W.call(st, fn, ev, W.refto(st, seq(*[el(bnot(x)) for x in bits])))
                b = W.call(st, fn, ev, W.refto(st, seq(*[el(x) for x in bits])))
                x, y = Fx.prune(a, ()), Fx.prune(b, ()) if not st.dead else None
                if y is None:
                    return fn, f'eval_output panics when the evaluator has been used before; inputs {what}'
                if x is not y and c_ref.ground(x) and c_ref.ground(y):
                    return fn, f'eval_output gives {show(y)[:80]} with a used evaluator and {show(x)[:80]} with a new one; inputs {what}'
                d = differs(before, state(H, st))
                if d:
                    return fn, f'after three evaluations the circuit has changed: {d}; inputs {what}'
            except Unsupported as x:
                c.count('evaluations not resolved')
        try:
            st = H.st.copy()
            sink = c_write.Sink(ip, st)
            wcell = c_write.new_writer(W, st, W.cref(H.cs[0]['cell']))
            wf, v = c_write.write(W, st, wcell, nin, ip.alloc(st, EMAP))
            if not st.dead:
                c.count('ground writes')
                d = differs(before, state(H, st))
                if d:
                    return wf, f'after writing the circuit has changed: {d}; {H.desc()}'
        except Unsupported as x:
            c.count('writes not resolved')
    return None


@check('C26')
def c26(c):
    c.extra['explanation'] = ('Effect analysis over the call graph: from every function of the evaluator and of the writer no operation that can write a shared place (interior mutability, '
                              'mutable reference into a reference-counted place, statics) may be reachable, trait calls being resolved to every implementation in the crate; the evaluator keeps no state besides '
                              'the handle of the circuit. A reachable write is reported when a ground history shows an observable change, and is undecided otherwise.')
    J = c.J
    open_ = []
    for ty in (c_eval.EV, 'BristolNXAOWriter'):
        roots = entries(J, ty)
        if not roots:
            c.bad(ty, f'public type {ty} has no operations')
            continue
        seen, n, bad = closure(J, roots)
        c.count('functions reached', len(seen))
        c.count('call edges', n)
        if bad:
            f, sp, what, path = bad[0]
            open_.append((ty, f'{what} at {sp} is reachable: {path}', f))
        else:
            c.ok(ty, f'no write to a shared place is reachable from {len(roots)} functions ({len(seen)} functions, {n} call edges)', loc_of(roots[0]))
    a = [x for x in J['adts'] if x['d'].split('::')[-1] == c_eval.EV]
    fs = [t for x in a for v in x['vs'] for t in v['fs']]
    keep = [f for f in fs if (f[1].get('d') or '').split('::')[-1] not in ('BoolCircuitRef', 'PhantomData')]
    sw = [(f, sp) for f in entries(J, c_eval.EV) for sp in selfwrites(J, f)]
    if a and fs and not keep and not sw:
        c.ok('evaluator state', 'holds only the handle of its circuit and never assigns it', None)
    else:
        open_.append(('evaluator state', 'the evaluator keeps a state between evaluations' + (f' (assigned at {sw[0][1]})' if sw else ''), sw[0][0] if sw else None))
    if open_:
        w = refute26(c)
        if w:
            c.bad('read-only', w[1], loc_of(w[0]))
        for name, why, fn in open_:
            c.und(name, why, loc_of(fn) if fn else None)


# ------------------------------------------------------------------------ C25
CHANCE = {'SystemTime': None, 'Instant': None, 'RandomState': None, 'DefaultHasher': None, 'ThreadRng': None}
HASHED = {'HashMap', 'HashSet'}
WALK = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if'}


def chance(J, f):
    """places of a body where something other than the arguments decides"""
    out = []

    def adt(t):
        while isinstance(t, dict) and t.get('k') == 'ref':
            t = t['t']
        return (t or {}).get('d', '').split('::')[-1] if isinstance(t, dict) else ''

    def go(e, sp):
        if isinstance(e, list):
            for x in e:
                go(x, sp)
            return
        if not isinstance(e, dict):
            return
        sp = e.get('sp') or sp
        if isinstance(e.get('d'), str) and 'nm' in e:
            im = ((e.get('im') or {}).get('d') or '').split('::')[-1]
            d = e.get('d') or ''
            if im in HASHED and e['nm'] in WALK:
                out.append((sp, f"the order of {im}::{e['nm']}"))
            if im in CHANCE or d.startswith(('rand::', 'getrandom::', 'std::time::', 'std::env::', 'std::thread::', 'std::process::', 'std::fs::')):
                out.append((sp, f"{im or d}::{e['nm']}"))
            if e['nm'] in ('into_iter', 'extend', 'for_each', 'collect', 'from_iter') and (e.get('tr') or '').split('::')[-1] in ('IntoIterator', 'Extend', 'FromIterator'):
                ts = e.get('ta') or []
                for t in (ts[1:] if e['nm'] == 'extend' else ts):
                    if adt(t) in HASHED and e['nm'] in ('into_iter', 'extend'):
                        out.append((sp, f'the order of a {adt(t)}'))
        if e.get('k') == 'cast' and isinstance(e.get('a'), dict) and (e['a'].get('t') or {}).get('k') in ('ptr', 'rawptr', 'fnptr'):
            out.append((sp, 'an address'))
        for k, v in e.items():
            if k in ('t', 'pat', 'im') or not isinstance(v, (dict, list)):
                continue
            go(v, sp)
    go(f.get('body'), f.get('span'))
    return out


ORDERS = ('insertion', 'reversed', 'rotated')


def run_ordered(c, prog, order):
    """text, values and states of a history when hash tables are walked in an order"""
    import models
    models.HASHORDER = order
    try:
        H = history(c, prog)
        W, ip, nin = H.W, H.W.ip, H.cs[0]['nin']
        out = list(state(H, H.st))
        fn = W.anyfn('eval_output', c_eval.EV, 'BoolEvaluator')
        for bits in list(itertools.product((TRUE, FALSE), repeat=min(nin, 3)))[:4]:
            bits = list(bits) + [TRUE] * (nin - len(bits))
            st = H.st.copy()
            ev = W.refto(st, W.call(st, c_circ.find(W, 'new', c_eval.EV), W.cref(H.cs[0]['cell'])))
            a = W.call(st, fn, ev, W.refto(st, seq(*[el(x) for x in bits])))
            out.append((f'eval_output {[x is TRUE for x in bits]}', UNDEF if st.dead else Fx.prune(a, ())))
        st = H.st.copy()
        sink = c_write.Sink(ip, st)
        wcell = c_write.new_writer(W, st, W.cref(H.cs[0]['cell']))
        wf, v = c_write.write(W, st, wcell, nin, ip.alloc(st, EMAP))
        t = None if st.dead else sink.text(st)
        out.append(('the written text', UNDEF if t is None else lit_of(t)))
        out.append(('write', UNDEF if st.dead else Fx.prune(v, ())))
        return H, fn, wf, out
    finally:
        models.HASHORDER = 'insertion'


def lit_of(t):
    from models import lit
    return lit(t) if isinstance(t, str) else t if isinstance(t, T) else lit(str(t))


def refute25(c):
    import c_read
    for prog in programs(c):
        try:
            runs = [run_ordered(c, prog, o) for o in ORDERS]
        except (Unsupported, Missing, IndexError, KeyError):
            c.count('histories not resolved')
            continue
        c.count('histories compared')
        H, fn, wf, a = runs[0]
        for o, (_, _, _, b) in zip(ORDERS[1:], runs[1:]):
            for (n, x), (_, y) in zip(a, b):
                if x is not y and c_ref.ground(x) and c_ref.ground(y):
                    return wf if 'writ' in n else fn, f'{n} is {show(x)[:120]} or {show(y)[:120]}, depending on the order in which a hash table is walked; {H.desc()}'
    import models
    for text in c_read.CURATED:
        logs = []
        for o in ORDERS:
            models.HASHORDER = o
            try:
                logs.append(read_log(c, text))
            except (Unsupported, Missing):
                break
            finally:
                models.HASHORDER = 'insertion'
        for l in logs[1:]:
            if l[1] is not logs[0][1] and c_ref.ground(l[1]) and c_ref.ground(logs[0][1]):
                return l[0], f'reading {text!r} gives {show(logs[0][1])[:120]} or {show(l[1])[:120]}, depending on the order in which a hash table is walked'
    return None


def read_log(c, text):
    import c_read
    W = c_read.Rd(c.J)
    W.ip.inline_rec = True
    st = W.st.copy()
    rc = W.new(st)
    W.ip.writeref(st, W.ip.ref(W.ccell), mk('adt', 'Log', '', ZERO, ZERO, seq()))
    ls = text.split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    fn, v = W.read(st, rc, seq(*[c_read.okl(c_read.lit(l)) for l in ls]))
    nin, ng, outs = W.log(st)
    return fn, mk('adt', 'tuple', '', nin, ng, outs)


@check('C25')
def c25(c):
    c.extra['explanation'] = ('Effect analysis over every public function: no walk over a hash table, clock, random generator, environment, thread or address may decide anything. A walk over a hash table '
                              'is reported when a ground history gives different results for two orders of the table, and is undecided otherwise.')
    J = c.J
    ids = {f['id']: f for f in J['fns'] if f.get('body')}
    roots = [f for f in J['fns'] if f.get('body') and not f.get('derived') and (f.get('pub') or f.get('trait')) and f.get('kind') != 'Closure']
    seen, n, _ = closure(J, roots)
    c.count('functions reached', len(seen))
    c.count('call edges', n)
    open_ = []
    for g in seen:
        h = chance(J, ids[g])
        for sp, what in h:
            open_.append((ids[g], f'{what} at {sp}'))
    if not open_:
        c.ok('public functions', f'nothing but the arguments decides in {len(seen)} functions reached from {len(roots)} public ones', None)
        return
    w = refute25(c)
    if w:
        c.bad('determinism', w[1], loc_of(w[0]))
    for f, why in open_:
        c.und(f['path'], why, loc_of(f))


# ------------------------------------------------------------------------ C27
def impl(J, tr, name, adt):
    for f in J['fns']:
        if (f.get('trait') or '').split('::')[-1] == tr and f['name'] == name and ((f.get('self_ty') or {}).get('d') or '').split('::')[-1] == adt:
            return f
    raise Missing(f'{tr}::{name} of {adt}')


def mapeq(t, exact=True):
    """decides equalities of literal maps"""
    def go(x):
        if x.op == 'eq':
            a, b = x.args
            if {a.op, b.op} <= {'mset', 'emap'}:
                (d, p), (e, q) = [mindex(m) if m.op == 'mset' else ({}, m) for m in (a, b)]
                if p.op == 'emap' and q.op == 'emap':
                    d = {k: v for k, v in d.items() if v is not NONE}
                    e = {k: v for k, v in e.items() if v is not NONE}
                    if set(d) != set(e):
                        return FALSE
                    r = TRUE
                    for k in d:
                        r = band(r, mapeq(mkeq(d[k], e[k])))
                    return r
            if a.op == 'seq' and b.op == 'seq' and all(g.op == 'el' for g in a.args + b.args):
                if len(a.args) != len(b.args):
                    return FALSE
                return band(*[mapeq(mkeq(g.args[0], h.args[0])) for g, h in zip(a.args, b.args)])
        return None
    for _ in range(3):
        u = rewrite(t, go)
        if u is t:
            break
        t = Fx.prune(u, ())
    return t


PAIRS = [
    ([('input',), ('input',), ('xor', 0, 1), ('output', 2)], [('input',), ('input',), ('xor', 0, 1), ('output', 2)]),
    ([('input',), ('input',), ('xor', 0, 1), ('output', 2)], [('input',), ('input',), ('xor', 0, 1), ('output', 1)]),
    ([('input',), ('input',), ('xor', 0, 1), ('output', 2)], [('input',), ('input',), ('xor', 1, 0), ('output', 2)]),
    ([('input',), ('input',), ('xor', 0, 1), ('output', 2)], [('input',), ('input',), ('and', 0, 1), ('output', 2)]),
    ([('input',), ('input',), ('or', 0, 1), ('output', 2)], [('input',), ('input',), ('and', 0, 1), ('output', 2)]),
    ([('input',), ('input',), ('or', 0, 1)], [('input',), ('input',), ('or', 0, 0)]),
    ([('input',), ('input',), ('or', 0, 1)], [('input',), ('input',), ('or', 1, 1)]),
    ([('input',), ('input',), ('and', 0, 1)], [('input',), ('input',), ('and', 1, 1)]),
    ([('input',), ('constant', 1)], [('input',), ('constant', 0)]),
    ([('input',), ('constant', 1)], [('constant', 1), ('input',)]),
    ([('input',), ('not', 0)], [('input',)]),
    ([('input',), ('input',), ('not', 0)], [('input',), ('input',), ('not', 1)]),
    ([('input',), ('output', 0)], [('input',)]),
    ([('input',), ('output', 0)], [('input',), ('output', 0), ('output', 0)]),
    ([('input',), ('input',), ('output', 0), ('output', 1)], [('input',), ('input',), ('output', 1), ('output', 0)]),
    ([('input',), ('constant', 0), ('input',)], [('input',), ('input',), ('constant', 0)]),
    ([], []),
    ([], [('input',)]),
    ([], [('constant', 0)]),
    ([('input',), ('module', 1, [0, 0])], [('input',), ('module', 1, [0, 0])]),
    ([('input',), ('module', 1, [0, 0])], [('input',), ('module', 2, [0])]),
    ([('input',), ('input',), ('module', 1, [0, 1])], [('input',), ('input',), ('module', 1, [1, 0])]),
    ([('input',), ('module', 2, [0])], [('input',), ('module', 3, [0])]),
]
LIB = [(0, 'sub'), (1, 'input'), (1, 'input'), (1, 'xor', 0, 1), (1, 'output', 2), (0, 'sub'), (2, 'input'), (2, 'output', 0), (0, 'sub'), (3, 'input'), (3, 'output', 0)]


def ground_eq(c, fn, name='eq'):
    """None or what is definitely wrong with circuit equality on two circuits
    over one module storage"""
    pairs = list(PAIRS)
    rng = random.Random(c.seed * 17 + 3)
    for _ in range(30 if c.thorough else 10):
        a = [s[1:-1] for s in random_walk(rng, 9) if s[0] == 0 and s[1] in ('input', 'constant', 'not', 'xor', 'and', 'or')]
        n = 0
        ok_ = []
        for s in a:
            if all(x < n for x in s[1:] if s[0] != 'constant'):
                ok_.append(s)
                n += 1
        pairs.append((ok_, ok_))
        if len(ok_) > 1:
            k = rng.randrange(len(ok_))
            pairs.append((ok_, ok_[:k]))
    for p, q in pairs:
        try:
            H = Hist(c.J)
            for s in LIB + [(0, 'sub'), (0, 'sub')] + [(4,) + tuple(s) for s in p] + [(5,) + tuple(s) for s in q]:
                R = H.step(*s)
                if R is not None and R.st.dead:
                    raise Unsupported('construction')
            W = H.W
            same = [(n, x, y) for (n, x), (_, y) in zip(c_ref.snapshot(H, 4, False), c_ref.snapshot(H, 5, False)) if not n.startswith('num_const')]
            ga, gb_ = len(c_ref.snapshot(H, 4, False)), len(c_ref.snapshot(H, 5, False))
            if any(not (c_ref.ground(x) and c_ref.ground(y)) for _, x, y in same):
                continue
            diff = [n for n, x, y in same if x is not y]
            if not diff and ga != gb_:
                diff = ['the number of gates']
            for a, b, flip in ((4, 5, ''), (5, 4, ' (swapped)')):
                st = H.st.copy()
                r = W.call(st, fn, W.ip.ref(H.cs[a]['cell']), W.ip.ref(H.cs[b]['cell']))
                r = UNDEF if st.dead else mapeq(Fx.prune(r, ()))
                c.count('ground comparisons')
                d = f'circuits built by {p} and {q} over the same modules{flip}'
                want = (TRUE if not diff else FALSE) if name == 'eq' else (FALSE if not diff else TRUE)
                if r in (TRUE, FALSE) and r is not want:
                    return f"{d} {'compare equal' if (r is TRUE) == (name == 'eq') else 'compare different'} although {'all observations agree' if not diff else diff[0] + ' differs'}"
        except (Unsupported, Missing, IndexError, KeyError):
            c.count('comparisons not resolved')
    return None


def atoms(t, out):
    if t.op == 'and':
        for x in t.args:
            atoms(x, out)
    else:
        out.append(t)
    return out


@check('C27')
def c27(c):
    c.extra['explanation'] = ('The equality of circuits is interpreted on two circuits in arbitrary states: it must imply that every observation agrees and hold of a state and itself; equality of ids, gates and '
                              'handles is structural; sums, zero and text of ids are those of their numbers. Open obligations are decided on ground circuits.')
    J = c.J
    open_ = []
    # ids
    for t in ('WireId', 'GateId', 'ModuleId'):
        try:
            W = World(J)
            x, y = sym('x', True), sym('y', True)
            mkid = lambda v: mk('adt', W.d[t], t, v)
            f = impl(J, 'PartialEq', 'eq', t)
            if f.get('derived'):
                c.ok(f'{t}: ==', 'derived', loc_of(f))
            else:
                idop(c, W, open_, f, f'{t}: == is equality of the numbers', [mkid(x), mkid(y)], lambda v: [(v, eq0(sub(x, y)))], (x, y), refs=True)
            h = next((g for g in J['fns'] if (g.get('trait') or '').split('::')[-1] == 'Hash' and ((g.get('self_ty') or {}).get('d') or '').split('::')[-1] == t), None)
            if h is not None and h.get('derived') != f.get('derived'):
                open_.append((f'{t}: hash', 'equality and hash are not both derived', h))
            if t == 'ModuleId':
                continue
            num = lambda v: getfield(v, t, 0, '0')
            idop(c, W, open_, impl(J, 'Add', 'add', t), f'{t}: + adds the numbers', [mkid(x), mkid(y)], lambda v: [(num(v), add(x, y))], (x, y))
            idop(c, W, open_, impl(J, 'AddAssign', 'add_assign', t), f'{t}: += adds the numbers', [mkid(x), mkid(y)], None, (x, y), assign=(num, add(x, y)))
            idop(c, W, open_, impl(J, 'Zero', 'zero', t), f'{t}: zero is 0', [], lambda v: [(num(v), ZERO)], ())
            idop(c, W, open_, impl(J, 'Zero', 'is_zero', t), f'{t}: is_zero tells 0', [mkid(x)], lambda v: [(v, eq0(x))], (x,), refs=True)
        except Missing as m:
            c.bad(t, f'{m} is missing')
    # gates
    for t in ('NXAOBoolGate', 'InputGate', 'ConstGate', 'NotGate', 'XorGate', 'AndGate', 'OrGate', 'ModuleGate', 'BoolCircuitRef'):
        try:
            f = impl(J, 'PartialEq', 'eq', t)
        except Missing as m:
            c.bad(t, f'{m} is missing')
            continue
        if f.get('derived'):
            c.ok(f'{t}: ==', 'derived: the same variant with equal fields', loc_of(f))
        elif t in ('NXAOBoolGate', 'BoolCircuitRef'):
            open_.append((f'{t}: ==', 'not derived', f))
        else:
            W = World(J)
            fs = list(Tm.ADTS[W.d[t]].values())[0] if t in W.d else None
            if not fs:
                open_.append((f'{t}: ==', 'fields not known', f))
                continue
            a = [sym(f'a_{n}') for n in fs]
            b = [sym(f'b_{n}') for n in fs]
            idop(c, W, open_, f, f'{t}: == compares every field', [mk('adt', W.d[t], t, *a), mk('adt', W.d[t], t, *b)], lambda v: [(v, band(*[mkeq(p, q) for p, q in zip(a, b)]))], (), refs=True)
    # circuits
    try:
        f = impl(J, 'PartialEq', 'eq', 'NXAOBoolCircuit')
    except Missing as m:
        c.bad('NXAOBoolCircuit', f'{m} is missing')
        return finish(c, open_, None)
    name = 'NXAOBoolCircuit: =='
    n0 = len(open_)
    if f.get('derived'):
        open_.append((name, 'derived', f))
    else:
        try:
            W = World(J)
            st = W.st.copy()
            st.force()
            scell, sref = W.storage(st)
            ca = W.circuit(st, {'module_storage': sref}, 'a.')
            cb = W.circuit(st, {'module_storage': sref}, 'b.')
            s = st.copy()
            r = W.call(s, f, W.ip.ref(ca), W.ip.ref(ca))
            if s.dead or prove(tuple(s.pc), r):
                open_.append((name, 'not implied: a circuit equals itself', f))
            else:
                c.ok(f'{name} is reflexive', 'holds of every state and itself', loc_of(f))
            s = st.copy()
            r = W.call(s, f, W.ip.ref(ca), W.ip.ref(cb))
            sub_ = {}
            for x in atoms(r, []):
                if x.op == 'eq':
                    p, q = x.args
                    sub_[q] = p
                elif x.op == 'eq0' or x.op == 'ge0':
                    pass
            ex = tuple(atoms(r, []))
            K = sym('K', True)
            for o, key in (('get_gate', 'gid'), ('get_depended_gates', 'gid'), ('input_to_gate_id', 'wid'), ('output_to_gate_id', 'wid'), ('input_len', None), ('output_len', None),
                           ('num_wire', None), ('num_gate', None), ('get_const_gates', None)):
                args = [getattr(W, key)(K)] if key else []
                x = W.obs(s, ca, o, *args)
                y = rewrite(W.obs(s, cb, o, *args), lambda z: sub_.get(z))
                x = rewrite(x, lambda z: sub_.get(z))
                lv = equal(tuple(s.pc) + ex, x, y)
                c.count('observations compared')
                if lv:
                    open_.append((f'{name} implies equal {o}', f'{show(x)[:100]} may differ from {show(y)[:100]}', f))
                else:
                    c.ok(f'{name} implies equal {o}', 'for every two states and every key', loc_of(f))
            # and nothing else may be compared
            for x in ex:
                if x.op not in ('eq', 'eq0', 'true'):
                    open_.append((name, f'{show(x)[:100]} is no equality', f))
        except Unsupported as x:
            open_.append((name, str(x), f))
    w = None
    if len(open_) > n0:
        w = ground_eq(c, f)
    finish(c, open_, (f, w) if w else None)
    ne = next((g for g in J['fns'] if (g.get('trait') or '').split('::')[-1] == 'PartialEq' and g['name'] == 'ne' and not g.get('derived')
               and ((g.get('self_ty') or {}).get('d') or '').endswith('NXAOBoolCircuit')), None)
    if ne is not None:
        w = ground_eq(c, ne, 'ne')
        if w:
            c.bad('NXAOBoolCircuit: !=', w, loc_of(ne))
        else:
            c.und('NXAOBoolCircuit: !=', 'written by hand', loc_of(ne))


def finish(c, open_, w):
    if w:
        c.bad('NXAOBoolCircuit: ==', w[1], loc_of(w[0]))
    for name, why, fn in open_:
        c.und(name, why, loc_of(fn) if fn else None)


GROUND = [(0, 0), (1, 0), (0, 1), (5, 7), (7, 5), (3, 3), (2 ** 40, 1), (12, 255), (255, 256)]


def idop(c, W, open_, f, name, args, post, syms, refs=False, assign=None):
    """a function on ids against its closed form, for all numbers"""
    def run(vals):
        st = W.st.copy()
        st.force()
        xs = [rewrite(a, lambda z: vals.get(z)) if vals else a for a in args]
        cell = W.ip.alloc(st, xs[0]) if assign else None
        ys = [W.ip.ref(cell)] + xs[1:] if assign else [W.refto(st, x) for x in xs] if refs else xs
        mark = len(W.ip.obls)
        v = W.call(st, f, *ys)
        if st.dead:
            return st, [(UNDEF, UNDEF)], []
        prs = [(assign[0](W.ip.readcell(st, cell)), assign[1])] if assign else post(v)
        return st, prs, W.ip.obls[mark:]
    try:
        st, prs, _ = run(None)
        if all(a is not UNDEF and not equal(tuple(st.pc), a, b) for a, b in prs):
            c.ok(name, 'for all numbers (no wrap-around)', loc_of(f))
            return
        why = '; '.join(f'{show(a)[:80]} differs from {show(b)[:80]}' for a, b in prs)
        for pair_ in GROUND:
            vals = dict(zip(syms, [I(x) for x in pair_]))
            st, prs, _ = run(vals)
            for a, b in prs:
                b = rewrite(b, lambda z: vals.get(z))
                c.count('ground instances')
                if a is UNDEF or (a is not b and c_ref.ground(a) and c_ref.ground(b)):
                    c.bad(name, f"for {', '.join(str(x) for x in pair_[:len(syms)])} it gives {'a panic' if a is UNDEF else show(a)[:60]}, not {show(b)[:60]}", loc_of(f))
                    return
        open_.append((name, why, f))
    except Unsupported as x:
        open_.append((name, str(x), f))
