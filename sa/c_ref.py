"""C07: shared circuit handles.  C08: module storage."""
import random
from terms import *
import terms as Tm
import facts as Fx
from interp import Unsupported, St
from core import check, loc_of
from build import Missing, find_fn
from circ import Conc
from c_circ import World, Hist, OPS, TR, find, idn, okv, random_walk, _with
from prove import equal, prove

CONST = {'input_len': '', 'output_len': '', 'num_wire': '', 'num_gate': '', 'num_const': '', 'get_const_gates': '',
         'input_to_gate_id': 'W', 'output_to_gate_id': 'W', 'get_gate': 'G', 'get_module': 'M', 'get_depended_gates': 'G'}
MUT = {'input': '', 'output': 'g', 'constant': 'b', 'not': 'G', 'xor': 'GG', 'and': 'GG', 'or': 'GG', 'equivalent': 'GG',
       'identity': 'G', 'register_module': 'R', 'sub_circuit': '', 'module': 'ML'}
ALL = {**CONST, **MUT}
RF = 'BoolCircuitRef'


def inst_ty(W, fn):
    """type arguments of a handle operation on the concrete circuit"""
    t = lambda n: {'k': 'adt', 'd': W.d[n], 'p': W.d[n], 'a': []}
    gs = fn.get('gt', [])
    return dict(zip(gs, (t('NXAOBoolGate'), t('NXAOBoolCircuit')))) if len(gs) == 2 else {}


def mkargs(W, st, sig):
    """(arguments, their values)"""
    args, vals = [], []
    for i, c in enumerate(sig):
        if c in 'Gg':
            v = W.gid(sym('a%d' % i, True))
        elif c == 'W':
            v = W.wid(sym('w', True))
        elif c == 'M':
            v = W.mid(sym('m', True))
        elif c == 'b':
            v = sym('v')
        elif c == 'L':
            v = sym('ids')
        elif c == 'R':
            v = W.cref(W.ip.alloc(st, sym('other')))
        vals.append(v)
        args.append(v if c in 'gb' else W.refto(st, v))
    return args, vals


def forward(c, J, name):
    """the handle's operation on a circuit of any type: one call of the same
    operation, same arguments, result handed back"""
    W = Conc(J)
    st = W.st
    cell = W.ip.alloc(st, sym('circuit'))
    bad = []

    def trait(ip, s, tr, nm, args, selfty, e):
        if tr.split('::')[-1] != TR:
            return NotImplemented
        r = args[0]
        for _ in range(3):
            v = ip.readref(s, r)
            if v.op in ('sym', 'post'):
                break
            r = v if v.op == 'ref' else ip.ref(getfield(v, '', 0, '0').args[0])
        vals = [ip.deref_val(s, a) for a in args[1:]]
        if nm in MUT:
            ip.writeref(s, r, mk('post', nm, v, *vals))
        elif nm not in CONST:
            raise Unsupported('operation ' + nm)
        return mk('res', nm, v, *vals)
    W.ip.trait_model = trait
    fn = find_fn(J, name, RF)
    args, vals = mkargs(W, st, ALL[name])
    s = st.copy()
    v = W.call(s, fn, W.refto(s, W.cref(cell)), *args)
    if s.dead:
        return fn, ['never returns']
    C0 = sym('circuit')
    if equal(s.pc, v, mk('res', name, C0, *vals)):
        bad.append('result is ' + show(v)[:150])
    want = mk('post', name, C0, *vals) if name in MUT else C0
    got = W.ip.readcell(s, cell)
    if got is not want and equal(s.pc, got, want):
        bad.append('effect is ' + show(got)[:150])
    return fn, bad


def concrete(c, J, name):
    """the handle's operation and the direct one on an arbitrary concrete circuit"""
    W = World(J)
    st = W.st.copy()
    st.force()
    cell = W.circuit(st)
    args, vals = mkargs(W, st, ALL[name])
    a, b = st.copy(), st.copy()
    href = W.refto(b, W.cref(cell))
    n0 = W.ip.ncell
    try:
        d = W.fn(name, trait=TR)
    except Missing:
        d = W.fn(name)
    va = W.call(a, d, W.ip.ref(cell), *args)
    W.ip.ncell = n0
    f = find_fn(J, name, RF)
    vb = W.call(b, f, href, *args, ty=inst_ty(W, f))
    if a.dead or b.dead:
        return a.dead == b.dead
    if equal((), va, vb):
        return False
    for k in list(st.cells):
        if isinstance(k, int):
            x, y = W.ip.readcell(a, k), W.ip.readcell(b, k)
            if x is not y and equal((), x, y):
                return False
    return True


class HandleHist(Hist):
    """the same history through shared handles"""

    def __init__(self, J, clone=False):
        super().__init__(J)
        self.clone = clone

    def step(self, ci, op, *a, note=True):
        W, st = self.W, self.st
        C = self.cs[ci]
        orig = W.fn
        h = C.get('h')
        if h is None:
            h = C['h'] = W.cref(C['cell'])
        if self.clone:
            f = find_fn(W.J, 'clone', RF)
            h = W.call(st, f, W.refto(st, h), ty=inst_ty(W, f))
        ref = W.refto(st, h)
        call = W.call

        def fn(name, adt='NXAOBoolCircuit', trait=None):
            return find_fn(W.J, name, RF)

        def through(s, f, x, *args, **k):
            if x.op == 'ref' and x.args == (C['cell'],):
                x = ref
                k = dict(k, ty=inst_ty(W, f))
            return call(s, f, x, *args, **k)
        W.fn, W.call = fn, through
        try:
            return super().step(ci, op, *a, note=note)
        finally:
            del W.fn, W.call


def snapshot(H, ci, handle):
    """everything observable about one circuit, as ground terms"""
    W, st, C = H.W, H.st.copy(), H.cs[ci]
    out = []

    def obs(name, *a):
        s = st.copy()
        if handle:
            f, x = find_fn(W.J, name, RF), W.refto(s, W.cref(C['cell']))
        else:
            f, x = W.anyfn(name, 'NXAOBoolCircuit', TR), W.ip.ref(C['cell'])
        v = W.call(s, f, x, *[W.refto(s, y) for y in a], ty=inst_ty(W, f) if handle else None)
        v = UNDEF if s.dead else Fx.prune(v, ())
        out.append((name + ''.join('(%s)' % show(y) for y in a), norm(v)))
    for n in ('input_len', 'output_len', 'num_wire', 'num_gate', 'num_const', 'get_const_gates'):
        obs(n)
    ids = list(C['ids'])
    todo, done = ids + [W.gid(I(len(ids) + 77))], set()
    while todo:
        g = todo.pop(0)
        if g in done or len(done) > 200:
            continue
        done.add(g)
        obs('get_gate', g)
        # gates made on the way are reached through the operands
        todo += [x for x in subterms(out[-1][1], set()) if x.op == 'adt' and x.args[0] == g.args[0] and x not in done and not free_syms(x)]
        obs('get_depended_gates', g)
    for k in range(C['nin'] + C['nout'] + 2):
        obs('input_to_gate_id', W.wid(I(k)))
        obs('output_to_gate_id', W.wid(I(k)))
    return out


def norm(v):
    """cells are renamed away"""
    return rewrite(v, lambda x: mk('rc', 0) if x.op == 'rc' else None)


def ground(v):
    """fully decided"""
    return not any(x.op in ('sym', 'ite', 'mget', 'at', 'pointee', 'undef') for x in subterms(v, set()))


def refute7(c, name):
    """a ground history on which the handle and the circuit differ definitely"""
    base = [(0, 'sub'), (1, 'input'), (1, 'input'), (1, 'constant', 1), (1, 'not', 1), (1, 'xor', 0, 3), (1, 'output', 4), (1, 'output', 0),
            (0, 'input'), (0, 'input'), (0, 'constant', 1), (0, 'constant', 0), (0, 'not', 0), (0, 'identity', 1)]
    base += [(0, o, x, y) for o in ('xor', 'and', 'or', 'equivalent') for x, y in ((0, 1), (3, 1), (2, 2), (1, 2))]
    base += [(0, 'module', 1, [1, 0]), (0, 'output', 6), (0, 'output', 0), (0, 'output', 9), (0, 'output', 6), (0, 'output', 99), (0, 'input'), (0, 'module', 1, [8, 8])]
    progs = [base] + [[s[:-1] for s in random_walk(random.Random(c.seed * 31 + i), 16)] for i in range(25)]
    for prog in progs:
        for clone in (False, True):
            A, B = Hist(c.J), HandleHist(c.J, clone)
            try:
                for s in prog:
                    ra, rb = A.step(*s), B.step(*s)
                    c.count('steps compared')
                    if (ra is None) != (rb is None):
                        break
                    if ra is not None:
                        if ra.st.dead or rb.st.dead:
                            if ra.st.dead != rb.st.dead:
                                return f"{s[1]} through a handle {'panics' if rb.st.dead else 'does not panic'}; {A.desc()}"
                            break
                        x, y = norm(Fx.prune(ra.v, ())), norm(Fx.prune(rb.v, ()))
                        if x is not y and ground(x) and ground(y):
                            return f'{s[1]} returns {show(y)[:80]} through a handle and {show(x)[:80]} directly; {A.desc()}'
                        if s[1] == 'output' and okv(x) is not okv(y):
                            break
                for ci in range(len(A.cs)):
                    sa, sb, sc = snapshot(A, ci, False), snapshot(B, ci, False), snapshot(A, ci, True)
                    for (n1, x), (n2, y), (n3, z) in zip(sa, sb, sc):
                        if x is not y and ground(x) and ground(y):
                            return f'{n1} gives {show(y)[:80]} after construction through a handle and {show(x)[:80]} after direct construction; {A.desc()}'
                        if x is not z and ground(x) and ground(z):
                            return f'{n1} gives {show(z)[:80]} through a handle and {show(x)[:80]} directly; {A.desc()}'
            except (Unsupported, IndexError, KeyError):
                continue
    return None


@check('C07')
def c07(c):
    c.extra['explanation'] = ('Each operation of the shared handle is interpreted over an uninterpreted circuit type: the summary must be one call of the same operation on the referred circuit, '
                              'same arguments, result handed back and no other effect. Cloning must keep the referred cell. Where that syntactic form is not met, the summaries of the handle and of the '
                              'direct operation on an arbitrary concrete circuit are compared, and a violation is reported with a ground history on which they definitely differ.')
    open_ = []
    for name in ALL:
        try:
            fn, bad = forward(c, c.J, name)
        except Missing as x:
            c.bad(name, f'public operation {x} is missing')
            continue
        except Unsupported as x:
            fn, bad = None, ['not summarised: ' + str(x)]
        c.count('handle operations')
        if not bad:
            c.ok(name, 'one call of the same operation, same arguments, result and effect handed back', loc_of(fn))
            continue
        try:
            if concrete(c, c.J, name):
                c.ok(name, 'same summary as the direct operation on every concrete circuit', loc_of(fn))
                continue
        except (Unsupported, Missing):
            pass
        open_.append((name, bad, fn))
    # aliasing
    for name, adt in (('clone', RF), ('new', RF), ('to_ref', 'NXAOBoolCircuit')):
        try:
            f = find_fn(c.J, name, adt, TR if name == 'to_ref' else None)
            W = Conc(c.J)
            st = W.st
            val = mk('adt', W.d['NXAOBoolCircuit'], 'NXAOBoolCircuit', *W.symfields(W.fty, 'c.'))
            cell = W.ip.alloc(st, val)
            v = W.call(st, f, W.refto(st, W.cref(cell)) if name == 'clone' else val)
            rc = getfield(v, '', 0, '0')
            good = rc.op == 'rc' and (rc.args[0] == cell if name == 'clone' else W.ip.readcell(st, rc.args[0]) is val)
            if rc.op == 'rc' and good:
                c.ok(name, 'refers to the circuit it was made from', loc_of(f))
            elif rc.op == 'rc' and name == 'clone':
                c.bad(name, 'the clone refers to a different cell: changes through one are not seen through the other', loc_of(f))
            else:
                open_.append((name, ['refers to ' + show(rc)[:100]], f))
        except Missing as x:
            c.bad(name, f'public operation {x} is missing')
        except Unsupported as x:
            open_.append((name, [str(x)], None))
    if open_:
        w = refute7(c, None)
        if w:
            c.bad('handle', w, loc_of(open_[0][2]))
        for name, bad, fn in open_:
            c.und(name, '; '.join(bad), loc_of(fn))


# ---------------------------------------------------------------------- C08
MS = 'ModuleStorage'


def storage_state(W, st):
    """an arbitrary storage and the number of ids it has handed out"""
    cell, ref = W.storage(st)
    return cell, ref


@check('C08')
def c08(c):
    c.extra['explanation'] = ('Registration, lookup and sub-circuit creation are summarised on an arbitrary storage satisfying the invariant "every id with an entry is below the next id"; '
                              'the summaries must preserve it, return the next id, register the given shared circuit itself and leave other entries alone. Ground histories refute.')
    J = c.J
    open_ = []

    def need(name, fn, st, g, extra=()):
        lv = prove(tuple(st.pc) + tuple(extra), g)
        if lv:
            open_.append((name, 'not implied: ' + show(lv[0][1])[:200], fn))
        else:
            c.ok(name, 'follows from the summary', loc_of(fn))

    def same(name, fn, st, a, b, extra=()):
        lv = equal(tuple(st.pc) + tuple(extra), a, b)
        if lv:
            open_.append((name, f'{show(a)[:150]} differs from {show(b)[:150]}', fn))
        else:
            c.ok(name, 'equal summaries', loc_of(fn))
    for adt in (MS, 'ModuleStorageRef'):
        try:
            W = Conc(J)
            st = W.st.copy()
            reg, get, num = (find_fn(J, n, adt) for n in ('register_module', 'get_module', 'num_module'))
            cell, ref = W.storage(st)
            me = (lambda s: W.ip.ref(cell)) if adt == MS else (lambda s: W.refto(s, ref))

            def obs(s, fn, *a):
                s = s.copy()
                return W.call(s, fn, me(s), *[W.refto(s, x) for x in a])

            def nxt(s):
                s = s.copy()
                h = W.cref(W.ip.alloc(s, sym('probe')))
                return getfield(W.call(s, reg, me(s), W.refto(s, h)), 'ModuleId', 0, '0')
            K = sym('K', True)
            n0 = nxt(st)
            # invariant instance: nothing registered at or beyond the next id
            pre = st.copy()
            h = W.cref(W.ip.alloc(st, sym('circ')))
            rc = getfield(h, '', 0, '0')
            mid = W.call(st, reg, me(st), W.refto(st, h))
            n1 = nxt(st)
            i = getfield(mid, 'ModuleId', 0, '0')
            need(f'{adt}: registered id is not below the ids handed out before', reg, st, le(n0, i))
            need(f'{adt}: registered id is below the next id', reg, st, lt(i, n1))
            need(f'{adt}: next id never decreases', reg, st, le(n0, n1))
            got = obs(st, get, mid)
            same(f'{adt}: lookup returns the registered circuit itself', get, st, got, ok(h))
            kk = W.mid(K)
            same(f'{adt}: other entries unchanged', reg, _with(st, [bnot(eq0(sub(K, i)))]), obs(st, get, kk), obs(pre, get, kk))
            same(f'{adt}: lookup changes nothing', get, st, W.ip.readcell(st, cell), (lambda s: (W.call(s, get, me(s), W.refto(s, kk)), W.ip.readcell(s, cell))[1])(st.copy()))
            v = obs(st, get, kk)
            same(f'{adt}: num_module counts registrations', num, st, obs(st, num), add(obs(pre, num), ONE))
            # empty storage
            s0 = St()
            f0 = find_fn(J, 'new', adt)
            v0 = W.call(s0, f0)
            r0 = W.refto(s0, v0)
            s1 = s0.copy()
            g0 = W.call(s1, get, r0, W.refto(s1, kk))
            need(f'{adt}: a new storage knows no id', f0, s1, isvar(g0, 'Err'))
            e = getfield(g0, 'Err', 0, '0')
            same(f'{adt}: an unknown id is the error UnknownModule of that id', get, s1, e, Tm.adt(W.d['BoolCircuitError'], 'UnknownModule', kk))
            same(f'{adt}: a new storage counts zero', num, s1, W.call(s1.copy(), num, r0), ZERO)
            if adt != MS:
                cl = find_fn(J, 'clone', adt)
                v = W.call(st, cl, W.refto(st, ref))
                if getfield(v, '', 0, '0') is getfield(ref, '', 0, '0'):
                    c.ok('clone of a storage handle', 'same storage', loc_of(cl))
                elif getfield(v, '', 0, '0').op == 'rc':
                    c.bad('clone of a storage handle', 'the clone refers to a different storage', loc_of(cl))
                else:
                    open_.append(('clone of a storage handle', show(v)[:100], cl))
        except Missing as x:
            c.bad(adt, f'public operation {x} is missing')
        except Unsupported as x:
            open_.append((adt, 'not summarised: ' + str(x), None))
    # through a circuit
    try:
        W = World(J)
        st = W.st.copy()
        st.force()
        cell = W.circuit(st)
        regf, subf = W.fn('register_module', trait=TR), W.fn('sub_circuit', trait=TR)
        getf = W.anyfn('get_module', 'NXAOBoolCircuit', TR)
        me = W.ip.ref(cell)
        K = W.mid(sym('K', True))

        def obs(s, m):
            s = s.copy()
            return W.call(s, getf, me, W.refto(s, m))
        h = W.cref(W.ip.alloc(st, sym('circ')))
        a = st.copy()
        mid = W.call(a, regf, me, W.refto(a, h))
        same('register_module on a circuit: lookup returns that circuit', regf, a, obs(a, mid), ok(h))
        same('register_module on a circuit: other entries unchanged', regf, _with(a, [bnot(eq0(sub(idm(K), idm(mid))))]), obs(a, K), obs(st, K))
        b = st.copy()
        r = W.call(b, subf, me)
        mid, ref = getfield(r, '', 0), getfield(r, '', 1)
        same('sub_circuit: lookup returns the new circuit', subf, b, obs(b, mid), ok(ref))
        rc = getfield(ref, '', 0, '0')
        if rc.op != 'rc' or not isinstance(rc.args[0], int) or rc.args[0] == cell or rc.args[0] in st.cells:
            open_.append(('sub_circuit: a new circuit', show(rc)[:100], subf))
        else:
            c.ok('sub_circuit: a new circuit', 'freshly allocated', loc_of(subf))
            # shared storage: a registration through one is seen through the other
            x = W.cref(W.ip.alloc(b, sym('third')))
            d = b.copy()
            m2 = W.call(d, regf, W.ip.ref(rc.args[0]), W.refto(d, x))
            same('sub_circuit: shares the storage of its parent', subf, d, obs(d, m2), ok(x))
            need('sub_circuit: ids of parent and child do not collide', subf, d, bnot(eq0(sub(idm(mid), idm(m2)))))
            e = b.copy()
            for n in ('input_len', 'output_len', 'num_gate'):
                same(f'sub_circuit: the new circuit is empty ({n})', subf, e, W.obs(e, rc.args[0], n), ZERO)
    except Missing as x:
        c.bad('circuit', f'public operation {x} is missing')
    except Unsupported as x:
        open_.append(('module operations of a circuit', 'not summarised: ' + str(x), None))
    if open_:
        w = refute8(c)
        if w:
            c.bad('module storage', w[0], loc_of(w[1]))
        for name, why, fn in open_:
            c.und(name, why, loc_of(fn))


def idm(m):
    return getfield(m, 'ModuleId', 0, '0')


def refute8(c):
    """ground histories of registrations and lookups"""
    J = c.J
    import c_eval
    import loops
    sizes = c_eval.literals(J, ('bool_circuit',), 5000)[:4]
    plans = [(adt, seed, None) for adt in (MS, 'ModuleStorageRef', 'NXAOBoolCircuit', RF) for seed in range(12)]
    plans += [(adt, seed, k) for k in sizes for adt, seed in ((MS, 0), ('NXAOBoolCircuit', 1), (RF, 2)) if adt == MS or k <= 1100]
    for adt, seed, size in plans:
        if True:
            rng = random.Random(c.seed * 100 + seed)
            try:
                W = World(J)
                call0 = W.call
                W.call = lambda s, f, *a, W=W, call0=call0: call0(s, f, *a, ty=inst_ty(W, f) if adt == RF else None)
                st = W.st.copy()
                st.force()
                sref = W.call(st, find(W, 'new', 'ModuleStorageRef'))
                if adt in (MS, 'ModuleStorageRef'):
                    me = [W.refto(st, W.call(st, find(W, 'new', adt)))]
                    fr = lambda n: find_fn(J, n, adt)
                else:
                    x = W.ip.alloc(st, W.call(st, find(W, 'new', 'NXAOBoolCircuit'), sref))
                    me = [W.ip.ref(x) if adt == 'NXAOBoolCircuit' else W.refto(st, W.cref(x))]
                    fr = lambda n: W.fn(n, trait=TR) if adt == 'NXAOBoolCircuit' else find_fn(J, n, RF)
                table, log, given = [], [], set()
                for step in range(size + 4 if size else rng.randrange(2, 40)):
                    who = rng.randrange(len(me))
                    kind = rng.random()
                    if size:
                        who, kind = 0, (step % 8 == 5) * 0.9 + 0.05 if step > size - 3 else 0.9
                    if kind < 0.3 and adt in ('NXAOBoolCircuit', RF):
                        r = W.call(st, fr('sub_circuit'), me[who])
                        mid, h = getfield(r, '', 0), getfield(r, '', 1)
                        log.append(f'#{who}.sub_circuit()')
                        cc = getfield(h, '', 0, '0').args[0]
                        me.append(W.ip.ref(cc) if adt == 'NXAOBoolCircuit' else W.refto(st, h))
                    else:
                        if table and (rng.random() < 0.2 or size and step % 64):
                            h = rng.choice(table)[1]
                            log.append(f'#{who}.register_module(an already registered circuit)')
                        else:
                            h = W.cref(W.ip.alloc(st, W.call(st, find(W, 'new', 'NXAOBoolCircuit'), sref)))
                            log.append(f'#{who}.register_module(new)')
                        mid = W.call(st, fr('register_module'), me[who], W.refto(st, h))
                    c.count('ground registrations')
                    if st.dead:
                        return (f"panics after {', '.join(log[-30:])} on {adt}", fr('register_module'))
                    k = isint(idm(mid))
                    if k is None:
                        break
                    if size and k not in given:
                        given.add(k)
                    for k2, h2 in table if not size or k in given and len(given) <= len(table) else ():
                        if k2 == k:
                            return (f"id {k} is handed out twice: {', '.join(log[-30:])} on {adt}", fr('register_module'))
                    table.append((k, h))
                    if size and step < size - 2:
                        continue
                    some = table if not size else table[:2] + table[len(table) // 2:len(table) // 2 + 1] + table[-4:]
                    for k2, h2 in some + [(max(t[0] for t in table) + 1 + rng.randrange(3), None)]:
                        s = st.copy()
                        g = Fx.prune(W.call(s, fr('get_module'), me[rng.randrange(len(me))], W.refto(s, W.mid(I(k2)))), ())
                        if s.dead:
                            return (f"looking up id {k2} panics after {', '.join(log[-30:])} on {adt}", fr('get_module'))
                        if g.op != 'adt':
                            continue
                        if h2 is None:
                            if g.args[1] == 'Ok':
                                return (f"unknown id {k2} is found after {', '.join(log[-30:])} on {adt}", fr('get_module'))
                            continue
                        if g.args[1] == 'Err':
                            return (f"id {k2} is not found after {', '.join(log[-30:])} on {adt}", fr('get_module'))
                        rc, want = getfield(okv(g), '', 0, '0'), getfield(h2, '', 0, '0')
                        if rc.op == 'rc' and want.op == 'rc' and rc is not want:
                            return (f"id {k2} gives a different circuit after {', '.join(log[-30:])} on {adt}", fr('get_module'))
                    if adt in (MS, 'ModuleStorageRef'):
                        n = isint(W.call(st.copy(), fr('num_module'), me[0]))
                        if n is not None and n != len(table):
                            return (f"num_module gives {n} after {len(table)} registrations: {', '.join(log[-30:])}", fr('num_module'))
            except (Unsupported, Missing, IndexError):
                continue
    return None
