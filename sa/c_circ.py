"""C04-C08: construction operations of the concrete circuit."""
import itertools
import time
from terms import *
import terms as Tm
import facts as Fx
import interp
from interp import Unsupported, St
from core import check, loc_of
from build import Missing
from circ import Conc
from prove import equal, prove
from inst import freeb

SCALARS = ('input_len', 'output_len', 'num_wire', 'num_gate', 'num_const')
LOGIC2 = {'xor': bxor, 'and': band, 'or': bor}
OPS = {'input': 0, 'constant': 'b', 'not': 1, 'xor': 2, 'and': 2, 'or': 2, 'equivalent': 2, 'identity': 1}
SPEC = {'not': lambda a: bnot(a), 'identity': lambda a: a, 'xor': bxor, 'and': band, 'or': bor, 'equivalent': beq}
TR = 'BoolCircuit'


class World(Conc):
    """a circuit in an arbitrary state that satisfies the invariants, plus the
    observers through which states are compared"""

    def __init__(self, J):
        super().__init__(J)

    def obs(self, st, cell, name, *args):
        s = st.copy()
        s.force()
        fn = self.anyfn(name, 'NXAOBoolCircuit', TR)
        v = self.call(s, fn, self.ip.ref(cell), *[self.refto(s, a) for a in args])
        return v if not s.dead else UNDEF

    def nextid(self, st, cell):
        """the id the next constructed gate will get"""
        s = st.copy()
        s.force()
        self.ip.quiet += 1
        try:
            r = self.call(s, self.fn('constant', trait=TR), self.ip.ref(cell), TRUE)
        finally:
            self.ip.quiet -= 1
        return getfield(getfield(r, 'Ok', 0, '0'), 'GateId', 0, '0')

    def generic(self, st=None, over=None, tag='c.'):
        st = st or self.st
        cell = self.circuit(st, over, tag)
        w = self.obs(st, cell, 'num_wire')
        i = self.obs(st, cell, 'input_len')
        st.assume(le(i, w))
        return cell

    def denote(self, st, cell, g, env, depth=6):
        """boolean function of gate id g: operands in env (id term -> boolean)"""
        for k, v in env.items():
            if k is g:
                return v
        if depth == 0:
            return None
        r = Fx.prune(self.obs(st, cell, 'get_gate', g), st.pc)
        ga = getfield(r, 'Ok', 0, '0')
        return self.gate_fn(ga, lambda x: self.denote(st, cell, x, env, depth - 1))

    def gate_fn(self, ga, rec):
        if ga.op != 'adt':
            return None
        vn, body = ga.args[1], ga.args[2]

        def fld(*names):
            d = body.args[0]
            fs = list(Tm.ADTS[d].values())[0]
            for nm in names:
                if nm in fs:
                    return body.args[2 + fs.index(nm)]
            return None
        if body.op != 'adt':
            return None
        if vn == 'Const':
            return fld('value')
        if vn == 'Not':
            a = rec(fld('id'))
            return None if a is None else bnot(a)
        if vn in ('Xor', 'And', 'Or'):
            a, b = rec(fld('left_id')), rec(fld('right_id'))
            if a is None or b is None:
                return None
            return LOGIC2[vn.lower()](a, b)
        return None


def operands(ga):
    """operand ids of a concrete gate value, None when unknown"""
    if ga.op != 'adt' or ga.args[2].op != 'adt':
        return None
    body = ga.args[2]
    fs = list(Tm.ADTS[body.args[0]].values())[0]
    get = {n: body.args[2 + i] for i, n in enumerate(fs)}
    vn = ga.args[1]
    if vn in ('Input', 'Const'):
        return []
    if vn == 'Not':
        return [get['id']]
    if vn in ('Xor', 'And', 'Or'):
        return [get['left_id'], get['right_id']]
    if vn == 'Module':
        s = as_seq(get['input_ids'])
        if all(g.op == 'el' for g in s.args):
            return [g.args[0] for g in s.args]
    return None


class Run:
    pass


def run_op(W, op, same=False, arity=None, nout=None, pat=None, hook=None):
    """apply one construction operation to the generic state"""
    R = Run()
    R.op, R.same, R.arity, R.cout, R.K, R.W = op, same, arity, nout, None, W
    R.kw = dict(same=same, arity=arity, nout=nout)
    st = W.st.copy()
    st.force()
    over = {}
    if op == 'module':
        nin = I(arity) if arity is not None else sym('nin', True)
        no = I(nout) if nout is not None else sym('nout', True)
        R.nin, R.nout = nin, no
        R.mcell = W.generic(st, {'input_len': nin, 'output_len': no} if {'input_len', 'output_len'} <= set(W.fty) else None, 'm.')
        if not {'input_len', 'output_len'} <= set(W.fty):
            raise Unsupported('circuit without length fields')
        R.m = W.mid(sym('M', True))
        mm = mset(fresh('mm'), R.m, some(W.cref(R.mcell)))
        if 'module_map' not in W.sfty:
            raise Unsupported('storage without module_map')
        _, over['module_storage'] = W.storage(st, {'module_map': mm})
    R.cell = W.generic(st, over)
    R.n0 = W.nextid(st, R.cell)
    if not isnat(R.n0) and R.n0.op != 'poly':
        raise Unsupported('next id ' + show(R.n0)[:60])
    # invariant (see fresh_keys): nothing is registered beyond the counters
    st.assume(isvar(W.obs(st, R.cell, 'output_to_gate_id', W.wid(W.obs(st, R.cell, 'output_len'))), 'Err'))
    R.pre = st.copy()
    R.fn = W.fn(op, trait=TR)
    k = OPS.get(op)
    R.a, R.b = W.gid(sym('a', True)), W.gid(sym('b', True))
    R.va, R.vb = sym('va'), sym('vb')
    if op == 'module':
        ids = sym('ids') if arity is None else seq(*[el(W.gid(sym('id%d' % (pat or range(arity))[i], True))) for i in range(arity)])
        R.ids = ids
        args = [W.refto(st, R.m), W.refto(st, ids)]
        if arity is None:
            st.assume(eq0(sub(mk('len', ids), nin)))
        else:
            for g in ids.args:
                st.assume(lt(g.args[0].args[2], R.n0))
    elif op == 'output':
        args = [R.a]
    elif k == 'b':
        R.value = sym('value')
        args = [R.value]
    else:
        if k == 2 and same:
            R.b, R.vb = R.a, R.va
        args = [W.refto(st, x) for x in (R.a, R.b)[:k]]
        for x in (R.a, R.b)[:k]:
            st.assume(lt(x.args[2], R.n0))
        if k == 2 and not same:
            st.assume(bnot(eq0(sub(R.a.args[2], R.b.args[2]))))
    if hook:
        hook(st, R)
    mark = len(W.ip.obls)
    R.base = st.copy()
    R.v = W.call(st, R.fn, W.ip.ref(R.cell), *args)
    R.st = st
    R.obls = W.ip.obls[mark:]
    R.n1 = None if st.dead else W.nextid(st, R.cell)
    return R


def new_ids(W, R):
    d = isint(sub(R.n1, R.n0))
    if d is None or d < 0 or d > 64:
        raise Unsupported('number of new gates is not fixed: ' + show(sub(R.n1, R.n0))[:80])
    return [W.gid(add(R.n0, I(i))) for i in range(d)]


def idn(g):
    return getfield(g, 'GateId', 0, '0')


def okv(v):
    return getfield(v, 'Ok', 0, '0')


# ------------------------------------------------------------------ C04
def c04(W, R, p):
    fn, st = R.fn, R.st
    op = R.op
    name = f'NXAOBoolCircuit::{op}' + (' (equal operands)' if R.same else '')
    if st.dead:
        p.open.append((name + ' returns', fn, 'never returns', None))
        return
    if op == 'output':
        return
    p.true(name + ': succeeds', st, isvar(R.v, 'Ok'), fn)
    r = okv(R.v)
    if op == 'input':
        ga = okv(W.obs(st, R.cell, 'get_gate', r))
        w = W.obs(R.pre, R.cell, 'input_len')
        p.true(name + ': adds an input gate', st, isvar(ga, 'Input'), fn)
        g = getfield(ga, 'Input', 0, '0')
        if g.op == 'adt' and 'wire_id' in Tm.ADTS[g.args[0]].get(g.args[1], []):
            p.eq(name + ': gate carries the wire of the input', st, W.f(g, 'wire_id'), W.wid(w), fn)
    elif op == 'constant':
        ga = okv(W.obs(st, R.cell, 'get_gate', r))
        p.true(name + ': adds a constant gate', st, isvar(ga, 'Const'), fn)
        g = getfield(ga, 'Const', 0, '0')
        if g.op == 'adt':
            p.eq(name + ': constant has the given value', st, W.f(g, 'value'), R.value, fn)
    elif op == 'module':
        p.eq(name + ': one gate per output', st, seq_len(r), R.nout, fn)
        for k in ([fresh('k', True)] if R.cout is None else [I(x) for x in range(R.cout)]):
            pcx = (lt(k, R.nout),) if R.cout is None else ()
            sk = _with(st, pcx)
            ga = okv(W.obs(sk, R.cell, 'get_gate', seq_at(r, k)))
            p.true(name + ': adds module gates', st, isvar(ga, 'Module'), fn, pcx)
            g = Fx.prune(getfield(ga, 'Module', 0, '0'), sk.pc)
            want = {'input_ids': R.ids, 'out_index': k, 'module_id': R.m, 'input_len': R.nin, 'output_len': R.nout}
            if g.op != 'adt':
                p.open.append((name + ': module gate', fn, 'gate not resolved: ' + show(g)[:120], None))
                return
            for f, v in want.items():
                p.eq(f'{name}: gate of output k records {f}', st, W.f(g, f), v, fn, pcx)
    else:
        d = W.denote(st, R.cell, r, {R.a: R.va, R.b: R.vb})
        if d is None:
            p.open.append((name + ': denotes its operation', fn, 'gate not resolved', None))
        else:
            want = SPEC[op](*([R.va, R.vb][:OPS[op]]))
            p.eq(name + ': denotes its operation', st, d, want, fn)
        # kind and operand order of the primitive operations
        if op in ('not', 'xor', 'and', 'or'):
            ga = Fx.prune(okv(W.obs(st, R.cell, 'get_gate', r)), st.pc)
            p.true(f'{name}: gate kind', st, isvar(ga, op.capitalize()), fn)
            o = operands(ga)
            if o is not None:
                p.eq(f'{name}: operands in order', st, mk('adt', 'tuple', '', *o), mk('adt', 'tuple', '', *[R.a, R.b][:OPS[op]]), fn)


def _with(st, extra):
    s = st.copy()
    for x in extra:
        s.assume(x)
    return s


# ------------------------------------------------------------------ C05
LOOK = (('get_gate', 'gid'), ('input_to_gate_id', 'wid'), ('output_to_gate_id', 'wid'))


def same_lookup(W, R, p, name, what, key, extra, fn):
    a = W.obs(_with(R.base, extra), R.cell, what, key)
    b = W.obs(_with(R.st, extra), R.cell, what, key)
    p.eq(name, R.st, b, a, fn, extra)


def c05(W, R, p):
    fn, st, op = R.fn, R.st, R.op
    name = f'NXAOBoolCircuit::{op}' + (' (equal operands)' if R.same else '')
    if st.dead:
        return
    K = sym('K', True) if R.K is None else R.K
    il0, ol0 = W.obs(R.pre, R.cell, 'input_len'), W.obs(R.pre, R.cell, 'output_len')
    il1, ol1 = W.obs(st, R.cell, 'input_len'), W.obs(st, R.cell, 'output_len')
    isok = isvar(R.v, 'Ok')
    # invariant: no gate beyond the id counter, no wire beyond the wire counters
    for w, key, c0, c1 in (('get_gate', 'gid', R.n0, R.n1), ('input_to_gate_id', 'wid', il0, il1), ('output_to_gate_id', 'wid', ol0, ol1)):
        K1 = getattr(W, key)(K)
        pre = isvar(W.obs(R.base, R.cell, w, K1), 'Err')
        p.true(f'{name}: nothing registered beyond the counter ({w})', st, isvar(W.obs(st, R.cell, w, K1), 'Err'), fn, (le(c1, K), pre))
    p.true(name + ': next id does not decrease', st, le(R.n0, R.n1), fn)
    if op == 'output':
        known = isvar(W.obs(R.pre, R.cell, 'get_gate', R.a), 'Ok')
        p.eq(name + ': succeeds exactly for known gates', st, isok, known, fn)
        p.eq(name + ': id counter untouched', st, R.n1, R.n0, fn)
        p.eq(name + ': returns the next output wire', st, okv(R.v), W.wid(ol0), fn, (isok,))
        p.eq(name + ': is found again under its wire', st, W.obs(_with(st, (isok,)), R.cell, 'output_to_gate_id', W.wid(ol0)), ok(R.a), fn, (isok,))
        p.eq(name + ': output count', st, ol1, add(ol0, b2i(isok)) if False else ite(isok, add(ol0, ONE), ol0), fn)
        for w, key in LOOK:
            x = getattr(W, key)(K)
            if w == 'output_to_gate_id':
                same_lookup(W, R, p, f'{name}: other {w} unchanged', w, x, (bnot(eq0(sub(K, ol0))),), fn)
                same_lookup(W, R, p, f'{name}: failure changes nothing ({w})', w, x, (bnot(isok),), fn)
            else:
                same_lookup(W, R, p, f'{name}: {w} unchanged', w, x, (), fn)
        for sc in ('input_len', 'num_wire', 'num_gate', 'num_const'):
            p.eq(f'{name}: {sc} unchanged', st, W.obs(st, R.cell, sc), W.obs(R.pre, R.cell, sc), fn)
        return
    r = okv(R.v)
    if op == 'module':
        if R.cout is None:
            k, j = fresh('k', True), fresh('j', True)
            pairs = [(k, j, (lt(k, R.nout),))]
        else:
            pairs = [(I(k), I(j), ()) for k in range(R.cout) for j in range(max(k, 1))]
        for k, j, inr in pairs:
            x, y = idn(seq_at(r, k)), idn(seq_at(r, j))
            p.true(name + ': ids are new', st, band(le(R.n0, x), lt(x, R.n1)), fn, inr)
            if k is not j:
                p.true(name + ': ids are distinct', st, bnot(eq0(sub(x, y))), fn, inr + (lt(j, R.nout), lt(j, k)))
    else:
        x = idn(r)
        p.true(name + ': id is new', st, band(le(R.n0, x), lt(x, R.n1)), fn)
    for lab, cond in (('earlier', lt(K, R.n0)), ('later', le(R.n1, K))):
        same_lookup(W, R, p, f'{name}: {lab} gates unchanged', 'get_gate', W.gid(K), (cond,), fn)
    for w, key in LOOK[1:]:
        x = getattr(W, key)(K)
        if op == 'input' and w == 'input_to_gate_id':
            same_lookup(W, R, p, f'{name}: other {w} unchanged', w, x, (bnot(eq0(sub(K, il0))),), fn)
        else:
            same_lookup(W, R, p, f'{name}: {w} unchanged', w, x, (), fn)
    if op == 'input':
        p.eq(name + ': is found again under its wire', st, W.obs(st, R.cell, 'input_to_gate_id', W.wid(il0)), ok(some(r)), fn)
        p.eq(name + ': input count', st, il1, add(il0, ONE), fn)
    else:
        p.eq(name + ': input count unchanged', st, il1, il0, fn)
    p.eq(name + ': output count unchanged', st, ol1, ol0, fn)


# ------------------------------------------------------------------ C06
def c06(W, R, p):
    fn, st, op = R.fn, R.st, R.op
    name = f'NXAOBoolCircuit::{op}' + (' (equal operands)' if R.same else '')
    if st.dead:
        return
    for o in R.obls:
        if o['kind'] in ('overflow',):
            continue
        s = St(pc=o['pc'])
        p.true(f"{name}: {o['kind']} cannot fail", s, o['cond'], fn)
    q = {s: (W.obs(R.pre, R.cell, s), W.obs(st, R.cell, s)) for s in SCALARS}
    p.true(name + ': at least one wire per input', st, le(q['input_len'][1], q['num_wire'][1]), fn)
    cg0, cg1 = W.obs(R.pre, R.cell, 'get_const_gates'), W.obs(st, R.cell, 'get_const_gates')
    if op == 'output':
        p.eq(name + ': constants unchanged', st, cg1, cg0, fn)
        return
    if op == 'module':
        m = {s: W.obs(R.base, R.mcell, s) for s in SCALARS}
        # the module's wires beyond its inputs are new wires of the caller
        want = {'num_wire': add(q['num_wire'][0], sub(m['num_wire'], m['input_len'])),
                'num_gate': add(q['num_gate'][0], m['num_gate']),
                'num_const': add(q['num_const'][0], m['num_const'])}
        ng = None
    else:
        ng = new_ids(W, R)
        kinds = [Fx.prune(okv(W.obs(st, R.cell, 'get_gate', g)), st.pc) for g in ng]
        if any(g.op != 'adt' for g in kinds):
            p.open.append((name + ': counters', fn, 'new gates not resolved', None))
            return
        nl = sum(g.args[1] not in ('Input', 'Const') for g in kinds)
        nc = sum(g.args[1] == 'Const' for g in kinds)
        want = {'num_wire': add(q['num_wire'][0], I(len(ng))), 'num_gate': add(q['num_gate'][0], I(nl)),
                'num_const': add(q['num_const'][0], I(nc))}
        cg0 = seq_cat(as_seq(cg0), seq(*[el(g) for g, k in zip(ng, kinds) if k.args[1] == 'Const']))
    for s, v in want.items():
        p.eq(f'{name}: {s}', st, q[s][1], v, fn)
    p.eq(name + ': list of constants', st, cg1, cg0, fn)
    if op == 'module' and (R.arity is None or R.cout is None):
        return
    dependents(W, R, p, name, lambda R2: uses_of(R2.W, R2))


def uses_of(W, R):
    if R.op == 'module':
        ops = [g.args[0] for g in R.ids.args]
        return [(seq_at(okv(R.v), I(i)), ops) for i in range(R.cout)]
    out = []
    for g in new_ids(W, R):
        k = Fx.prune(okv(W.obs(R.st, R.cell, 'get_gate', g)), R.st.pc)
        o = operands(k)
        if o is None:
            raise Unsupported('new gate not resolved')
        out.append((g, o))
    return out


def dependents(W, R, p, name, gates):
    """dependents of every id grow by exactly one entry per use in a new gate"""
    if R.kw is None:                      # a reachable state: every id is known
        n1 = isint(R.n1)
        for k in range(n1 + 1) if n1 < 12 else (0, 1, n1 - 2, n1 - 1, n1):
            dependents1(W, R, p, name, W.gid(I(k)), gates(R))
        return
    if R.op == 'module':
        pats = list(patterns(R.arity))
        nnew = R.cout
    else:
        pats = [None]
        nnew = len(new_ids(W, R))
    for pat in pats:
        ncl = len(set(pat)) if pat is not None else len(distinct_ops(R))
        for tgt in [('op', i) for i in range(ncl)] + [('new', i) for i in range(nnew)] + [('later', 0), ('earlier', 0)]:
            for has in (True, False):
                if has and tgt[0] in ('new', 'later'):
                    continue                # no dependents yet: part of the invariant
                W2 = World(W.J)
                info = {}

                def hook(st, R2):
                    o = distinct_ops(R2)
                    for c1, c2 in itertools.combinations(o, 2):
                        st.assume(bnot(eq0(sub(idn(c1), idn(c2)))))
                    K = W2.gid(sym('K', True))
                    if tgt[0] == 'op':
                        K = o[tgt[1]]
                    elif tgt[0] == 'new':
                        K = W2.gid(add(R2.n0, I(tgt[1])))
                    elif tgt[0] == 'later':
                        st.assume(le(add(R2.n0, I(nnew)), idn(K)))
                    else:
                        st.assume(lt(idn(K), R2.n0))
                        for x in o:
                            st.assume(bnot(eq0(sub(idn(K), idn(x)))))
                    info['K'] = K
                    for i in range(nnew):
                        split(st, W2.obs(st, R2.cell, 'get_depended_gates', W2.gid(add(R2.n0, I(i)))), False)
                    info['skip'] = not split(st, W2.obs(st, R2.cell, 'get_depended_gates', K), has) and not has
                kw = dict(R.kw, pat=pat)
                R2 = run_op(W2, R.op, hook=hook, **kw)
                if R2.st.dead or info['skip'] and tgt[0] in ('op', 'earlier'):
                    continue
                dependents1(W2, R2, p, name, info['K'], gates(R2))


def split(st, d0, has):
    """decide whether the observed list exists yet"""
    at = [x for x in subterms(d0) if x.op == 'is' and not freeb(x)]
    if at:
        st.assume(at[0] if has else bnot(at[0]))
    return bool(at)


def patterns(n):
    """aliasing patterns of n operands (restricted growth strings)"""
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for i in range(m + 1):
            yield from go(p + [i], max(m, i + 1))
    return go([], 0)


def distinct_ops(R):
    if R.op == 'module':
        return list(dict.fromkeys(g.args[0] for g in R.ids.args))
    k = OPS.get(R.op)
    if k in (None, 'b', 0):
        return []
    return [R.a] if k == 1 or R.same else [R.a, R.b]


def dependents1(W, R, p, name, K, uses):
    st = R.st
    d0 = okv(Fx.prune(W.obs(R.base, R.cell, 'get_depended_gates', K), st.pc))
    d1 = okv(Fx.prune(W.obs(st, R.cell, 'get_depended_gates', K), st.pc))
    exp = []
    for g, os_ in uses:
        for o in os_:
            d = Fx.decide(tuple(st.pc), mkeq(idn(o), idn(K)) if not isnat(idn(o)) else eq0(sub(idn(o), idn(K))))
            if d is None:
                # a symbolic new id: the entry is conditional
                exp.append((eq0(sub(idn(o), idn(K))), g))
            elif d:
                exp.append((TRUE, g))
    conds = [c for c, _ in exp if c is not TRUE]
    if len(set(conds)) > 4:
        raise Unsupported('dependents: too many symbolic uses')
    cs = list(dict.fromkeys(conds))
    for bits in itertools.product((True, False), repeat=len(cs)):
        ex = tuple(c if b else bnot(c) for c, b in zip(cs, bits))
        s = _with(st, ex)
        if not consistent(s.pc):
            continue
        e = [g for c, g in exp if c is TRUE or bits[cs.index(c)]]
        p.multi(f'{name}: dependents', s, Fx.prune(d0, s.pc), Fx.prune(d1, s.pc), e, R.fn)


def consistent(pc):
    F = Fx.facts(tuple(pc))
    return FALSE not in pc and not F.prove(I(-1)) and not any(bnot(l) in F.lits for l in F.lits)


class P:
    """collects equality obligations of one check"""

    def __init__(self, c):
        self.c = c
        self.open = []

    def eq(self, name, st, a, b, fn, extra=()):
        """proved, or remembered for refutation"""
        if a is UNDEF or b is UNDEF:
            self.open.append((name, fn, 'undefined', None))
            return False
        lv = equal(tuple(st.pc) + tuple(extra), a, b)
        if lv:
            self.open.append((name, fn, f'{show(a)[:200]}  differs from  {show(b)[:200]}', lv))
            return False
        self.c.count('equalities proved')
        return True

    def true(self, name, st, g, fn, extra=()):
        lv = prove(tuple(st.pc) + tuple(extra), g)
        if lv:
            self.open.append((name, fn, 'not implied: ' + show(lv[0][1])[:200], lv))
            return False
        self.c.count('facts proved')
        return True

    def multi(self, name, st, d0, d1, exp, fn):
        """d1 is d0 followed by the elements exp in some order"""
        d0, d1 = as_seq(d0), as_seq(d1)
        pre = list(d0.args)
        n = len(exp)
        tail = list(d1.args[len(d1.args) - n:]) if n else []
        lv = [((), FALSE)]
        if len(d1.args) >= n and all(x.op == 'el' for x in tail):
            left = [x.args[0] for x in tail]
            rest = list(exp)
            for x in left:
                for y in rest:
                    if not equal(st.pc, x, y):
                        rest.remove(y)
                        break
            lv = equal(st.pc, seq(*d1.args[:len(d1.args) - n]), d0) if not rest else [((), FALSE)]
        if lv:
            self.open.append((name, fn, f'dependents {show(d1)[:150]}, expected {show(d0)[:100]} and {[show(e) for e in exp]}', lv))
            return
        self.c.count('dependent lists proved')


# ------------------------------------------------- reachable histories
def find(W, name, adt):
    from build import find_fn
    return find_fn(W.J, name, adt)


class Hist:
    """composition of the transfer functions along one history from the empty
    circuit; circuits[0] is the outer circuit, the others its sub-circuits"""

    def __init__(self, J):
        W = self.W = World(J)
        st = self.st = W.st.copy()
        st.force()
        sref = W.call(st, find(W, 'new', 'ModuleStorageRef'))
        self.cs = [dict(cell=W.ip.alloc(st, W.call(st, find(W, 'new', 'NXAOBoolCircuit'), sref)), ids=[], mid=None, nin=0, nout=0)]
        self.log = []

    def step(self, ci, op, *a, note=True):
        W, st, C = self.W, self.st, self.cs[ci]
        if note:
            self.log.append((ci, op) + a)
        if op == 'sub':
            r = W.call(st, W.fn('sub_circuit', trait=TR), W.ip.ref(C['cell']))
            mid, ref = r.args[2], r.args[3]
            self.cs.append(dict(cell=getfield(ref, '', 0, '0').args[0], ids=[], mid=mid, nin=0, nout=0))
            return None
        R = Run()
        R.op, R.cell, R.same, R.K, R.W, R.kw = op, C['cell'], False, None, W, None
        R.fn = W.fn(op, trait=TR)
        R.pre = R.base = st.copy()
        R.va, R.vb = sym('va'), sym('vb')
        R.a = R.b = R.arity = R.cout = None
        R.n0 = None
        ids = C['ids']
        if op == 'module':
            m = self.cs[a[0]]
            R.m, R.mcell = m['mid'], m['cell']
            R.ids = seq(*[el(ids[i]) for i in a[1]])
            R.nin, R.nout = I(m['nin']), I(m['nout'])
            R.arity, R.cout = len(R.ids.args), m['nout']
            args = [W.refto(st, R.m), W.refto(st, R.ids)]
        elif op == 'constant':
            R.value = TRUE if a[0] else FALSE
            args = [R.value]
        elif op == 'output':
            R.a = ids[a[0]] if a[0] < len(ids) else W.gid(I(a[0] + 5000))
            args = [R.a]
        else:
            xs = [ids[i] for i in a]
            args = [W.refto(st, x) for x in xs]
            if xs:
                R.a = xs[0]
            if len(xs) > 1:
                R.b = xs[1]
                if R.b is R.a:
                    R.vb, R.same = R.va, True
        R.base = st.copy()
        mark = len(W.ip.obls)
        R.v = W.call(st, R.fn, W.ip.ref(C['cell']), *args)
        R.obls = W.ip.obls[mark:]
        R.st = st.copy()
        if st.dead:
            return R
        r = okv(R.v)
        if op == 'module':
            C['ids'] += [seq_at(r, I(k)) for k in range(R.cout)]
        elif op != 'output':
            C['ids'].append(r)
            C['nin'] += op == 'input'
        elif R.v.op == 'adt' and R.v.args[1] == 'Ok':
            C['nout'] += 1
        return R

    def repeat(self, ci, op, a, k):
        """k times the same step; the loop is summarised, not unrolled"""
        if k <= 24:
            for _ in range(k):
                self.step(ci, op, *a)
            return
        W, st, C = self.W, self.st, self.cs[ci]
        self.log.append((ci, op) + tuple(a) + ('repeated %d times' % k,))
        fn, ip = W.fn(op, trait=TR), W.ip
        n0 = W.nextid(st, C['cell'])
        ctr = ip.alloc(st, ZERO)
        st.cells[ctr] = ZERO
        fr = interp.Frame(None, {})
        ids = C['ids']
        if op in ('constant', 'output'):
            args = [(TRUE if a[0] else FALSE) if op == 'constant' else ids[a[0]]]
        else:
            args = [W.refto(st, ids[i]) for i in a]

        def body(s, lp):
            lp['scope'] = 'repeat'

            def yes(x):
                x.force()
                W.call(x, fn, ip.ref(C['cell']), *args)
                x.cells[ctr] = add(x.cells[ctr], ONE)
                return UNIT

            def no(x):
                lp['breaks'].append((x.copy(), UNIT))
                x.dead = True
                return UNDEF
            return ip.branch(s, lt(s.cells[ctr], I(k)), yes, no)
        ip.run_loop(st, body, fr)
        st.force()
        if op == 'output':
            C['nout'] += k
        else:
            d = isint(sub(W.nextid(st, C['cell']), n0))
            if d is None:
                raise Unsupported('repeat')
            C['ids'] += [W.gid(add(n0, I(d - 2))), W.gid(add(n0, I(d - 1)))]
            if op == 'input':
                C['nin'] += k

    def desc(self):
        out = []
        for x in self.log:
            if out and out[-1][0] == x:
                out[-1][1] += 1
            else:
                out.append([x, 1])
        s = ', '.join(f"{'' if x[0] == 0 else 'sub%d.' % x[0]}{x[1]}{tuple(x[2:]) if len(x) != 3 else '(%s)' % (x[2],)}" + (f' x{n}' if n > 1 else '') for x, n in out)
        return 'history ' + (s if len(s) < 700 else '... ' + s[-700:])


def walks(ks, seed, n):
    """histories as generators of steps (circuit, op, args, checked?)"""
    import random
    yield [(0, 'output', 0, True), (0, 'output', 99, True), (0, 'input', True), (0, 'output', 99, True), (0, 'output', 0, True), (0, 'output', 1, True)]
    for k in ks:
        yield from around(k)
    for w in range(n):
        yield list(random_walk(random.Random(seed * 1000 + w), 24 + w % 3 * 12))


def around(k):
    far = lambda op, *a: [('rep', 0, op, a, max(k - 3, 0))] + [(0, op) + a + (True,)] * 6
    pre = [(0, 'input', True), (0, 'constant', 1, True)]
    end = [(0, 'not', 0, True), (0, 'xor', 0, 0, True), (0, 'and', 1, 0, True), (0, 'output', 0, True), (0, 'output', 1, True), (0, 'identity', 1, True)]
    yield pre + far('not', 0) + end
    yield pre + far('input') + end
    yield pre + far('output', 0) + end
    yield pre + far('constant', 0) + end
    yield pre + far('xor', 0, 1) + end
    subs = [(0, 'sub', False), (1, 'input', False), (1, 'not', 0, False)]
    if k <= 1100:
        yield pre + subs + [(1, 'output', i % 2, False) for i in range(k + 2)] + [(0, 'module', 1, [0], True), (0, 'module', 1, [1], True)] + end
        yield pre + [(0, 'sub', False)] + [(1, 'input', False)] * (k + 1) + [(1, 'output', k, False), (0, 'module', 1, [i % 2 for i in range(k + 1)], True)] + end
        yield pre + [(0, 'sub', False)] + [(1, 'input', False)] * (k + 1) + [(1, 'output', k, False), (1, 'output', 0, False), (0, 'module', 1, [max(0, i - k + 1) for i in range(k + 1)], True)] + end
        yield pre + subs + [(1, 'output', 1, False)] + [(0, 'module', 1, [0], False)] * max(k - 2, 0) + [(0, 'module', 1, [0], True)] * 4 + end


def random_walk(rng, n):
    """small random history; sub-circuits are filled before the outer circuit"""
    nid = {0: 0}
    nio = {0: [0, 0]}
    nsub = rng.choice([0, 1, 2, 3])
    style = rng.randrange(6)

    def pick(ci):
        m = nid[ci]
        r = rng.random()
        if style == 0 or r < 0.25:
            return 0
        if style == 1 or r < 0.5:
            return m - 1
        return rng.randrange(m)

    def op(ci, callable_):
        m = nid[ci]
        k = rng.random()
        if m == 0 or k < 0.12:
            nid[ci] += 1
            nio[ci][0] += 1
            return (ci, 'input', True)
        if k < 0.25 or style == 2 and k < 0.45:
            nid[ci] += 1
            return (ci, 'constant', rng.randrange(2), True)
        if k < 0.4 or style == 3 and k < 0.6:
            if rng.random() < 0.1:
                return (ci, 'output', 99, True)
            nio[ci][1] += 1
            return (ci, 'output', pick(ci), True)
        if k < 0.6 and callable_:
            s = rng.choice(callable_)
            a = [pick(ci) for _ in range(nio[s][0])]
            nid[ci] += nio[s][1]
            return (ci, 'module', s, a, True)
        o = rng.choice(('not', 'identity', 'xor', 'and', 'or', 'equivalent'))
        x = [pick(ci) for _ in range(OPS[o])]
        if len(x) == 2 and rng.random() < 0.3:
            x[1] = x[0]
        nid[ci] += 1
        return (ci, o) + tuple(x) + (True,)
    for s in range(1, nsub + 1):
        nid[s], nio[s] = 0, [0, 0]
        yield (0, 'sub', False)
        for _ in range(rng.randrange(1, 7)):
            yield op(s, list(range(1, s)))
    for _ in range(n):
        yield op(0, list(range(1, nsub + 1)))


def consts_in(ts):
    out = set()
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == 'poly':
                for m, k in x.args:
                    out.add(abs(k))
            elif x.op == 'mod' and isint(x.args[1]):
                out.add(isint(x.args[1]))
            elif x.op == 'trunc' and x.args[-1] <= 24:
                out.add(2 ** x.args[-1])
    return sorted(k for k in out if 3 <= k <= 2 ** 26)[:4]


def refute(c, W0, f, names, leaves):
    """search the reachable histories for a definite failure of one of names"""
    import c_eval
    import loops
    ks = consts_in([g for lv in leaves for _, g in lv] + [x for lv in leaves for pc, _ in lv for x in pc])
    ks += [k for k in c_eval.literals(c.J, ('bool_circuit',), 5000)[:4] if k not in ks]
    hits = {}
    n = 0
    t0 = time.time()
    for walk in walks(ks, c.seed, 400 if c.thorough else 150):
        if time.time() - t0 > (500 if c.thorough else 150):
            break
        sz = loops.sizes(400, 60)
        sz.__enter__()
        H = Hist(W0.J)
        try:
            for s in walk:
                if s[0] == 'rep':
                    H.repeat(*s[1:])
                    continue
                R = H.step(*s[:-1])
                if R is None:
                    continue
                if R.st.dead:
                    hits.setdefault('operation', (R.fn, f'panics: {H.desc()}'))
                    break
                if not s[-1]:
                    continue
                n += 1
                W = H.W
                if R.n0 is None:
                    R.n0 = W.nextid(R.base, R.cell)
                R.n1 = W.nextid(R.st, R.cell)
                n1 = isint(R.n1)
                if n1 is None:
                    break
                Ks = [None]
                if f is c05:
                    Ks = [I(x) for x in (range(n1 + 2) if n1 < 12 else (0, 1, n1 - 2, n1 - 1, n1, n1 + 1))]
                for K in Ks:
                    R.K = K
                    q = P(c)
                    f(W, R, q)
                    for name, fn, why, lv in q.open:
                        if lv and all(g is FALSE for _, g in lv) and name not in hits:
                            hits[name] = (fn, f'{why}; {H.desc()}')
        except Unsupported:
            continue
        finally:
            sz.__exit__()
        if hits:
            break
    c.count('transfer steps composed along reachable histories', n)
    return hits


def settle(c, W, f, p, unsup):
    names = {}
    for name, fn, why, lv in p.open:
        names.setdefault(name, (fn, why, lv))
    hits = {}
    import c_eval
    if names or unsup or c_eval.literals(c.J, ('bool_circuit',), 5000):
        hits = refute(c, W, f, set(names), [x[2] for x in names.values() if x[2]])
    for name, (fn, detail) in hits.items():
        c.bad(name, detail, loc_of(fn))
    for name, (fn, why, _) in names.items():
        if name not in hits:
            c.und(name, why, loc_of(fn))


def generic_runs(c, J):
    """(label, World, Run) of every construction operation in a generic state"""
    out, uns = [], []
    jobs = [(op, dict(same=s)) for op in OPS for s in ((False, True) if OPS[op] == 2 else (False,))]
    jobs += [('output', {}), ('module', {})]
    jobs += [('module', dict(arity=i, nout=o)) for i in range(4) for o in range(4)]
    for op, kw in jobs:
        W = World(J)
        try:
            out.append((W, run_op(W, op, **kw)))
            c.count('operation summaries')
        except Missing as x:
            c.bad(op, f'public operation {x} is missing', None)
        except Unsupported as x:
            c.und(f'{op} {kw or ""}', f'not summarised: {x}')
            uns.append(op)
    return out, uns


def induct(c, f, extra=None):
    runs, uns = generic_runs(c, c.J)
    p = P(c)
    for W, R in runs:
        before = len(p.open)
        try:
            f(W, R, p)
        except Unsupported as x:
            c.und(f'{R.op}', f'not decided: {x}', loc_of(R.fn))
            uns.append(R.op)
        if len(p.open) == before:
            c.ok(f'{R.op}' + (' equal operands' if R.same else '') + (f' arity {R.arity}, {R.cout} outputs' if R.arity is not None else ''),
                 'inductive step proved for every state and operand', loc_of(R.fn))
    W = World(c.J)
    try:
        base_case(c, W, p, f)
    except Unsupported as x:
        c.und('base case', str(x))
    except Missing as x:
        c.bad('base case', f'public operation {x} is missing')
    if extra:
        try:
            extra(c, p)
        except Unsupported as x:
            c.und('further obligations', str(x))
        except Missing as x:
            c.bad('further obligations', f'public operation {x} is missing')
    settle(c, W, f, p, uns)


def base_case(c, W, p, f):
    st = W.st.copy()
    st.force()
    sref = W.call(st, find(W, 'new', 'ModuleStorageRef'))
    fn = find(W, 'new', 'NXAOBoolCircuit')
    cell = W.ip.alloc(st, W.call(st, fn, sref))
    K = sym('K', True)
    if f is c05:
        for w, key in LOOK:
            p.true(f'NXAOBoolCircuit::new: {w} knows nothing', st, isvar(W.obs(st, cell, w, getattr(W, key)(K)), 'Err'), fn)
        for s in ('input_len', 'output_len'):
            p.eq(f'NXAOBoolCircuit::new: {s} is 0', st, W.obs(st, cell, s), ZERO, fn)
        c.ok('NXAOBoolCircuit::new', 'empty circuit: base case', loc_of(fn))
    if f is c06:
        for s in SCALARS:
            v = W.obs(st, cell, s)
            if v is not ZERO and not free_syms(v) and Tm.isint(v) is not None:
                c.bad(f'NXAOBoolCircuit::new: {s} is 0', f'{s} of a new circuit is {show(v)}', loc_of(fn))
                continue
            p.eq(f'NXAOBoolCircuit::new: {s} is 0', st, v, ZERO, fn)
        p.eq('NXAOBoolCircuit::new: no constants', st, W.obs(st, cell, 'get_const_gates'), seq(), fn)
        p.eq('NXAOBoolCircuit::new: no dependents', st, W.obs(st, cell, 'get_depended_gates', W.gid(K)), ok(seq()), fn)
        c.ok('NXAOBoolCircuit::new', 'empty circuit: base case', loc_of(fn))


EXPL = ('Every construction operation is summarised from its typed IR on a circuit in an arbitrary state (symbolic maps and counters, arbitrary operands) and its '
        'effect, seen through the public observers, is proved equal to the specification by case split; the empty circuit is the base case. An inductive step that '
        'does not close is reported only if a reachable state (a history from the empty circuit) makes it definitely false.')


@check('C04')
def check_c04(c):
    c.extra['explanation'] = EXPL
    induct(c, c04)


def unknown_module(c, p):
    W = World(c.J)
    st = W.st.copy()
    st.force()
    m = W.mid(sym('M', True))
    scell, sref = W.storage(st)
    cell = W.generic(st, {'module_storage': sref})
    fn = W.fn('module', trait=TR)
    st.assume(bnot(isvar(W.obs(st, cell, 'get_module', m), 'Ok')))
    base = st.copy()
    v = W.call(st, fn, W.ip.ref(cell), W.refto(st, m), W.refto(st, sym('ids')))
    if st.dead:
        p.open.append(('NXAOBoolCircuit::module: unknown module is an error', fn, 'panics', None))
        return
    p.true('NXAOBoolCircuit::module: unknown module is an error', st, isvar(v, 'Err'), fn)
    K = sym('K', True)
    for w, key in LOOK:
        x = getattr(W, key)(K)
        p.eq(f'NXAOBoolCircuit::module: unknown module changes no {w}', st, W.obs(st, cell, w, x), W.obs(base, cell, w, x), fn)
    for s in SCALARS:
        p.eq(f'NXAOBoolCircuit::module: unknown module changes no {s}', st, W.obs(st, cell, s), W.obs(base, cell, s), fn)
    c.ok('module with an unknown id', 'error and unchanged state', loc_of(fn))


@check('C05')
def check_c05(c):
    c.extra['explanation'] = EXPL
    induct(c, c05, unknown_module)


@check('C06')
def check_c06(c):
    c.extra['explanation'] = EXPL
    c.assumptions.append('dependents of module calls: proved for calls with up to 3 operands and 3 outputs, all aliasing patterns; counters for every arity')
    c.assumptions.append('counters below 2^63 (no wrap-around)')
    induct(c, c06)
