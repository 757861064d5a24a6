"""Checks of the generic circuit builders (AllocBits, AllocInt, AllocFp)."""
import time
from terms import *
import terms as Tm
import inst, interp, word
from interp import Unsupported
from core import check, loc_of
from build import *

BOOLOPS = [('Not', 'not', 1, lambda a, b, M: ~a & M),
           ('BitAnd', 'bitand', 2, lambda a, b, M: a & b),
           ('BitOr', 'bitor', 2, lambda a, b, M: a | b),
           ('BitXor', 'bitxor', 2, lambda a, b, M: a ^ b)]


class Case:
    """one summarised operation: outputs (bit vector term) as a function of
    the top circuit's inputs a (bits 0..N) and b (bits N..2N) [and one more
    select bit], with a word-level specification"""

    def __init__(self, name, fn, outs, spec, outlen, st, pre=None, params=(), maxn=1100, obls=()):
        self.name, self.fn, self.outs, self.spec, self.outlen = name, fn, outs, spec, outlen
        self.pre, self.params, self.maxn = pre, params, maxn
        self.obls = list(obls)


def build_case(c, b, cases, name, get, spec, outlen, **kw):
    """get(st) -> (fn, outs); any refusal of the engine is 'undecided'"""
    st = b.st.copy()
    st.force()
    mark = len(b.ip.obls)
    assume = kw.pop('assume', None)
    ws = kw.pop('ws', None)
    for a in assume or ():
        st.assume(a)
    try:
        fn, outs = get(st)
        if st.dead:
            c.bad(name, 'does not return for any size', None)
            return None
        cs = Case(name, fn, outs, spec, outlen, st, obls=b.ip.obls[mark:], **kw)
        cs.defs = b.defs(st)
        cs.top = b.topc(st)
        cs.st = st
        cs.ws = ws
        cases.append(cs)
        c.count('functions summarised')
        return cs
    except Missing as x:
        c.bad(name, f'public operation {x} is missing', None)
    except Unsupported as x:
        c.und(name, f'not summarised: {x}')
    return None


WA, WB, WS = word.AT('w', 'A'), word.AT('w', 'B'), word.AT('bit', 'S', ZERO)
SEGS = {1: [(ZERO, N, 'A'), (N, N, 'B'), (add(N, N), ONE, 'S')]}


def W_(f):
    return lambda W, a, b: W.bitop(f, [a, b], N)


WOPS = {'Not': lambda W, a, b: W.bitop(word.P_NOT, [a], N), 'BitAnd': W_(word.P_AND), 'BitOr': W_(word.P_OR), 'BitXor': W_(word.P_XOR),
        'Add': lambda W, a, b: a + b, 'Sub': lambda W, a, b: a - b, 'Mul': lambda W, a, b: a * b, 'Neg': lambda W, a, b: -a}


def prove_case(c, cs, opaque=None):
    """equality with the specification for every width at once"""
    if cs.ws is None:
        return
    try:
        W = word.Word(cs.defs, SEGS, cs.st.pc)
        W.opaque = getattr(cs, 'opaque', None) or {}
        L, e, _ = W.word(cs.outs, {}, W.pc0)
        r = cs.ws(W, L, e)
    except word.NoProof as x:
        cs.noproof = str(x)
        return
    except (interp.Unsupported, AttributeError, KeyError, TypeError, ValueError, RecursionError) as x:
        cs.noproof = repr(x)
        return
    if r is True:
        c.count('proved for every width')
        cs.proved = 'proved for every width: word-level abstract interpretation of the summary equals the specification'
    else:
        cs.noproof = 'normal forms differ'


def same(L, f):
    return lambda W, l, e: W.equal(l, e, L, f(W))


def unproved(c, cases):
    for cs in cases:
        if getattr(cs, 'proved', None) is None and cs.ws is not None:
            c.extra.setdefault('no proof for every width', []).append(f'{cs.name}: {getattr(cs, "noproof", "")[:160]}')


def sizes_for(c, cases, base):
    cons = set()
    for cs in cases:
        ts = [cs.outs]
        for d in cs.defs.values():
            ts += [d[1], d[2]]
        cons |= constants(ts)
    ext = sorted({x for k in cons for x in (k - 1, k, k + 1, k + 2, 2 * k, 2 * k + 1) if 1 <= x <= 1000})
    c.extra['sizes from constants of the summaries'] = ext[:40]
    return sorted(set(base)), ext[:60]


def run_cases(c, b, cases, base_sizes, extra_in=0, label=''):
    base, ext = sizes_for(c, cases, base_sizes)
    for cs in cases:
        prove_case(c, cs)
    unproved(c, cases)
    insts = []
    for Nv in list(base) + [x for x in ext if x not in base]:
        cap = 220 if Nv in base else 60
        ps = pairs(Nv, c.seed, cap)
        M = (1 << Nv) - 1
        if extra_in:
            ps = [(a, d, s) for a, d in ps for s in (0, 1)]
        else:
            ps = [(a, d, 0) for a, d in ps]
        w = len(ps)
        cols = word_cols([p[0] for p in ps], Nv) + word_cols([p[1] for p in ps], Nv)
        if extra_in:
            cols += word_cols([p[2] for p in ps], 1)
        shared = {}
        for cs in cases:
            if Nv > (cs.maxn if Nv in base or getattr(cs, 'proved', None) else max(cs.maxn, 520)) or cs.name in c.extra.setdefault('_failed', set()):
                continue
            plist = [{}]
            for psym, rng in cs.params:
                vals = list(rng(Nv))
                plist = [{**q, psym: v} for q in plist for v in vals]
            for q in plist:
                syms = {n: Nv - 1, **q}
                key = tuple(sorted((k.args[0], v) for k, v in q.items()))
                sh = shared.setdefault(key, {'mo': {}, 'fuel': 60000000})
                E = inst.Ev(w, syms, {1: cols}, cs.defs, sh, b.S.opaque)
                where = f'N={Nv}' + ''.join(f' {k.args[0]}={v}' for k, v in q.items())
                try:
                    outs = E.ev(cs.outs)
                    if type(outs) is int:
                        outs = (outs,)
                    want = cs.outlen(Nv) if callable(cs.outlen) else cs.outlen
                    if len(outs) != want:
                        c.bad(cs.name, f'{where}: {len(outs)} output bits, expected {want}', loc_of(cs.fn))
                        c.extra['_failed'].add(cs.name)
                        break
                    ws = words_of(outs, w)
                except inst.Stuck as x:
                    if 'out of range' in str(x) or 'module called' in str(x):
                        c.bad(cs.name, f'{where}: {x}', loc_of(cs.fn))
                        c.extra['_failed'].add(cs.name)
                    else:
                        cs.stuck = f'{where}: {x}'
                    break
                c.count('ground instances')
                for j, (x, y, s) in enumerate(ps):
                    e = cs.spec(x, y, Nv, M, s, q)
                    if e is None:
                        continue
                    c.count('points compared')
                    if ws[j] != e:
                        c.bad(cs.name, f'{where}: for a={x} b={y}' + (f' select={s}' if extra_in else '') +
                              f' the built circuit computes {ws[j]}, the specification is {e}', loc_of(cs.fn))
                        c.extra['_failed'].add(cs.name)
                        break
                if cs.name in c.extra['_failed']:
                    break
            if c.deadline < time.time():
                break
    for cs in cases:
        if cs.name in c.extra['_failed']:
            continue
        if hasattr(cs, 'stuck'):
            c.und(cs.name, cs.stuck, loc_of(cs.fn))
        else:
            c.ok(cs.name, getattr(cs, 'proved', None) or 'closed-form summary agrees with the specification at every instanced size', loc_of(cs.fn))
    c.extra.pop('_failed', None)
    # reachable panics
    for cs in cases:
        if not cs.obls:
            continue
        il = []
        for Nv in list(base)[:8] + ext[:6]:
            if Nv > 40 and Nv not in ext:
                continue
            plist = [{}]
            for psym, rng in cs.params:
                plist = [{**q, psym: v} for q in plist for v in list(rng(Nv))]
            for q in plist:
                il.append((f'N={Nv} ' + ' '.join(f'{k.args[0]}={v}' for k, v in q.items()), {n: Nv - 1, **q}, cs.defs))
        Cmp(c, b, None).check_obls(cs.obls, il, cs.name)


def input_layout(c, b, ty, x, field, name, at):
    """operands are N fresh inputs, in order, little end first"""
    v = b.bits(b.field(b.val(x), field))
    k = fresh('k', True)
    want = seq(comp(N, k, builder.inp(1, add(k, at))))
    if v is want:
        c.ok(name, 'identical normal form for every N')
    else:
        return v
    return None


QS = [1, 2, 3, 4, 5, 8, 16, 31, 33, 64, 65]


def prep(c, ty, cfgname, *extra):
    b = B(c.J)
    cfg = b.new_cfg(cfgname, *extra)
    x = b.operand(ty, cfg)
    y = b.operand(ty, cfg)
    return b, cfg, x, y


def one_bit(b, g):
    return seq(el(b.S.gate(g)[1]))


def comb(c, b, ty, fld, x, y, cases, ops, cfg):
    """binary operators through their trait impls and their assigning forms,
    and operators applied to results (values stay usable as operands)"""
    for tr, nm, ar, spec, kw in ops:
        def get(st, tr=tr, nm=nm, ar=ar):
            f = find_fn(c.J, nm, ty, tr)
            r = b.call(f, *([x] if ar == 1 else [x, y]), st=st)
            return f, b.bits(b.field(b.val(r, st), *fld), st)
        sp = (lambda spec: lambda a, d, Nv, M, s, q: spec(a, d, M, Nv))(spec)
        wop = WOPS.get(tr)
        w1 = same(N, lambda W, wop=wop: wop(W, WA, WB)) if wop else None
        build_case(c, b, cases, f'{ty} {nm}', get, sp, lambda Nv: Nv, ws=w1, **kw)
        if ar == 1:
            continue

        def get2(st, tr=tr, nm=nm):
            f = find_fn(c.J, nm + '_assign', ty, tr + 'Assign')
            z = b.cell(b.val(x, st), st)
            b.call(f, z, y, st=st)
            return f, b.bits(b.field(b.val(z, st), *fld), st)
        try:
            find_fn(c.J, nm + '_assign', ty, tr + 'Assign')
        except Missing:
            continue
        build_case(c, b, cases, f'{ty} {nm}_assign', get2, sp, lambda Nv: Nv, ws=w1, **kw)

        def get3(st, tr=tr, nm=nm):
            f = find_fn(c.J, nm, ty, tr)
            r = b.cell(b.call(f, x, y, st=st), st)
            r2 = b.call(f, y, r, st=st)
            return f, b.bits(b.field(b.val(r2, st), *fld), st)
        sp3 = (lambda spec: lambda a, d, Nv, M, s, q: (lambda t: None if t is None else spec(d, t, M, Nv))(spec(a, d, M, Nv)))(spec)
        kw3 = dict(kw)
        kw3['maxn'] = min(kw.get('maxn', 300), 64)
        build_case(c, b, cases, f'{ty} {nm} of a result', get3, sp3, lambda Nv: Nv,
                   ws=same(N, lambda W, wop=wop: wop(W, WB, wop(W, WA, WB))) if wop else None, **kw3)


def bitops(ty, cs=()):
    return [(tr, nm, ar, (lambda f: lambda a, d, M, Nv: f(a, d, M))(f), {}) for tr, nm, ar, f in BOOLOPS]


def pred(c, b, ty, x, y, cases, name, spec, **kw):
    def get(st):
        f = find_fn(c.J, name, ty)
        g = b.okcall(f, x, y, st=st)
        return f, one_bit(b, g)
    build_case(c, b, cases, f'{ty}::{name}', get, spec, 1, ws=same(ONE, WPRED[name]) if name in WPRED else None, **kw)


def common(c, b, ty, cfg, fld, x, y, cases):
    """new / from_gate_ids / output"""
    lay = [(x, ZERO), (y, N)]
    for i, (v, at) in enumerate(lay):
        def get(st, v=v):
            return find_fn(c.J, 'new', ty), b.bits(b.field(b.val(v, st), *fld), st)
        build_case(c, b, cases, f'{ty}::new allocates N inputs in order ({i})', get,
                   (lambda i: lambda a, d, Nv, M, s, q: (a, d)[i])(i), lambda Nv: Nv,
                   ws=same(N, lambda W, i=i: (WA, WB)[i]))
    # output
    def geto(st):
        f = find_fn(c.J, 'output', ty)
        b.okcall(f, x, st=st)
        return f, b.topc(st)[2]
    build_case(c, b, cases, f'{ty}::output appends the N bits in order', geto, lambda a, d, Nv, M, s, q: a, lambda Nv: Nv,
               ws=same(N, lambda W: WA))

    def geto2(st):
        f = find_fn(c.J, 'output', ty)
        b.okcall(f, y, st=st)
        b.okcall(f, x, st=st)
        return f, b.topc(st)[2]
    build_case(c, b, cases, f'{ty}::output twice', geto2, lambda a, d, Nv, M, s, q: d | (a << Nv), lambda Nv: 2 * Nv,
               ws=same(add(N, N), lambda W: WB + word.P2(N) * WA))


def pad_case(c, b, ty, cfg, fld, cases, name, wrap=True):
    """from_gate_ids: m <= N given bits, zero-extended"""
    m = sym('m', True)

    def get(st):
        f = find_fn(c.J, name, ty)
        k = fresh('k', True)
        v = seq(comp(m, k, builder.gb(I(1), builder.inp(1, k))))
        r = b.okcall(f, v, cfg, st=st) if wrap else b.call(f, v, cfg, st=st)
        return f, b.bits(b.field(b.val(r, st), *fld), st)
    build_case(c, b, cases, f'{ty}::{name} zero-extends', get,
               lambda a, d, Nv, M, s, q: a & ((1 << q[m]) - 1), lambda Nv: Nv,
               params=[(m, lambda Nv: sorted({0, 1, Nv // 2, Nv - 1, Nv} & set(range(Nv + 1))))],
               assume=[ge0(sub(N, m))], ws=same(N, lambda W: WA - word.P2(m) * W.hi('A', N, m, W.pc0)))


def W_EQ(W):
    return W.iszero(WA - WB, N, W.pc0)


def W_LT(W):
    """for differences representable in N bits, the sign of the difference is the order"""
    return W.sgn(WA - WB, N, W.pc0)


def W_LE(W):
    return W_LT(W) + W_EQ(W) - W_LT(W) * W_EQ(W)


WPRED = {'eq': W_EQ, 'neq': lambda W: word.ONEE - W_EQ(W), 'less': W_LT, 'less_or_eq': W_LE,
         'larger': lambda W: word.ONEE - W_LE(W), 'larger_or_eq': lambda W: word.ONEE - W_LT(W)}


@check('C15')
def c_bits(c):
    c.extra['explanation'] = EXPL
    b, cfg, x, y = prep(c, 'AllocBits', 'AllocBitsConfig')
    cases = []
    cons = len(b.ip.obls)
    comb(c, b, 'AllocBits', ('bits',), x, y, cases, bitops('AllocBits'), cfg)
    pred(c, b, 'AllocBits', x, y, cases, 'eq', lambda a, d, Nv, M, s, q: int(a == d))
    pred(c, b, 'AllocBits', x, y, cases, 'neq', lambda a, d, Nv, M, s, q: int(a != d))
    common(c, b, 'AllocBits', cfg, ('bits',), x, y, cases)
    pad_case(c, b, 'AllocBits', cfg, ('bits',), cases, 'from_gate_ids')
    if cases:
        cases[0].obls += b.ip.obls[:cons]
    run_cases(c, b, cases, QS)
    # multiplexer: one more input as selector
    cases = []

    def getm(st):
        f = find_fn(c.J, 'mux', 'AllocBits')
        sel = b.cell(builder.gb(I(1), builder.inp(1, add(N, N))), st)
        r = b.okcall(f, x, y, sel, st=st)
        return f, b.bits(b.field(b.val(r, st), 'bits'), st)
    build_case(c, b, cases, 'AllocBits::mux', getm, lambda a, d, Nv, M, s, q: d if s else a, lambda Nv: Nv,
               ws=same(N, lambda W: WA + WS * (WB - WA)))
    run_cases(c, b, cases, QS, extra_in=1)


@check('C16')
def c_arith(c):
    c.extra['explanation'] = EXPL
    b, cfg, x, y = prep(c, 'AllocInt', 'AllocIntConfig')
    cases = []
    cons = len(b.ip.obls)
    ops = [('Add', 'add', 2, lambda a, d, M, Nv: (a + d) & M, {}),
           ('Sub', 'sub', 2, lambda a, d, M, Nv: (a - d) & M, {}),
           ('Mul', 'mul', 2, lambda a, d, M, Nv: (a * d) & M, {'maxn': 300}),
           ('Neg', 'neg', 1, lambda a, d, M, Nv: -a & M, {})]
    comb(c, b, 'AllocInt', ('val_le',), x, y, cases, ops, cfg)

    # extended multiplication: public builder, given an adder of twice the width
    def gete(st):
        fa = find_fn(c.J, 'build_add_circuit', free=True)
        fe = find_fn(c.J, 'build_mul_extend_circuit', free=True)
        r = b.cell(b.cref, st)
        am = b.okcall(fa, r, add(N, N), st=st)
        em = b.okcall(fe, r, N, am, st=st)
        k = fresh('k', True)
        ins = seq(comp(add(N, N), k, builder.inp(1, k)))
        k2 = fresh('k', True)
        mi = isint(getfield(em, '', 0, '0'))
        return fe, seq(comp(add(N, N), k2, mk('mo', mi, k2, ins)))
    build_case(c, b, cases, 'build_mul_extend_circuit computes the full product', gete,
               lambda a, d, Nv, M, s, q: a * d, lambda Nv: 2 * Nv, maxn=160,
               ws=same(add(N, N), lambda W: WA * WB))
    if cases:
        cases[0].obls += b.ip.obls[:cons]
    run_cases(c, b, cases, QS)


@check('C17')
def c_cmp(c):
    c.extra['explanation'] = EXPL
    b, cfg, x, y = prep(c, 'AllocInt', 'AllocIntConfig')
    cases = []
    cons = len(b.ip.obls)

    def scmp(f):
        def g(a, d, Nv, M, s, q):
            sa, sd = sgn(a, Nv), sgn(d, Nv)
            if not -(1 << (Nv - 1)) <= sa - sd < (1 << (Nv - 1)):
                return None
            return int(f(sa, sd))
        return g
    for nm, f in [('less', lambda p, q: p < q), ('less_or_eq', lambda p, q: p <= q),
                  ('larger', lambda p, q: p > q), ('larger_or_eq', lambda p, q: p >= q)]:
        pred(c, b, 'AllocInt', x, y, cases, nm, scmp(f))
    pred(c, b, 'AllocInt', x, y, cases, 'eq', lambda a, d, Nv, M, s, q: int(a == d))
    pred(c, b, 'AllocInt', x, y, cases, 'neq', lambda a, d, Nv, M, s, q: int(a != d))
    if cases:
        cases[0].obls += b.ip.obls[:cons]
    run_cases(c, b, cases, QS)


@check('C18')
def c_enc(c):
    c.extra['explanation'] = EXPL
    b, cfg, x, y = prep(c, 'AllocInt', 'AllocIntConfig')
    cases = []
    fld = ('val_le',)
    common(c, b, 'AllocInt', cfg, fld, x, y, cases)
    pad_case(c, b, 'AllocInt', cfg, fld, cases, 'from_gate_ids')
    s_ = sym('s', True)
    wsh = {'shift_left': lambda W: word.P2(s_) * WA,
           'shift_right': lambda W: W.hi('A', N, s_, W.pc0) + W.hi('A', N, n, W.pc0) * (word.P2(N) - word.P2(sub(N, s_)))}
    for nm, sp in [('shift_left', lambda a, d, Nv, M, s, q: (a << q[s_]) & M),
                   ('shift_right', lambda a, d, Nv, M, s, q: (sgn(a, Nv) >> q[s_]) & M)]:
        def get(st, nm=nm):
            f = find_fn(c.J, nm, 'AllocInt')
            r = b.okcall(f, x, s_, st=st)
            return f, b.bits(b.field(b.val(r, st), *fld), st)
        build_case(c, b, cases, f'AllocInt::{nm}', get, sp, lambda Nv: Nv,
                   params=[(s_, lambda Nv: range(Nv + 1) if Nv <= 16 else [0, 1, 2, 7, 8, Nv // 2, Nv - 1, Nv])],
                   assume=[ge0(sub(N, s_))], ws=same(N, wsh[nm]))
    v_ = sym('v', True)

    def getb(st):
        f = find_fn(c.J, 'from_biguint', 'AllocInt')
        r = b.okcall(f, b.cell(v_, st), cfg, st=st)
        return f, b.bits(b.field(b.val(r, st), *fld), st)
    build_case(c, b, cases, 'AllocInt::from_biguint', getb, lambda a, d, Nv, M, s, q: q[v_], lambda Nv: Nv,
               params=[(v_, lambda Nv: range(1 << Nv) if Nv <= 4 else sorted(
                   {0, 1, 2, 127, 128, 255, 256, 257, (1 << Nv) - 1, (1 << Nv) - 2, 1 << (Nv - 1), (1 << (Nv - 1)) - 1} & set(range(1 << min(Nv, 10))) |
                   {(1 << Nv) - 1, 1 << (Nv - 1), (1 << Nv) // 3, 0xdeadbeefcafe1234567890 % (1 << Nv)}))],
               assume=[ge0(sub(N, mk('nbits', v_)))], ws=same(N, lambda W: W.num(v_)))
    for nm, v in [('zero', 0), ('one', 1)]:
        def get(st, nm=nm):
            f = find_fn(c.J, nm, 'AllocInt')
            r = b.okcall(f, cfg, st=st)
            return f, b.bits(b.field(b.val(r, st), *fld), st)
        build_case(c, b, cases, f'AllocInt::{nm}', get, (lambda v: lambda a, d, Nv, M, s, q: v)(v), lambda Nv: Nv,
                   ws=same(N, lambda W, v=v: word.K(v)))
    run_cases(c, b, cases, QS)


EXPL = ('Abstract interpretation of the builders on an abstract circuit, with the width N (and shift amounts, '
        'constants, ...) symbolic: every loop is summarised by a closed form or recurrence, every module call '
        'stays symbolic, giving for each operation its outputs as terms over the inputs, valid for all N. '
        'The summary is compared with the word-level specification: by word-level abstraction (carry recurrences, shifts, '
        'folds, multiplexers, shift-and-add and reduction recurrences as integer expressions modulo 2^N; case split with linear '
        'arithmetic) for every width, and by folding the summary at ground sizes (exhaustive operand sets up to N=5, boundary and '
        'carry patterns above, plus sizes around every integer constant occurring in the summary). '
        'Panic obligations (index, underflow, arity, foreign gate, Err) are proved from path conditions or folded likewise.')

# ---------------------------------------------------------------- AllocFp
P_, R_ = sym('p', True), sym('rexp', True)
FP = [(3, 2, 6), (3, 3, 9), (5, 3, 8), (7, 3, 10), (7, 5, 12), (11, 4, 12), (13, 4, 10), (17, 5, 12), (31, 5, 12),
      (61, 6, 14), (127, 7, 16), (251, 8, 18), (257, 9, 20), (8191, 13, 31), (65537, 17, 36), (2147483647, 31, 64), (4294967291, 32, 66)]
FPBIG = [(2**61 - 1, 61, 128), (2**89 - 1, 96, 200), (21888242871839275222246405745257275088696311157297823662689037894645226208583, 256, 520)]


def fp_pairs(p, seed, hi=None):
    hi = hi or p
    if hi <= 31 and p <= 31:
        return [(a, b) for a in range(hi) for b in range(p)]
    r = random.Random(seed + p)
    sp = [0, 1, 2, p - 1, p - 2, p // 2, p // 2 + 1]
    ps = [(a, b) for a in sp for b in sp]
    for _ in range(60):
        x = r.randrange(p)
        ps += [(x, r.randrange(p)), (x, p - x if x else 0), (x, (p + 1 - x) % p), (x, (p - 1 - x) % p), (x, x)]
    return ps


def fp_session(c):
    b = B(c.J)
    st = b.st
    for a in [ge0(sub(N, add(R_, R_, I(2)))), ge0(sub(R_, mk('nbits', P_))), ge0(sub(P_, I(3))), ge0(sub(R_, I(2)))]:
        st.assume(a)
    ic = b.new_cfg('AllocIntConfig')
    f = find_fn(c.J, 'new', 'AllocFpConfig')
    cfg = b.cell(b.okcall(f, b.cell(b.cref), ic, P_, R_))
    x = b.operand('AllocFp', cfg)
    y = b.operand('AllocFp', cfg)
    return b, cfg, x, y, f


def fp_insts(c, cases):
    cons = set()
    for cs in cases:
        cons |= constants([cs.outs])
        for d in cs.defs.values():
            cons |= constants([d[1], d[2]])
    L = list(FP)
    for k in sorted(cons):
        if 6 <= k <= 300:
            for r in ((k - 2) // 2, (k - 1) // 2, k, k + 1):
                if 2 <= r <= 260:
                    # dense and sparse moduli: p = 2^r - 1 and p = 2^(r-1) + 1
                    for p in ((1 << r) - 1, (1 << (r - 1)) + 1):
                        if p % 2 and p >= 3 and (p, r, 2 * r + 2) not in L:
                            L.append((p, r, 2 * r + 2))
                            if 2 * r + 3 in (k, k + 1):
                                L.append((p, r, 2 * r + 3))
    c.extra['parameters (p, r_exp, N)'] = L + (FPBIG if c.thorough else [])
    return L + (FPBIG if c.thorough else [])


def WP():
    return word.AT('c', P_)


def modp(V, nonneg=('A', 'B')):
    """the result is V reduced modulo p, for operands below p: case split on the
    comparisons the circuit makes, linear arithmetic over A, B, p, 2^(N-1)"""
    def go(W, L, e):
        if not W.same(W.pc0, L, N):
            return False
        for f in (ge0(sub(N, add(R_, R_, I(2)))), ge0(sub(R_, mk('nbits', P_))), ge0(sub(R_, I(2)))):
            if not W.holds(W.pc0, f):
                return False
        a, b_, p = ((ZERO, (x,)) for x in (word.atom('w', 'A'), word.atom('w', 'B'), word.atom('c', P_)))
        h = (n, ())
        F = word.Fraction
        cons = [(((p, F(1)),), F(-3)),
                (((h, F(1)), (p, F(-8))), F(-1))]          # 2^(N-1) >= 2^(2r+1) > 8p, as p < 2^r and r >= 2
        for x in (a, b_):
            cons += [(((x, F(1)),), F(0)), (((p, F(1)), (x, F(-1))), F(-1))]
        lin = word.Lin(cons)
        C = word.Cases(W, N, lin, lambda w: (((h, F(1)),), F(0)) if W.same(W.pc0, w, N) else None)
        v = V(W)
        cv = C.linear(v)

        def at(j):
            return word.addc(cv, (((p, F(1)),), F(0)), j, 0)

        def goal(lin, e):
            for j in range(-4, 5):
                x = at(j)
                if lin.proves(x) and lin.proves(word.addc((((p, F(1)),), F(0)), x, -1, -1)):
                    return not W.reduce(e - (v + WP() * j), N, W.pc0).d
            for j in (0, -1, 1, -2, 2, -3, 3):
                x = at(j)
                neg = (tuple((y, -q) for y, q in x[0]), -x[1] - 1)
                if not lin.proves(x) and not lin.proves(neg):
                    return [[x], [neg]]
            return False
        return C.prove(e, goal) is True
    return go


def redc_ok(pm):
    """Montgomery: with q = v*p' mod R and p*p' = -1 mod R, v + q*p = t*R exactly,
    0 <= t < 2p for v < p*R; the result is t reduced once"""
    def go(W, L, e):
        if not W.same(W.pc0, L, N):
            return False
        for f in (ge0(sub(N, add(R_, R_, I(2)))), ge0(sub(R_, mk('nbits', P_))), ge0(sub(R_, I(2)))):
            if not W.holds(W.pc0, f):
                return False
        ts = set()

        def find(x):
            for i in x.atoms():
                k = word.ATKEY[i]
                if k[0] == 'hie':
                    ts.add(i)
                if k[0] in ('sgn', 'eq'):
                    find(word.EXPR[k[1]])
        find(e)
        if len(ts) != 1:
            return False
        t = ts.pop()
        _, xk, w, o = word.ATKEY[t]
        q = word.AT('mod', word.ekey(W.reduce(WA * W.num(pm), R_, W.pc0)), R_)
        if not (W.same(W.pc0, w, N) and W.same(W.pc0, o, R_)) or W.reduce(word.EXPR[xk] - WA - q * WP(), N, W.pc0).d:
            return False
        F = word.Fraction
        va, vp, vt = ((ZERO, (x,)) for x in (word.atom('w', 'A'), word.atom('c', P_), t))
        (vq,), = [(q * WP()).d.keys()]
        vr, vpr, h = (R_, ()), (R_, vp[1]), (n, ())

        def con(c, *tv):
            return (tuple((v, F(x)) for x, v in tv), F(c))
        cons = [con(-3, (1, vp)), con(-1, (1, vr), (-1, vp)), con(0, (1, va)), con(-1, (1, vpr), (-1, va)),
                con(0, (1, vq)), con(0, (1, vpr), (-1, vp), (-1, vq)), con(0, (1, vpr), (-4, vp)),
                con(0, (1, h), (-2, vpr), (-2, vr)), con(0, (1, vt)), con(-1, (2, vp), (-1, vt))]
        C = word.Cases(W, N, word.Lin(cons), lambda w: con(0, (1, h)) if W.same(W.pc0, w, N) else None)
        T_ = word.E({vt: F(1)})

        def goal(lin, e):
            for j in (0, -1):
                x = con(0, (1, vt), (j, vp))
                if lin.proves(x) and lin.proves(con(-1, (1 - j, vp), (-1, vt))):
                    return not W.reduce(e - (T_ + WP() * j), N, W.pc0).d
            x = con(0, (1, vt), (-1, vp))
            return [[x], [con(-1, (1, vp), (-1, vt))]]
        return C.prove(e, goal) is True
    return go


FPW = {'add': lambda W: WA + WB, 'sub': lambda W: WA - WB, 'neg': lambda W: -WA}
FPW3 = {'add': lambda W: WA + WB * 2, 'sub': lambda W: WB * 2 - WA}


def run_fp(c, b, cases, mkpairs=None):
    for cs in cases:
        prove_case(c, cs)
    unproved(c, cases)
    failed = set()
    L = fp_insts(c, cases)
    for p, r, Nv in L:
        shared = {}
        byp = {}
        for cs in cases:
            if cs.name in failed:
                continue
            ps = (cs.pairs or fp_pairs)(p, c.seed) if not cs.pairs else cs.pairs(p, r, Nv, c.seed)
            key = tuple(ps[:50]), len(ps)
            w = len(ps)
            sh = shared.setdefault(key, {'mo': {}, 'fuel': 80000000})
            cols = word_cols([q[0] for q in ps], Nv) + word_cols([q[1] for q in ps], Nv)
            E = inst.Ev(w, {n: Nv - 1, P_: p, R_: r}, {1: cols}, cs.defs, sh, b.S.opaque)
            where = f'p={p} r_exp={r} N={Nv}'
            try:
                r2 = E.ev(cs.r2)
                outs = E.ev(cs.outs)
                if type(outs) is int:
                    outs = (outs,)
                want = cs.outlen(Nv) if callable(cs.outlen) else cs.outlen
                if len(outs) != want:
                    c.bad(cs.name, f'{where}: {len(outs)} output bits, expected {want}', loc_of(cs.fn))
                    failed.add(cs.name)
                    continue
                ws = words_of(outs, w)
            except inst.Stuck as x:
                if 'out of range' in str(x) or 'module called' in str(x):
                    c.bad(cs.name, f'{where}: {x}', loc_of(cs.fn))
                    failed.add(cs.name)
                else:
                    cs.stuck = f'{where}: {x}'
                continue
            c.count('ground instances')
            for j, (x, y) in enumerate(ps):
                e = cs.spec(x, y, p, r, Nv, r2)
                c.count('points compared')
                if e is not None and ws[j] != e:
                    c.bad(cs.name, f'{where}: for a={x} b={y} the built circuit computes {ws[j]}, the specification is {e}', loc_of(cs.fn))
                    failed.add(cs.name)
                    break
    for cs in cases:
        if cs.name in failed:
            continue
        if hasattr(cs, 'stuck'):
            c.und(cs.name, cs.stuck, loc_of(cs.fn))
        else:
            c.ok(cs.name, getattr(cs, 'proved', None) or 'closed-form summary agrees with the specification at every instanced (p, r_exp, N)', loc_of(cs.fn))
        if cs.obls:
            il = [(f'p={p} r_exp={r} N={Nv}', {n: Nv - 1, P_: p, R_: r}, cs.defs) for p, r, Nv in L if Nv < 70]
            Cmp(c, b, None).check_obls(cs.obls, il, cs.name)


def fp_case(c, b, cfg, cases, name, get, spec, outlen=lambda Nv: Nv, pairs=None, ws=None):
    cs = build_case(c, b, cases, name, get, spec, outlen, ws=ws)
    if cs:
        cs.pairs = pairs
        cs.r2 = b.field(b.val(cfg, cs.st), 'r2')
    return cs


@check('C19')
def c_fpadd(c):
    c.extra['explanation'] = EXPL
    b, cfg, x, y, fnew = fp_session(c)
    cons = list(b.ip.obls)
    cases = []
    fld = ('val', 'val_le')
    ops = [('Add', 'add', 2, lambda a, d, p, r, Nv, r2: (a + d) % p),
           ('Sub', 'sub', 2, lambda a, d, p, r, Nv, r2: (a - d) % p),
           ('Neg', 'neg', 1, lambda a, d, p, r, Nv, r2: -a % p)]
    for tr, nm, ar, spec in ops:
        def get(st, tr=tr, nm=nm, ar=ar):
            f = find_fn(c.J, nm, 'AllocFp', tr)
            r = b.call(f, *([x] if ar == 1 else [x, y]), st=st)
            return f, b.bits(b.field(b.val(r, st), *fld), st)
        fp_case(c, b, cfg, cases, f'AllocFp {nm}', get, spec, ws=modp(FPW[nm]))
        if ar == 2:
            def get2(st, tr=tr, nm=nm):
                f = find_fn(c.J, nm + '_assign', 'AllocFp', tr + 'Assign')
                z = b.cell(b.val(x, st), st)
                b.call(f, z, y, st=st)
                return f, b.bits(b.field(b.val(z, st), *fld), st)
            fp_case(c, b, cfg, cases, f'AllocFp {nm}_assign', get2, spec, ws=modp(FPW[nm]))

            def get3(st, tr=tr, nm=nm):
                f = find_fn(c.J, nm, 'AllocFp', tr)
                r = b.cell(b.call(f, x, y, st=st), st)
                r2 = b.call(f, y, r, st=st)
                return f, b.bits(b.field(b.val(r2, st), *fld), st)
            fp_case(c, b, cfg, cases, f'AllocFp {nm} of a result', get3,
                    (lambda spec: lambda a, d, p, r, Nv, r2: spec(d, spec(a, d, p, r, Nv, r2), p, r, Nv, r2))(spec), ws=modp(FPW3[nm]))
    for nm, sp in [('eq', lambda a, d, *_: int(a == d)), ('neq', lambda a, d, *_: int(a != d))]:
        def get(st, nm=nm):
            f = find_fn(c.J, nm, 'AllocFp')
            return f, one_bit(b, b.okcall(f, x, y, st=st))
        fp_case(c, b, cfg, cases, f'AllocFp::{nm}', get, sp, 1, ws=same(ONE, WPRED[nm]))
    for nm, v in [('zero', 0), ('one', 1)]:
        def get(st, nm=nm):
            f = find_fn(c.J, nm, 'AllocFp')
            r = b.okcall(f, cfg, st=st)
            return f, b.bits(b.field(b.val(r, st), *fld), st)
        fp_case(c, b, cfg, cases, f'AllocFp::{nm}', get, (lambda v: lambda *_: v)(v), ws=same(N, lambda W, v=v: word.K(v)))

    def geti(st):
        f = find_fn(c.J, 'to_gate_ids', 'AllocFp')
        return f, b.bits(b.call(f, y, st=st), st)
    fp_case(c, b, cfg, cases, 'AllocFp::to_gate_ids of the second operand', geti, lambda a, d, *_: d,
            ws=same(N, lambda W: WB))

    def geto(st):
        f = find_fn(c.J, 'output', 'AllocFp')
        b.okcall(f, x, st=st)
        return f, b.topc(st)[2]
    fp_case(c, b, cfg, cases, 'AllocFp::output', geto, lambda a, d, *_: a, ws=same(N, lambda W: WA))

    def getg(st):
        f = find_fn(c.J, 'from_gate_ids_unchecked', 'AllocFp')
        k = fresh('k', True)
        v = seq(comp(N, k, builder.gb(I(1), builder.inp(1, k))))
        r = b.call(f, v, cfg, st=st)
        return f, b.bits(b.field(b.val(r, st), *fld), st)
    fp_case(c, b, cfg, cases, 'AllocFp::from_gate_ids_unchecked', getg, lambda a, d, *_: a, ws=same(N, lambda W: WA))

    def getb(st):
        f = find_fn(c.J, 'from_biguint_unchecked', 'AllocFp')
        r = b.call(f, b.cell(sub(P_, ONE), st), cfg, st=st)
        return f, b.bits(b.field(b.val(r, st), *fld), st)
    fp_case(c, b, cfg, cases, 'AllocFp::from_biguint_unchecked', getb, lambda a, d, p, *_: p - 1, ws=same(N, lambda W: WP() - word.K(1)))
    run_fp(c, b, cases)


@check('C20')
def c_fpmul(c):
    c.extra['explanation'] = EXPL
    c.assumptions.append('p odd, 3 <= p < R = 2^r_exp, N >= 2 r_exp + 2; operands reduced')
    b, cfg, x, y, fnew = fp_session(c)
    cons = list(b.ip.obls)
    cases = []
    fld = ('val', 'val_le')

    def redc(t, p, r):
        return t * pow(1 << r, -1, p) % p

    def getm(st):
        m = b.field(b.val(cfg, st), 'mont_red_mid')
        mi = isint(getfield(m, '', 0, '0'))
        k = fresh('k', True)
        k2 = fresh('k', True)
        return fnew, seq(comp(N, k2, mk('mo', mi, k2, seq(comp(N, k, builder.inp(1, k))))))

    def mpairs(p, r, Nv, seed):
        R = 1 << r
        hi = p * R
        rr = random.Random(seed + p)
        if hi <= 300:
            vs = list(range(hi))
        else:
            vs = [0, 1, p - 1, p, p + 1, R - 1, R, R + 1, hi - 1, hi - p, hi // 2, (p - 1) * (p - 1), p * p - 1, 2 * p, p << (r - 1), R * (p - 1)]
            vs += [rr.randrange(hi) for _ in range(120)] + [p * rr.randrange(R) for _ in range(30)]
            vs = [v for v in vs if v < hi]
        return [(v, 0) for v in vs]
    fp_case(c, b, cfg, cases, 'Montgomery reduction: REDC(v) = v * R^-1 mod p for 0 <= v < p*R', getm,
            lambda a, d, p, r, Nv, r2: redc(a, p, r), pairs=mpairs,
            ws=redc_ok(b.field(b.val(cfg), 'p_minus_inv')))

    spec = lambda a, d, p, r, Nv, r2: redc(redc(a * d, p, r) * r2, p, r)
    try:
        mred = isint(getfield(b.field(b.val(cfg), 'mont_red_mid'), '', 0, '0'))
        r2t = b.field(b.val(cfg), 'r2')
    except Exception:
        mred = r2t = None

    def wmul(W):
        f = lambda x: word.AT('fn', 'REDC', word.ekey(W.reduce(x, N, W.pc0)))
        return f(f(WA * WB) * W.num(r2t))
    wm = same(N, wmul) if mred is not None else None

    def get(st):
        f = find_fn(c.J, 'mul', 'AllocFp', 'Mul')
        r = b.call(f, x, y, st=st)
        return f, b.bits(b.field(b.val(r, st), *fld), st)
    cs = fp_case(c, b, cfg, cases, 'AllocFp mul = REDC(REDC(a*b) * r2)', get, spec, ws=wm)
    if cs:
        cs.opaque = {mred: 'REDC'}

    def get2(st):
        f = find_fn(c.J, 'mul_assign', 'AllocFp', 'MulAssign')
        z = b.cell(b.val(x, st), st)
        b.call(f, z, y, st=st)
        return f, b.bits(b.field(b.val(z, st), *fld), st)
    cs = fp_case(c, b, cfg, cases, 'AllocFp mul_assign = REDC(REDC(a*b) * r2)', get2, spec, ws=wm)
    if cs:
        cs.opaque = {mred: 'REDC'}
    if cases:
        cases[0].obls += cons

    # the same circuit, with the constant r2 a parameter of its own
    fb = [f for f in c.J['fns'] if f.get('name') == 'build_mul_circuit' and (f.get('self_ty') or {}).get('d', '').endswith('AllocFpConfig')]
    r2s = sym('r2', True)
    if fb:
        def getp(st):
            f = fb[0]
            args = []
            cv = b.val(cfg, st)
            for prm in f['params']:
                nm = (prm['pat'] or {}).get('name') or ''
                args.append(None)
            ic = b.cell(b.field(cv, 'int_config'), st)
            m = b.okcall(f, b.cell(b.cref, st), ic, b.cell(r2s, st), b.field(cv, 'mont_red_mid'), st=st)
            mi = isint(getfield(m, '', 0, '0'))
            k, k2 = fresh('k', True), fresh('k', True)
            return f, seq(comp(N, k2, mk('mo', mi, k2, seq(comp(add(N, N), k, builder.inp(1, k))))))
        sub_cases = []
        cs = None
        try:
            cs = build_case(c, b, sub_cases, 'product circuit with r2 = R^2 mod p computes a*b mod p', getp, None, lambda Nv: Nv,
                            assume=[ge0(sub(N, mk('nbits', r2s)))])
        except Exception as e:
            c.und('product circuit with r2 = R^2 mod p computes a*b mod p', 'private builder has another shape: ' + repr(e)[:200])
        if cs:
            bad = stuck = None
            for p, r, Nv in fp_insts(c, cases):
                ps = fp_pairs(p, c.seed)
                cols = word_cols([q[0] for q in ps], Nv) + word_cols([q[1] for q in ps], Nv)
                E = inst.Ev(len(ps), {n: Nv - 1, P_: p, R_: r, r2s: (1 << (2 * r)) % p}, {1: cols}, cs.defs, {'mo': {}, 'fuel': 80000000}, b.S.opaque)
                try:
                    ws = words_of(E.ev(cs.outs), len(ps))
                except inst.Stuck as e:
                    stuck = str(e)
                    break
                c.count('ground instances')
                for (a, d), v in zip(ps, ws):
                    c.count('points compared')
                    if v != a * d % p:
                        bad = f'p={p} r_exp={r} N={Nv}: a={a} b={d} gives {v}, not {a * d % p}'
                        break
                if bad:
                    break
            if bad:
                c.bad(cs.name, bad, loc_of(cs.fn))
            elif stuck:
                c.und(cs.name, stuck, loc_of(cs.fn))
            else:
                c.ok(cs.name, 'closed-form summary agrees at every instanced (p, r_exp, N)', loc_of(cs.fn))
    run_fp(c, b, cases)
    # constants of the configuration
    b.st.force()
    cv = b.val(cfg)
    insts = fp_insts(c, cases)
    for nm, spec, key in [('p_minus_inv', lambda p, r: lambda v: 0 <= v < (1 << r) and (v * p + 1) % (1 << r) == 0, None),
                          ('r2', lambda p, r: lambda v: v == (1 << (2 * r)) % p, 'r2'),
                          ('p', lambda p, r: lambda v: v == p, None), ('r_exp', lambda p, r: lambda v: v == r, None)]:
        t = b.field(cv, nm)
        name = {'p_minus_inv': 'p_minus_inv * p = -1 mod R', 'r2': 'r2 = R^2 mod p'}.get(nm, f'config field {nm}')
        vals = []
        try:
            for p, r, Nv in insts:
                E = inst.Ev(1, {n: Nv - 1, P_: p, R_: r}, {}, {}, None, b.S.opaque)
                vals.append((p, r, E.ev(t)))
        except inst.Stuck as e:
            c.und(name, str(e), loc_of(fnew))
            continue
        wrong = [(p, r, v) for p, r, v in vals if not spec(p, r)(v)]
        if not wrong:
            c.ok(name, f'holds at {len(vals)} instanced (p, r_exp)', loc_of(fnew), show(t)[:200])
        else:
            p, r, v = wrong[0]
            k = name
            if nm == 'r2':
                k = 'AllocFpConfig::new: r2 is R^2 mod R (= 0)' if all(v == 0 for _, _, v in vals) else name
            c.bad(name, f'AllocFpConfig::new sets {nm} = {show(t)[:120]}; for p={p} r_exp={r} that is {v}', loc_of(fnew), key=k)
