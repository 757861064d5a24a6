"""Builder checks: summaries of the circuit builders (all N at once) compared
with word-level specifications."""
import json, random
from terms import *
import terms as Tm
import builder, interp, inst
from interp import Unsupported

n = sym('n', True)
N = add(n, ONE)


class Missing(Exception):
    pass


def find_fn(J, name, adt=None, trait=None, free=False):
    for f in J['fns']:
        if f.get('name') != name or f.get('in_trait'):
            continue
        if free:
            if f.get('self_ty') is None and not f.get('trait'):
                return f
            continue
        t = f.get('self_ty') or {}
        while t.get('k') == 'ref':
            t = t['t']
        if t.get('d', '').split('::')[-1] != adt:
            continue
        tr = (f.get('trait') or '').split('::')[-1]
        if (trait or '') != tr:
            continue
        return f
    raise Missing(f'{adt or ""}::{name}' + (f' of {trait}' if trait else ''))


def okval(v):
    """value of a Result under Ok, with the condition for Ok"""
    c = isvar(v, 'Ok')
    return c, getfield(v, 'Ok', 0, '0')


class B:
    def __init__(self, J, conc=None):
        self.J = J
        self.S = builder.Session(J)
        self.S.defs = {}
        self.ip = self.S.ip
        self.st = interp.St()
        self.top = self.S.circ(self.st)
        self.cref = self.S.cref(self.top)
        self.N = N
        self.cty = {('c', 'N'): N}
        self.marks = []

    def call(self, fn, *args, st=None):
        st = st or self.st
        v = self.ip.call_fn(st, fn, list(args), dict(self.cty))
        st.force()
        return v

    def okcall(self, fn, *args, st=None):
        v = self.call(fn, *args, st=st)
        c, r = okval(v)
        self.ip.obl('result-ok', st or self.st, c, fn.get('span'), None)
        return r

    def cell(self, v, st=None):
        return self.ip.ref(self.ip.alloc(st or self.st, v))

    def new_cfg(self, ty, *extra):
        f = find_fn(self.J, 'new', ty)
        r = self.okcall(f, self.cell(self.cref), *extra)
        return self.cell(r)

    def operand(self, ty, cfg):
        f = find_fn(self.J, 'new', ty)
        return self.cell(self.okcall(f, cfg))

    def val(self, r, st=None):
        return self.ip.deref_val(st or self.st, r)

    def field(self, v, *names):
        for nm in names:
            d, vn = v.args[0], v.args[1]
            idx = Tm.ADTS[d][vn].index(nm)
            v = getfield(v, vn, idx, nm)
        return v

    def bits(self, v, st=None):
        """vector of gate ids -> vector of boolean functions"""
        v = self.val(v, st)
        s = as_seq(v)
        out = []
        for g in s.args:
            if g.op == 'el':
                out.append(el(self.S.gate(g.args[0])[1]))
            else:
                k = fresh('k', True)
                out.append(comp(g.args[1], k, self.S.gate(comp_at(g, k))[1]))
        return seq(*out)

    def defs(self, st=None):
        st = st or self.st
        st.force()
        out = {}
        for m, c in self.S.mods.items():
            if c in st.cells:
                v = st.cells[c]
                if v.op == 'adt' and v.args[0] == 'Circ':
                    out[m] = v.args[2:5]
        return out

    def topc(self, st=None):
        st = st or self.st
        return self.ip.readcell(st, self.top).args[2:5]


def constants(ts):
    """integer constants occurring in the summaries: sizes worth instancing"""
    out = set()
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == 'poly':
                for m, c in x.args:
                    if not m and 6 <= abs(c) <= 600:
                        out.add(abs(c))
                    elif m and 6 <= abs(c) <= 600:
                        out.add(abs(c))
    return out


def word_cols(words, width):
    """list of integers (one per column) -> per-bit column vectors"""
    vs = [0] * width
    for c, w in enumerate(words):
        for i in range(width):
            if (w >> i) & 1:
                vs[i] |= 1 << c
    return vs


def words_of(cols, ncol):
    out = [0] * ncol
    for i, v in enumerate(cols):
        if type(v) is not int:
            raise inst.Stuck('non-boolean output')
        for c in range(ncol):
            if (v >> c) & 1:
                out[c] |= 1 << i
    return out


def pairs(Nv, seed, cap=220):
    """operand pairs: exhaustive when small, else boundary + random"""
    M = (1 << Nv) - 1
    if 2 * Nv <= 10:
        return [(a, b) for a in range(M + 1) for b in range(M + 1)]
    r = random.Random(seed * 1000 + Nv)
    sp = [0, 1, 2, M, M - 1, M >> 1, (M >> 1) + 1, (M >> 1) - 1, 3, M // 3]
    ps = [(a, b) for a in sp for b in sp]
    for i in range(min(Nv, 140)):
        j = i * Nv // min(Nv, 140)
        ps += [(1 << j, M ^ (1 << j)), (1 << j, 1 << r.randrange(Nv))]
        x = r.getrandbits(Nv)
        ps += [(x, x ^ (1 << j))]
    for j in range(1, Nv + 1):      # carry chains: from bit i up to bit j
        for i in (0, j // 8, j // 2):
            ps.append((((1 << j) - (1 << i)) & M, 1 << i))
    for _ in range(cap):
        x = r.getrandbits(Nv)
        ps += [(x, r.getrandbits(Nv))]
        if _ % 4 == 0:
            ps += [(x, x), (x, (x + 1) & M), (x, (~x) & M), (x, (-x) & M)]
    return ps


def sgn(x, Nv):
    return x - (1 << Nv) if x >> (Nv - 1) else x


class Cmp:
    """decides one family of summaries against specifications"""

    def __init__(self, c, b, sizes):
        self.c, self.b = c, b
        self.sizes = sizes
        self.nobl = 0

    def check_obls(self, obls, insts, what):
        """insts: list of (label, syms, defs) ground parameters; a failing
        obligation with satisfied path condition is a definite panic"""
        c, b = self.c, self.b
        for o in obls:
            if o['kind'] == 'overflow':
                continue
            loc = o['sp']
            name = f"{what}: {o['kind']} at {loc}"
            free = [x for x in free_syms(o['cond'])]
            for p in o['pc']:
                free += [x for x in free_syms(p) if x not in free]
            hit = None
            stuck = None
            tried = 0
            for label, syms, defs in insts:
                ks = [x for x in free if x not in syms]
                if any(not isnat(x) for x in ks) or len(ks) > 2:
                    stuck = 'free symbols ' + str([x.args[0] for x in ks][:4])
                    continue
                rng = range(0, 14)
                import itertools
                for vals in itertools.product(rng, repeat=len(ks)):
                    E = inst.Ev(1, {**syms, **dict(zip(ks, vals))}, {}, defs, None, b.S.opaque)
                    try:
                        if not all(E.ev(p) for p in o['pc']):
                            continue
                        tried += 1
                        if E.ev(o['cond']) == 0:
                            hit = (label, dict(zip([k.args[0] for k in ks], vals)))
                            break
                    except inst.Stuck as x:
                        stuck = str(x)
                if hit:
                    break
            if hit:
                c.bad(name, f"fails for {hit[0]} {hit[1] or ''}", loc, key=None)
            elif tried:
                c.ok(name, f'holds at {tried} reachable ground instances (no parametric proof)', loc)
            elif stuck:
                c.und(name, stuck, loc)
            else:
                c.ok(name, 'not reached at any ground instance (no parametric proof)', loc)
