"""Word-level abstract interpretation of builder summaries.

A bit sequence (least significant bit first) is mapped to an integer
expression in the operands, for every width at once; equality with the
specification is then decided by normal form modulo 2^width, or by a case split
over linear inequalities.  Sound rules only: anything not covered raises
NoProof, and the caller falls back to folding."""
import itertools
from fractions import Fraction
from terms import *
import terms as Tm
import facts as Fx
import builder


class NoProof(Exception):
    pass


# ---------------------------------------------------------------- integer expressions
ATOMS = {}
ATKEY = []
BOOLK = ('bit', 'sgn', 'eq', 'wb', 'cb', 'ic')


def atom(*key):
    i = ATOMS.get(key)
    if i is None:
        i = ATOMS[key] = len(ATKEY)
        ATKEY.append(key)
    return i


def isbool(i):
    return ATKEY[i][0] in BOOLK


def const_split(p):
    """poly -> (non-constant part, constant)"""
    if p.op != 'poly':
        return p, 0
    c = poly_dict(p).get((), 0)
    return (sub(p, I(c)) if c else p), c


class E:
    """sum of coefficient * 2^exponent * product of atoms"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    def __add__(self, o):
        d = dict(self.d)
        for k, c in o.d.items():
            v = d.get(k, 0) + c
            if v:
                d[k] = v
            else:
                d.pop(k, None)
        return E(d)

    def __neg__(self):
        return E({k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            return E({k: c * o for k, c in self.d.items()} if o else {})
        d = {}
        for (e1, a1), c1 in self.d.items():
            for (e2, a2), c2 in o.d.items():
                e, c = const_split(add(e1, e2))
                at = sorted(a1 + a2)
                out = []
                for x in at:
                    if out and out[-1] == x and isbool(x):
                        continue
                    out.append(x)
                k = (e, tuple(out))
                v = d.get(k, 0) + c1 * c2 * Fraction(2) ** c
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        return E(d)

    def key(self):
        return tuple(sorted(((e.uid, a, c) for (e, a), c in self.d.items())))

    def atoms(self):
        return sorted({x for _, a in self.d for x in a})


def K(i):
    return E({(ZERO, ()): Fraction(i)} if i else {})


def P2(p):
    e, c = const_split(p)
    return E({(e, ()): Fraction(2) ** c})


def AT(*key):
    return E({(ZERO, (atom(*key),)): Fraction(1)})


ZEROE, ONEE = K(0), K(1)
EXPR = {}          # key -> E (for atoms that mention expressions)


def ekey(e):
    k = e.key()
    EXPR[k] = e
    return k


def v2(q):
    n, d = q.numerator, q.denominator
    s = 0
    while n % 2 == 0:
        n //= 2
        s += 1
    while d % 2 == 0:
        d //= 2
        s -= 1
    if d != 1:
        raise NoProof('fraction')
    return s


def show_e(e):
    out = []
    for (x, a), c in sorted(e.d.items(), key=str):
        out.append(f"{c}*2^({show(x)})*" + '*'.join(show_at(i) for i in a))
    return ' + '.join(out) or '0'


def show_at(i):
    k = ATKEY[i]
    r = []
    for x in k:
        if isinstance(x, T):
            r.append(show(x))
        elif x in EXPR if isinstance(x, tuple) else False:
            r.append('{' + show_e(EXPR[x]) + '}')
        else:
            r.append(str(x))
    return ':'.join(r)


# ---------------------------------------------------------------- truth tables
BO = ('not', 'and', 'xor', 'ite', 'true', 'false')


def batoms(t, out):
    if t.op in BO:
        for x in t.args:
            batoms(x, out)
    elif t not in out:
        out.append(t)


def bval(t, m):
    op = t.op
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'not':
        return not bval(t.args[0], m)
    if op == 'and':
        return all(bval(x, m) for x in t.args)
    if op == 'xor':
        return bval(t.args[0], m) != bval(t.args[1], m)
    if op == 'ite':
        return bval(t.args[1], m) if bval(t.args[0], m) else bval(t.args[2], m)
    return m[t]


def beqv(a, b):
    """propositional equivalence, leaves uninterpreted"""
    if a is b:
        return True
    at = []
    batoms(a, at)
    batoms(b, at)
    if len(at) > 9:
        return False
    for vs in itertools.product((False, True), repeat=len(at)):
        m = dict(zip(at, vs))
        if bval(a, m) != bval(b, m):
            return False
    return True


def maj(a, b, c):
    return bor(band(a, b), band(a, c), band(b, c))


def natsym(p):
    return fresh(p, True)


class Word:
    """segs: {cid: [(start, length, name)]} words of the top circuit's inputs"""

    def __init__(self, defs, segs, pc):
        self.defs = defs
        self.segs = segs
        self.pc0 = tuple(pc)
        self.adders = {}
        self.mus = {}
        self.vlen = {}
        self.deps = {}
        self.fuel = 200000
        self.opaque = {}        # module -> name of a function on words
        self.exact = set()      # (key, L): the expression itself lies in [0, 2^L)

    # ------------------------------------------------------------ facts
    def dec(self, pc):
        return lambda c: Fx.decide(pc, c)

    def holds(self, pc, c):
        return Fx.decide(pc, c) is True

    def simp(self, pc, p):
        """resolve max0 under the facts"""
        def fn(x):
            if x.op == 'max0':
                y = self.simp(pc, x.args[0])
                if self.holds(pc, ge0(y)):
                    return y
                if self.holds(pc, ge0(scale(y, -1))):
                    return ZERO
            return None
        return rewrite(p, fn)

    def under(self, pc, k, count):
        return pc + (ge0(sub(sub(count, k), ONE)),)

    # ------------------------------------------------------------ expressions
    def reduce(self, e, w, pc):
        """modulo 2^w"""
        d = {}
        more = ZEROE
        for (x, a), c in e.d.items():
            m = [i for i in a if ATKEY[i][0] == 'mod']
            v = v2(c)
            if m and self.holds(pc, ge0(sub(add(x, I(v), ATKEY[m[0]][2]), w))):
                _, ek, _ = ATKEY[m[0]]
                rest = list(a)
                rest.remove(m[0])
                more = more + E({(x, tuple(rest)): c}) * EXPR[ek]
                continue
            if self.holds(pc, ge0(sub(add(x, I(v)), w))):
                continue
            d[(x, a)] = c
        if more.d:
            return self.reduce(E(d) + more, w, pc)
        return E(d)

    def hi(self, nm, ln, o, pc):
        """floor(word / 2^o)"""
        if isint(o) == 0:
            return AT('w', nm)
        if self.holds(pc, ge0(sub(o, ln))):
            return ZEROE
        if self.same(pc, add(o, ONE), ln):
            return AT('bit', nm, o)
        return AT('hi', nm, o)

    def same(self, pc, a, b):
        d = sub(a, b)
        return isint(d) == 0 or (self.holds(pc, ge0(d)) and self.holds(pc, ge0(scale(d, -1))))

    def canon(self, pc, o, alts):
        for a in alts:
            if self.same(pc, o, a):
                return a
        return o

    def slice_in(self, cid, o, L, env, pc):
        b = env.get(cid)
        if b is None:
            for start, ln, nm in self.segs.get(isint(cid), ()):
                if self.holds(pc, ge0(sub(o, start))) and self.holds(pc, ge0(sub(add(start, ln), add(o, L)))):
                    o2 = sub(o, start)
                    return self.hi(nm, ln, o2, pc) - P2(L) * self.hi(nm, ln, self.canon(pc, add(o2, L), [ln]), pc), True
            raise NoProof('input slice')
        ins, env2 = b
        ins = self.simp(pc, ins)
        try:
            return self.word(self.slice(ins, o, L, pc), env2, pc)[1:]
        except NoProof:
            # the low bits of a longer piece
            off = ZERO
            for g in ins.args if ins.op == 'seq' else ():
                if g.op == 'comp' and self.same(pc, off, o) and self.holds(pc, ge0(sub(g.args[1], L))):
                    return self.word(seq(g), env2, pc)[1], False
                off = add(off, seg_len(g))
            raise

    def slice(self, s, o, L, pc):
        if s.op == 'seq':
            off = ZERO
            for g in s.args:
                end = add(off, seg_len(g))
                if g.op == 'comp' and self.holds(pc, ge0(sub(o, off))) and self.holds(pc, ge0(sub(end, add(o, L)))):
                    k = natsym('k')
                    return seq(comp(L, k, comp_at(g, add(k, sub(o, off)))))
                off = end
        return seq_slice(s, o, add(o, L), self.dec(pc))

    def word(self, s, env, pc):
        """(length, expression equal to the value modulo 2^length, whether it is
        the value itself)"""
        self.fuel -= 1
        if self.fuel < 0:
            raise NoProof('fuel')
        if s.op != 'seq':
            s = as_seq(s)
        off = ZERO
        e = ZEROE
        exact = True
        last = None             # an inexact piece may only be the topmost
        for g in s.args:
            if last is not None:
                x, xo, xl = last
                e = e - P2(xo) * x + P2(xo) * AT('mod', ekey(self.reduce(x, xl, pc)), xl)
                exact, last = True, None
            if g.op == 'el':
                e = e + P2(off) * self.bit(g.args[0], env, pc)
                off = add(off, ONE)
                continue
            if g.op != 'comp':
                raise NoProof('segment ' + g.op)
            L = self.simp(pc, g.args[1])
            if isint(L) == 0:
                continue
            if not self.holds(pc, ge0(L)):
                raise NoProof('length of unknown sign')
            k = natsym('k')
            x, ex = self.body(comp_at(g, k), k, L, env, self.under(pc, k, L))
            e = e + P2(off) * x
            if not ex:
                exact, last = False, (x, off, L)
            off = add(off, L)
        return off, e if exact else self.reduce(e, off, pc), exact

    # ------------------------------------------------------------ vectors
    def indep(self, t, k):
        f = self.deps.get(t)
        if f is None:
            f = self.deps[t] = set(free_syms(t))
        return k not in f

    def shift_of(self, idx, k):
        o = sub(idx, k)
        if not self.indep(o, k):
            raise NoProof('index')
        return o

    def splits(self, b, k, out, seen):
        if b in seen:
            return
        seen.add(b)
        if b.op == 'ge0' and not self.indep(b, k):
            p = b.args[0]
            if self.indep(sub(p, k), k) or self.indep(add(p, k), k):
                out.append(b)
            return
        if b.op == 'eq0' and not self.indep(b, k):
            out.append(b)
            return
        if b.op in ('not', 'and', 'xor', 'ite'):
            for x in b.args:
                self.splits(x, k, out, seen)

    def body(self, b, k, L, env, pc):
        """value of the L bits b(0), b(1), ..."""
        sp = []
        self.splits(b, k, sp, set())
        for s in sp:
            d = Fx.decide(pc, s)
            if d is not None:
                return self.body(subst_b(b, s, B(d)), k, L, env, pc)
            p = s.args[0]
            c = 1 if self.indep(sub(p, k), k) else -1 if self.indep(add(p, k), k) else 0
            if not c:
                raise NoProof('split')
            rest = sub(p, scale(k, c))
            outer = pc[:-1]
            if s.op == 'eq0':
                at = scale(rest, -c)
                cuts = [at, add(at, ONE)]
            elif c == 1:
                cuts = [scale(rest, -1)]          # k >= -rest
            else:
                cuts = [add(rest, ONE)]           # k <= rest
            pts = [ZERO]
            for q in cuts:
                q = self.simp(outer, q)
                if self.holds(outer, ge0(scale(q, -1))):
                    q = ZERO
                if self.holds(outer, ge0(sub(q, L))):
                    q = L
                if not (self.holds(outer, ge0(q)) and self.holds(outer, ge0(sub(L, q)))):
                    raise NoProof('cut')
                pts.append(q)
            pts.append(L)
            e, exact = ZEROE, True
            last = None
            for x, y in zip(pts, pts[1:]):
                ln = sub(y, x)
                if isint(ln) == 0:
                    continue
                if last is not None:
                    z, zo, zl = last
                    e = e - P2(zo) * z + P2(zo) * AT('mod', ekey(self.reduce(z, zl, outer)), zl)
                    exact, last = True, None
                k2 = natsym('k')
                pc2 = self.under(outer, k2, ln)
                b2 = subst(b, {k: add(k2, x)})
                z, ex = self.body(b2, k2, ln, env, pc2)
                e = e + P2(x) * z
                if not ex:
                    exact, last = False, (z, x, ln)
            return e, exact
        return self.vec(self.poly(b, k, L, env, pc), L, pc[:-1])

    def vec(self, v, L, pc):
        e = ZEROE
        exact = True
        for ws, c in v.items():
            if not ws:
                e = e + c * (P2(L) - ONEE)
            elif len(ws) == 1:
                k = next(iter(ws))
                e = e + c * EXPR[k]
                exact = exact and (k, L) in self.exact
            else:
                e = e + c * AT('and', tuple(sorted(ws)), L)
        return e, exact

    def leaf(self, w, L, pc, exact):
        """vector polynomial of a word; complements are written as 1 - x"""
        if not exact:
            w = self.reduce(w, L, pc)
        full = P2(L) - ONEE
        if not w.d:
            return {}
        if not self.reduce(w - full, L, pc).d:
            return {frozenset(): ONEE}
        cs = [c for (x, a), c in w.d.items() if a]
        if cs and all(c < 0 for c in cs):
            k = ekey(full - w if exact else self.reduce(full - w, L, pc))
            if exact:
                self.exact.add((k, L))
            return {frozenset(): ONEE, frozenset([k]): -ONEE}
        k = ekey(w)
        if exact:
            self.exact.add((k, L))
        return {frozenset([k]): ONEE}

    def poly(self, b, k, L, env, pc):
        """multilinear polynomial of the bits of words: {set of words: coefficient}"""
        if self.indep(b, k):
            return clean({frozenset(): self.bit(b, env, pc)})
        op = b.op
        if op == 'not':
            return psub({frozenset(): ONEE}, self.poly(b.args[0], k, L, env, pc))
        if op == 'and':
            r = {frozenset(): ONEE}
            for x in b.args:
                r = pmul(r, self.poly(x, k, L, env, pc))
            return r
        if op == 'xor':
            x, y = (self.poly(z, k, L, env, pc) for z in b.args)
            return psub(padd(x, y), pmul({frozenset(): K(2)}, pmul(x, y)))
        if op == 'ite':
            c, x, y = (self.poly(z, k, L, env, pc) for z in b.args)
            return padd(pmul(c, psub(x, y)), y)
        outer = pc[:-1]
        if op == 'in':
            o = self.shift_of(b.args[1], k)
            e, ex = self.slice_in(b.args[0], o, L, env, outer)
            return self.leaf(e, L, outer, ex)
        if op == 'mo':
            mi, idx, vals = b.args
            if self.indep(vals, k):
                o = self.shift_of(idx, k)
                e, ex = self.cut(*self.modword(mi, vals, env, outer), o, L, outer)
                return self.leaf(e, L, outer, ex)
            return self.poly(builder.expand_mo(self.defs, mi, idx, vals), k, L, env, pc)
        if op == 'bit':
            v, idx = b.args
            if not self.indep(v, k):
                raise NoProof('bit of a varying number')
            o = self.shift_of(idx, k)
            return self.leaf(self.num_hi(v, o, outer) - P2(L) * self.num_hi(v, add(o, L), outer), L, outer, True)
        if op == 'at':
            s, idx = b.args
            if not self.indep(s, k):
                raise NoProof('varying vector')
            o = self.shift_of(idx, k)
            e, ex = self.cut(*self.vector(s, env, outer), o, L, outer)
            return self.leaf(e, L, outer, ex)
        raise NoProof('bit term ' + op + ' ' + show(b)[:80] + ' pc ' + ' '.join(show(x) for x in pc)[:200])

    def cut(self, w, e, exact, o, L, pc):
        """bits o .. o+L of (e mod 2^w)"""
        if isint(o) == 0:
            if not self.holds(pc, ge0(sub(w, L))):
                raise NoProof('slice beyond the word')
            return e, exact and self.same(pc, L, w)
        if not (self.holds(pc, ge0(o)) and self.holds(pc, ge0(sub(w, add(o, L))))):
            raise NoProof('slice beyond the word')
        end = add(o, L)
        hi2 = ZEROE if self.same(pc, end, w) else self.hie(e, w, end, pc)
        return self.hie(e, w, o, pc) - P2(L) * hi2, True

    def hie(self, e, w, o, pc):
        """floor((e mod 2^w) / 2^o)"""
        if self.same(pc, add(o, ONE), w):
            return self.sgn(e, w, pc)
        return AT('hie', ekey(self.reduce(e, w, pc)), w, o)

    def num(self, v):
        """integer term as an expression"""
        if v.op == 'poly':
            e = ZEROE
            for mono, c in v.args:
                x = K(c)
                for a in mono:
                    x = x * self.num1(a)
                e = e + x
            return e
        return self.num1(v)

    def num1(self, v):
        if v.op == 'pow2':
            return P2(v.args[0])
        return AT('c', v)

    def num_hi(self, v, o, pc):
        if isint(o) == 0:
            return self.num(v)
        if self.holds(pc, ge0(sub(o, mk('nbits', v)))):
            return ZEROE
        return AT('chi', v, o)

    def vector(self, s, env, pc):
        """(length, value) of a sequence-valued term"""
        if s in self.vlen:
            return self.vlen[s], AT('mu', s), True
        if s.op == 'seq':
            return self.word(s, env, pc)
        if s.op == 'muat':
            return self.vecmu(s, env, pc)
        if s.op == 'ite':
            c = Fx.decide(pc, s.args[0])
            if c is None:
                raise NoProof('undecided vector')
            return self.vector(s.args[1] if c else s.args[2], env, pc)
        raise NoProof('vector ' + s.op)

    def vecmu(self, s, env, pc):
        mu, j, count = s.args
        l, nv = mu.args[:2]
        if nv != 1:
            raise NoProof('several vectors in a recurrence')
        count = self.simp(pc, count)
        if not self.holds(pc, ge0(count)):
            raise NoProof('iteration count')
        L0, e0, _ = self.word(mu.args[2], env, pc)
        k = natsym('it')
        kk, x = fresh('b'), fresh('x')
        st = raw(mu.args[3], {bv(l): kk, mk('bx', l, 0): x})
        st = subst(st, {kk: k})
        self.vlen[x] = L0
        pc2 = self.under(pc, k, count)
        L1, e1, _ = self.word(st, env, pc2)
        if not self.same(pc2, L0, L1):
            raise NoProof('length changes')
        g = self.reduce(e1 - AT('mu', x), L0, pc2)
        a = atom('mu', x)
        if any(y == a or self.mentions(y, x) for y in g.atoms()):
            raise NoProof('recurrence is not additive')
        return L0, self.reduce(e0 + self.total(g, k, count, pc), L0, pc), False

    def mentions(self, i, x):
        return self._ment(ATKEY[i], x)

    def _ment(self, k, x):
        for y in k:
            if isinstance(y, T):
                if y is x or x in free_syms(y):
                    return True
            elif isinstance(y, tuple):
                if y in EXPR:
                    e = EXPR[y]
                    for (p, at) in e.d:
                        if x in free_syms(p) or any(self.mentions(z, x) for z in at):
                            return True
                elif self._ment(y, x):
                    return True
        return False

    def total(self, g, k, count, pc):
        """sum over k < count"""
        e = ZEROE
        for (x, at), c in g.d.items():
            e = e + self.total1(x, at, c, k, ZERO, count, pc)
        return e

    def total1(self, x, at, c, k, lo, hi, pc):
        rest = sub(x, k)
        if not self.indep(rest, k):
            raise NoProof('exponent of a summand')
        dep = [i for i in at if self.mentions(i, k)]
        for i in dep:
            if ATKEY[i][0] == 'ic':
                cut, below = self.cutat(ATKEY[i][1], k, lo, hi, pc)
                at2 = tuple(j for j in at if j != i)
                l, h = (lo, cut) if below else (cut, hi)
                return ZEROE if self.same(pc, l, h) else self.total1(x, at2, c, k, l, h, pc)
        oth = tuple(i for i in at if i not in dep)
        base = E({(ZERO, oth): c}) * P2(rest)
        if not dep:
            return base * (P2(hi) - P2(lo))
        if len(dep) > 1:
            raise NoProof('summand')
        key = ATKEY[dep[0]]
        if key[0] == 'bit':
            _, nm, idx = key
            ln = [s[1] for v in self.segs.values() for s in v if s[2] == nm][0]
            H = lambda p: self.hi(nm, ln, self.canon(pc, p, [ln]), pc)
        elif key[0] == 'cb':
            _, v, idx = key
            if not self.indep(v, k):
                raise NoProof('summand')
            H = lambda p: self.num_hi(v, p, pc)
        elif key[0] == 'wb':
            _, ek, w, idx = key
            if self._ment((ek,), k):
                raise NoProof('summand')
            H = lambda p: AT('mod', ek, w) if isint(p) == 0 else ZEROE if self.same(pc, p, w) else self.hie(EXPR[ek], w, p, pc)
        else:
            raise NoProof('summand')
        o = self.shift_of(idx, k)
        return base * (P2(lo) * H(add(o, lo)) - P2(hi) * H(add(o, hi)))

    def cutat(self, cond, k, lo, hi, pc):
        """(cut, True) if cond holds exactly below cut, (cut, False) if from cut on"""
        p = cond.args[0]
        if self.indep(sub(p, k), k):
            cut, below = scale(sub(p, k), -1), False
        elif self.indep(add(p, k), k):
            cut, below = add(p, k, ONE), True
        else:
            raise NoProof('condition of a summand')
        if self.holds(pc, ge0(sub(lo, cut))):
            cut = lo
        elif self.holds(pc, ge0(sub(cut, hi))):
            cut = hi
        elif not (self.holds(pc, ge0(sub(cut, lo))) and self.holds(pc, ge0(sub(hi, cut)))):
            raise NoProof('cut of a sum')
        return cut, below

    # ------------------------------------------------------------ modules
    def modword(self, mi, vals, env, pc):
        mcid, nin, outs = self.defs[mi]
        w = seq_len(outs)
        vals = self.simp(pc, vals)
        if mi in self.opaque:
            L, x, _ = self.word(vals, env, pc)
            if not self.same(pc, L, nin):
                raise NoProof('operands of a module')
            return w, AT('fn', self.opaque[mi], ekey(self.reduce(x, L, pc))), True
        if self.adder(mi):
            x = self.word(self.slice(vals, ZERO, w, pc), env, pc)[1]
            y = self.word(self.slice(vals, w, w, pc), env, pc)[1]
            return w, self.reduce(x + y, w, pc), False
        return self.word(outs, {mcid: (vals, env)}, pc)

    def adder(self, mi):
        r = self.adders.get(mi)
        if r is None:
            self.adders[mi] = False
            try:
                r = self.is_adder(mi)
            except NoProof:
                r = False
            self.adders[mi] = r
        return r

    def flat(self, t):
        """boolean helper modules with a fixed number of operands are inlined"""
        def fn(x):
            if x.op == 'mo' and x.args[2].op == 'seq' and all(g.op == 'el' for g in x.args[2].args):
                return self.flat(builder.expand_mo(self.defs, *x.args))
            return None
        return rewrite(t, fn)

    def is_adder(self, mi):
        """output i is a_i ^ b_i ^ c_i with c_0 = 0, c_(i+1) = majority: by
        truth table on the leading outputs and by induction on the rest"""
        cid, nin, outs = self.defs[mi]
        w = seq_len(outs)
        if isint(w) is not None or nin is not add(w, w) or outs.op != 'seq':
            return False
        a = lambda i: mk('in', cid, i)
        b = lambda i: mk('in', cid, add(w, i))
        carry = [FALSE]

        def c_at(i):
            while len(carry) <= i:
                j = len(carry) - 1
                carry.append(maj(a(I(j)), b(I(j)), carry[j]))
            return carry[i]
        pos = 0
        for g in outs.args:
            if pos is None:
                return False
            if g.op == 'el':
                if pos > 2 or not beqv(self.flat(g.args[0]), bxor(bxor(a(I(pos)), b(I(pos))), c_at(pos))):
                    return False
                pos += 1
                continue
            if g.op != 'comp':
                return False
            k = natsym('k')
            t = self.flat(comp_at(g, k))
            cs = []
            for x in subterms(t):
                if x.op in ('recat', 'muat') and x not in cs:
                    cs.append(x)
            cs = [x for x in cs if not any(y is not x and contains(y, lambda z: z is x) for y in cs)]
            if len(cs) != 1:
                return False
            cr = cs[0]
            ai, bi = a(add(k, I(pos))), b(add(k, I(pos)))
            u = fresh('u')
            for pol in (False, True):
                val = lambda x: bnot(x) if pol else x
                body = rewrite(t, lambda x: u if x is cr else None)
                if not beqv(body, bxor(bxor(ai, bi), val(u))):
                    continue
                if self.carrier(cr, k, pos, ai, bi, c_at(pos), val, u):
                    break
            else:
                return False
            pos = None
        return True

    def carrier(self, cr, k, pos, ai, bi, c0, val, u):
        """cr(k) is the carry into position pos + k (complemented by val)"""
        if cr.op == 'recat':
            r, idx = cr.args
            d = isint(sub(idx, k))
            n0 = isint(seq_len(r.args[1]))
            if d is None or n0 is None or d < 0:
                return False

            def at(j):
                return seq_at(r.args[1], I(j)) if j < n0 else rec_step(r, I(j), lambda i: at(isint(i)))
            try:
                base = at(d)
            except (RecursionError, TypeError):
                return False
            if d + 1 < n0:
                return False

            bad = []

            def selfat(i):
                if i is idx:
                    return u
                bad.append(i)
                return fresh('z')
            nxt = rec_step(r, add(idx, ONE), selfat)
        else:
            mu, i, idx = cr.args
            d = isint(sub(idx, k))
            if mu.args[1] != 1 or d is None or d < 0:
                return False
            base = mu.args[2 + i]
            for j in range(d):
                base = self.mustep(mu, I(j), base)
            bad = []
            nxt = self.mustep(mu, idx, u)
        if bad:
            return False
        base, nxt = self.flat(base), self.flat(nxt)
        return beqv(val(base), c0) and beqv(val(nxt), maj(ai, bi, val(u)))

    def mustep(self, mu, k, x):
        l = mu.args[0]
        kk, xx = fresh('b'), fresh('x')
        s = raw(mu.args[3], {bv(l): kk, mk('bx', l, 0): xx})
        return subst(s, {kk: k, xx: x})

    # ------------------------------------------------------------ single bits
    def sgn(self, e, w, pc):
        """bit w-1 of e mod 2^w"""
        e = self.reduce(e, w, pc)
        if not e.d:
            return ZEROE
        for (x, a), c in e.d.items():
            if len(e.d) == 1 and c == 1 and x is ZERO and len(a) == 1 and ATKEY[a[0]][0] == 'w':
                return AT('bit', ATKEY[a[0]][1], sub(w, ONE))
        return AT('sgn', ekey(e), w)

    def iszero(self, e, w, pc):
        """e = 0 mod 2^w"""
        e = self.reduce(e, w, pc)
        if not e.d:
            return ONEE
        # x xor y = 0  <->  x - y = 0
        for i in e.atoms():
            k = ATKEY[i]
            if k[0] == 'and' and len(k[1]) == 2:
                x, y = EXPR[k[1][0]], EXPR[k[1][1]]
                for s in (1, -1):
                    if not self.reduce(e * s - (x + y - AT(*k) * 2), w, pc).d:
                        return self.iszero(x - y, w, pc)
        n = self.reduce(-e, w, pc)
        if n.key() < e.key():
            e = n
        return AT('eq', ekey(e), w)

    def bit(self, t, env, pc):
        op = t.op
        if op == 'true':
            return ONEE
        if op == 'false':
            return ZEROE
        if op == 'not':
            return ONEE - self.bit(t.args[0], env, pc)
        if op == 'and':
            r = ONEE
            for x in t.args:
                r = r * self.bit(x, env, pc)
            return r
        if op == 'xor':
            x, y = (self.bit(z, env, pc) for z in t.args)
            return x + y - x * y * 2
        if op == 'ite':
            d = Fx.decide(pc, t.args[0])
            if d is not None:
                return self.bit(t.args[1] if d else t.args[2], env, pc)
            c, x, y = (self.bit(z, env, pc) for z in t.args)
            return c * (x - y) + y
        if op in ('ge0', 'eq0'):
            d = Fx.decide(pc, t)
            if d is not None:
                return K(int(d))
            if op == 'ge0':
                return AT('ic', t)
            raise NoProof('condition')
        if op == 'in':
            cid, i = t.args
            b = env.get(cid)
            if b is None:
                for start, ln, nm in self.segs.get(isint(cid), ()):
                    if self.holds(pc, ge0(sub(i, start))) and self.holds(pc, ge0(sub(sub(add(start, ln), i), ONE))):
                        return AT('bit', nm, self.canon(pc, sub(i, start), [sub(ln, ONE)]))
                raise NoProof('input bit')
            return self.bit(seq_at(b[0], i, self.dec(pc)), b[1], pc)
        if op == 'mo':
            mi, idx, vals = t.args
            mcid, nin, outs = self.defs[mi]
            if outs.op == 'seq' and len(outs.args) == 1 and outs.args[0].op == 'el':
                if not self.holds(pc, eq0(idx)):
                    raise NoProof('output index')
                return self.bit(outs.args[0].args[0], {mcid: (vals, env)}, pc)
            w, e, _ = self.modword(mi, vals, env, pc)
            return self.wbit(e, w, idx, pc)
        if op == 'at':
            w, e, _ = self.vector(t.args[0], env, pc)
            return self.wbit(e, w, t.args[1], pc)
        if op == 'bit':
            if self.holds(pc, ge0(sub(t.args[1], mk('nbits', t.args[0])))):
                return ZEROE
            return AT('cb', t.args[0], t.args[1])
        if op == 'muat':
            return self.fold(t, env, pc)
        if op == 'ex':
            l, count, cond = t.args
            k = fresh('b')
            return ONEE - self.forall(lambda s: subst(raw(bnot(cond), {bv(l): k}), {k: s}), count, env, pc)
        raise NoProof('bit ' + op)

    def wbit(self, e, w, idx, pc):
        if self.same(pc, add(idx, ONE), w):
            return self.sgn(e, w, pc)
        e = self.reduce(e, w, pc)
        if len(e.d) == 1:
            ((x, a), c), = e.d.items()
            if c == 1 and x is ZERO and len(a) == 1 and ATKEY[a[0]][0] == 'w':
                return AT('bit', ATKEY[a[0]][1], idx)
        return AT('wb', ekey(e), w, idx)

    def forall(self, cond, count, env, pc):
        count = self.simp(pc, count)
        if not self.holds(pc, ge0(count)):
            raise NoProof('count')
        k = natsym('k')
        e, _ = self.body(cond(k), k, count, env, self.under(pc, k, count))
        return self.iszero(P2(count) - ONEE - e, count, pc)

    def fold(self, t, env, pc):
        mu, i, count = t.args
        l, nv = mu.args[:2]
        if nv != 1:
            raise NoProof('fold over several values')
        init = self.bit(mu.args[2], env, pc)

        def step(x):
            def at(k):
                kk, xx = fresh('b'), fresh('x')
                s = raw(mu.args[3], {bv(l): kk, mk('bx', l, 0): xx})
                return subst(s, {kk: k, xx: x})
            return at
        k = natsym('k')
        if beqv(step(FALSE)(k), FALSE):
            return init * self.forall(step(TRUE), count, env, pc)
        if beqv(step(TRUE)(k), TRUE):
            none = self.forall(lambda s: bnot(step(FALSE)(s)), count, env, pc)
            return ONEE - (ONEE - init) * none
        raise NoProof('fold')


    # ------------------------------------------------------------ specifications
    def bitop(self, f, xs, L):
        """bitwise operation on words, f on vector polynomials"""
        ps = []
        for x in xs:
            k = ekey(x)
            ps.append(self.leaf(x, L, self.pc0, (k, L) in self.exact or x.d.keys() == {(ZERO, (i,)) for i in x.atoms() if ATKEY[i][0] == 'w'}))
        return self.vec(f(*ps), L, self.pc0)[0]

    def equal(self, L, e, wantL, want):
        if not self.same(self.pc0, L, wantL):
            return False
        d = self.reduce(e - want, L, self.pc0)
        out = {}
        for (x, a), c in d.d.items():
            ss = [ATKEY[i] for i in a if ATKEY[i][0] == 'sgn']
            es = [ATKEY[i] for i in a if ATKEY[i][0] == 'eq']
            # x < 0 and x = 0 exclude each other
            if any(s[2] is q[2] and (s[1] == q[1] or not self.reduce(EXPR[s[1]] + EXPR[q[1]], s[2], self.pc0).d) for s in ss for q in es):
                continue
            out[(x, a)] = c
        return not out


ONEP = {frozenset(): ONEE}
P_NOT = lambda x: psub(ONEP, x)
P_AND = lambda x, y: pmul(x, y)
P_OR = lambda x, y: psub(padd(x, y), pmul(x, y))
P_XOR = lambda x, y: psub(padd(x, y), pmul({frozenset(): K(2)}, pmul(x, y)))


def subst_b(t, a, v):
    return rewrite(t, lambda x: v if x is a else None)


def clean(v):
    return {k: c for k, c in v.items() if c.d}


def padd(x, y):
    r = dict(x)
    for k, c in y.items():
        r[k] = r[k] + c if k in r else c
    return clean(r)


def psub(x, y):
    return padd(x, {k: -c for k, c in y.items()})


def pmul(x, y):
    r = {}
    for k1, c1 in x.items():
        for k2, c2 in y.items():
            k = k1 | k2
            c = c1 * c2
            r[k] = r[k] + c if k in r else c
    return clean(r)


# ---------------------------------------------------------------- case split over linear inequalities
class Lin:
    """linear constraints  sum c_i x_i + c >= 0  over integers (Fourier-Motzkin)"""

    def __init__(self, cons):
        self.cons = list(cons)

    def infeasible(self, extra=()):
        cs = {norm(c) for c in list(self.cons) + list(extra)}
        vs = {v for c in cs for v, _ in c[0]}
        for _ in range(len(vs)):
            best = None
            for v in vs:
                p = sum(1 for c in cs if dict(c[0]).get(v, 0) > 0)
                m = sum(1 for c in cs if dict(c[0]).get(v, 0) < 0)
                if best is None or p * m < best[0]:
                    best = (p * m, v)
            v = best[1]
            vs.discard(v)
            pos, neg, rest = [], [], set()
            for c in cs:
                q = dict(c[0]).get(v, 0)
                if q:
                    (pos if q > 0 else neg).append(c)
                else:
                    rest.add(c)
            for a in pos:
                for b in neg:
                    qa, qb = dict(a[0])[v], -dict(b[0])[v]
                    d = {}
                    for x, y in a[0]:
                        d[x] = d.get(x, 0) + y * qb
                    for x, y in b[0]:
                        d[x] = d.get(x, 0) + y * qa
                    rest.add(norm((tuple((x, y) for x, y in d.items() if y), a[1] * qb + b[1] * qa)))
            cs = rest
            if len(cs) > 4000:
                return False
            if any(not c[0] and c[1] < 0 for c in cs):
                return True
        return any(not c[0] and c[1] < 0 for c in cs)

    def proves(self, c):
        """c >= 0"""
        neg = (tuple((v, -q) for v, q in c[0]), -c[1] - 1)
        return self.infeasible([neg])

    def plus(self, *cs):
        return Lin(self.cons + list(cs))


def norm(c):
    d, k = dict(c[0]), Fraction(c[1])
    if not d:
        return ((), k)
    den = 1
    for q in d.values():
        q = Fraction(q)
        den = den * q.denominator // gcd(den, q.denominator)
    d = {v: Fraction(q) * den for v, q in d.items()}
    k = k * den
    g = 0
    for q in d.values():
        g = gcd(g, int(q))
    g = g or 1
    return (tuple(sorted(((v, int(q) // g) for v, q in d.items()), key=lambda z: str(z[0]))), Fraction(k // g))       # integer tightening


def gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


class Cases:
    """E = V mod p (mod 2^w), under linear facts about the atoms"""

    def __init__(self, W, w, lin, top):
        self.W, self.w, self.lin, self.top = W, w, lin, top
        self.leaves = 0
        self.limit = 4000

    def linear(self, e):
        """E with neither products nor undetermined bits -> constraint"""
        d, c = {}, Fraction(0)
        for (x, a), q in e.d.items():
            if not a and x is ZERO:
                c += q
            elif not any(isbool(i) for i in a):
                d[(x, a)] = d.get((x, a), 0) + q
            else:
                return None
        return (tuple(d.items()), c)

    def inst(self, e, val):
        """replace known bits; rebuild expressions inside atoms"""
        out = ZEROE
        for (x, a), c in e.d.items():
            t = E({(x, ()): c})
            for i in a:
                t = t * self.inst_atom(i, val)
            out = out + t
        return out

    def inst_atom(self, i, val):
        if i in val:
            return K(val[i])
        k = ATKEY[i]
        if k[0] in ('sgn', 'eq'):
            e = self.inst(EXPR[k[1]], val)
            r = self.W.sgn(e, k[2], self.W.pc0) if k[0] == 'sgn' else self.W.iszero(e, k[2], self.W.pc0)
            if len(r.d) == 1:
                ((x, a), c), = r.d.items()
                if c == 1 and x is ZERO and len(a) == 1 and a[0] in val:
                    return K(val[a[0]])
            return r
        return E({(ZERO, (i,)): Fraction(1)})

    def candidates(self, e, val):
        out = []
        for i in e.atoms():
            k = ATKEY[i]
            if k[0] in ('sgn', 'eq'):
                sub_ = self.candidates(EXPR[k[1]], val)
                out += sub_ or [i]
        return out

    def prove(self, e, goal, lin=None, val=None):
        """goal(lin, e) -> True (proved) / list of constraints to split on / False"""
        lin = lin or self.lin
        val = val or {}
        self.limit -= 1
        if self.limit < 0:
            raise NoProof('too many cases')
        e = self.W.reduce(self.inst(e, val), self.w, self.W.pc0)
        cand = self.candidates(e, val)
        if cand:
            i = cand[0]
            k = ATKEY[i]
            d = EXPR[k[1]]
            c = self.linear(d)
            if c is None:
                raise NoProof('non-linear condition ' + show_e(d))
            # the residue of smallest absolute value
            h = self.top(k[2])
            # |d| < 2^(w-1)
            if not (lin.proves(addc(h, c, -1, -1)) and lin.proves(addc(h, c, 1, 0))):
                raise NoProof('range of ' + show_e(d))
            negd = (tuple((v, -q) for v, q in c[0]), -c[1])
            lt0 = (negd[0], negd[1] - 1)
            gt0 = (c[0], c[1] - 1)
            if k[0] == 'sgn':
                branches = [(1, [lt0]), (0, [c])]
            else:
                branches = [(1, [c, negd]), (0, [lt0]), (0, [gt0])]
            for v, cs in branches:
                l2 = lin.plus(*cs)
                if l2.infeasible():
                    continue
                self.prove(e, goal, l2, {**val, i: v})
            return True
        r = goal(lin, e)
        if r is True:
            self.leaves += 1
            return True
        if not r:
            raise NoProof('leaf ' + show_e(e))
        for cs in r:
            l2 = lin.plus(*cs)
            if l2.infeasible():
                continue
            self.prove(e, goal, l2, val)
        return True


def addc(h, c, s, k):
    """h + s*c + k"""
    d = dict(h[0])
    for v, q in c[0]:
        d[v] = d.get(v, 0) + s * q
    return (tuple((v, q) for v, q in d.items() if q), h[1] + s * c[1] + k)
