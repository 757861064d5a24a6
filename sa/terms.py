"""Hash-consed terms: the value domain of the abstract interpreter.

Every abstract value is a T(op, args).  Integers are kept as canonical
polynomials over atoms; booleans as and/or/xor/not/ite over atoms; sequences
as lists of segments (single elements and comprehensions `count, k -> elem`);
recurrences discovered in loops as `rec` / `musys` binder terms.  Terms are
closed under substitution; binders use height-indexed bound variables so that
alpha-equivalent terms are identical objects.
"""
import itertools
from math import gcd

SMALL = [64]       # counts up to which sums and maps are expanded element by element

_tab = {}
_uid = itertools.count()


class T:
    __slots__ = ('op', 'args', 'uid', 'lvl', '_fs')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


BINDERS = ('comp', 'rec', 'musys', 'sum', 'mcomp', 'least', 'ex', 'strcomp', 'flat')


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = next(_uid)
        t._fs = None
        l = 0
        if op in BINDERS:
            l = args[0]
        for a in _kids(t):
            if a.lvl > l:
                l = a.lvl
        t.lvl = l
        _tab[key] = t
    return t


def _kids(t):
    if t.op == 'poly':
        for m, _ in t.args:
            for a in m:
                yield a
    else:
        for a in t.args:
            if type(a) is T:
                yield a


def kids(t):
    return list(_kids(t))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(_kids(x))
    return seen


def contains(t, pred):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        st.extend(_kids(x))
    return False


_fresh = itertools.count()


def sym(name, nat=False):
    t = mk('sym', name)
    if nat:
        NAT.add(t)
    return t


def fresh(prefix, nat=False):
    return sym(f'{prefix}${next(_fresh)}', nat)


NATMU = set()
NAT = set()      # atoms known to be >= 0
UPPER = {}       # opaque numbers with a known largest value
TYPES = {}       # opaque term -> type json (first seen)

TRUE = mk('true')
FALSE = mk('false')
UNDEF = mk('undef')
UNIT = mk('adt', 'tuple', '')


def isnat(a):
    return a in NAT or a.op in ('len', 'max0', 'bk', 'b2i', 'pow2', 'exk', 'least', 'mod') \
        or (a.op == 'muat' and (a.args[0], a.args[1]) in NATMU) \
        or (a.op in ('sum',) and all(isnat(x) or x.op == 'poly' for x in a.args[2:3]))


# ---------------------------------------------------------------- integers
def poly_dict(t):
    if t.op == 'poly':
        return dict(t.args)
    return {(t,): 1}


def from_dict(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda x: (len(x[0]), [a.uid for a in x[0]])))
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    return mk('poly', *items)


def I(n):
    return mk('poly', ((), n)) if n else mk('poly')


ZERO, ONE = I(0), I(1)


def isint(t):
    """constant integer value or None"""
    if t.op == 'poly':
        if not t.args:
            return 0
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly_dict(t).items():
            d[m] = d.get(m, 0) + c
    return from_dict(d)


def scale(t, k):
    return from_dict({m: c * k for m, c in poly_dict(t).items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    d = {}
    for m1, c1 in poly_dict(a).items():
        for m2, c2 in poly_dict(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.uid))
            d[m] = d.get(m, 0) + c1 * c2
    return from_dict(d)


def coeff_of(t, atom):
    """(a, b) with t = a*atom + b and b, a free of atom; None if not linear"""
    a, b = {}, {}
    for m, c in poly_dict(t).items():
        n = m.count(atom)
        if n == 0:
            b[m] = c
        elif n == 1:
            mm = list(m)
            mm.remove(atom)
            a[tuple(mm)] = c
        else:
            return None
    A, B = from_dict(a), from_dict(b)
    if contains(A, lambda x: x is atom) or contains(B, lambda x: x is atom):
        return None
    return A, B


def idiv(a, b):
    bi = isint(b)
    if bi == 1:
        return a
    ai = isint(a)
    if ai is not None and bi:
        return I(ai // bi)
    if bi and bi > 0:
        q, r = {}, {}
        for m, c in poly_dict(a).items():
            if c % bi == 0:
                q[m] = c // bi
            else:
                r[m] = c
        if not r:
            return from_dict(q)
        R = from_dict(r)
        ri = isint(R)
        if ri is not None and 0 <= ri < bi:
            return from_dict(q)
        h = bi
        for c in r.values():
            h = gcd(h, abs(c))
        if h > 1:
            R, b, bi = from_dict({m: c // h for m, c in r.items()}), I(bi // h), bi // h
        if R.op == 'mod':
            mi = isint(R.args[1])
            if mi and mi % bi == 0:
                return add(from_dict(q), imod(idiv(R.args[0], b), I(mi // bi)))
        return add(from_dict(q), mk('div', R, b))
    return mk('div', a, b)


def imod(a, b):
    bi = isint(b)
    ai = isint(a)
    if bi == 1:
        return ZERO
    if ai is not None and bi:
        return I(ai % bi)
    if bi and bi > 0:
        r = {m: c % bi for m, c in poly_dict(a).items() if c % bi}
        R = from_dict(r)
        ri = isint(R)
        if ri is not None:
            return R
        if R.op == 'mod':
            mi = isint(R.args[1])
            if mi and mi % bi == 0:
                return imod(R.args[0], b)
        return mk('mod', R, b)
    return mk('mod', a, b)


# ---------------------------------------------------------------- booleans
def B(x):
    return TRUE if x else FALSE


def _norm_poly_sign(p):
    d = poly_dict(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, abs(c))
    return d, g


def ge0(p):
    n = isint(p)
    if n is not None:
        return B(n >= 0)
    d, g = _norm_poly_sign(p)
    if g > 1:
        k = d.get((), 0)
        d = {m: (c // g) for m, c in d.items() if m != ()}
        d[()] = k // g          # floor: sound and exact for integers
        p = from_dict(d)
    lead = max((m for m in poly_dict(p) if m != ()), key=lambda m: (len(m), [a.uid for a in m]))
    if poly_dict(p)[lead] < 0:
        return mk('not', mk('ge0', sub(scale(p, -1), ONE)))
    if len(lead) and all(c >= 0 for c in poly_dict(p).values()) and all(isnat(a) for m in poly_dict(p) for a in m):
        return TRUE
    return mk('ge0', p)


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def eq0(p):
    n = isint(p)
    if n is not None:
        return B(n == 0)
    d, g = _norm_poly_sign(p)
    if g > 1:
        if d.get((), 0) % g:
            return FALSE
        p = from_dict({m: c // g for m, c in d.items()})
        d = poly_dict(p)
    lead = max((m for m in d if m != ()), key=lambda m: (len(m), [a.uid for a in m]))
    if d[lead] < 0:
        p = scale(p, -1)
        d = poly_dict(p)
    if d.get((), 0) > 0 and all(c >= 0 for c in d.values()) and all(isnat(a) for m in d for a in m):
        return FALSE
    # a single 0/1-valued atom
    if len(d) <= 2 and len(lead) == 1 and lead[0].op == 'b2i' and d[lead] == 1:
        k = d.get((), 0)
        if k == 0:
            return bnot(lead[0].args[0])
        if k == -1:
            return lead[0].args[0]
        return FALSE
    if len(d) == 2 and len(lead) == 1 and lead[0].op == 'mod' and d[lead] == 1 and d.get((), 0) == -1 and isint(lead[0].args[1]) == 2:
        return bnot(mk('eq0', lead[0]))       # odd: not even
    return mk('eq0', p)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a is UNDEF:
        return UNDEF
    return mk('not', a)


def band(*xs):
    out = []
    for x in xs:
        if x.op == 'and':
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y is FALSE:
                return FALSE
            if y is TRUE or y in out:
                continue
            if bnot(y) in out:
                return FALSE
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda t: t.uid))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bxor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return bnot(b)
    if b is TRUE:
        return bnot(a)
    neg = False
    if a.op == 'not':
        a = a.args[0]
        neg = not neg
    if b.op == 'not':
        b = b.args[0]
        neg = not neg
    if a is b:
        return B(neg)
    if a.uid > b.uid:
        a, b = b, a
    r = mk('xor', a, b)
    return bnot(r) if neg else r


def beq(a, b):
    return bnot(bxor(a, b))


BOOLOPS = ('true', 'false', 'not', 'and', 'xor', 'ge0', 'eq0', 'eq', 'is', 'in', 'mo', 'bit', 'ex')


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a in (TRUE, FALSE) or b in (TRUE, FALSE) or (a.op in BOOLOPS and b.op in BOOLOPS):
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
    if a.op == 'adt' and b.op == 'adt' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
        return mk('adt', a.args[0], a.args[1], *[ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == 'seq' or b.op == 'seq':
        r = _ite_seq(c, a, b)
        if r is not None:
            return r
    if a.op in MAPOPS or b.op in MAPOPS:
        r = _ite_map(c, a, b)
        if r is not None:
            return r
    return mk('ite', c, a, b)


def _ite_seq(c, a, b):
    """merge sequences of the same shape segment-wise"""
    if a.op != 'seq':
        if b.args and b.args[0] in as_seq(a).args and len(b.args) == 1:
            return a
        return None
    if b.op != 'seq':
        return None
    if len(a.args) != len(b.args):
        return None
    out = []
    for x, y in zip(a.args, b.args):
        if x is y:
            out.append(x)
        elif x.op == 'el' and y.op == 'el':
            out.append(mk('el', ite(c, x.args[0], y.args[0])))
        elif x.op == 'comp' and y.op == 'comp' and x.args[1] is y.args[1]:
            k = fresh('k')
            out.append(comp(x.args[1], k, ite(c, comp_at(x, k), comp_at(y, k))))
        else:
            return None
    return seq(*out)


MAPOPS = ('mset', 'emap', 'mcomp')


def _chain(m):
    out = []
    while m.op == 'mset':
        out.append(m)
        m = m.args[0]
    return m, out[::-1]


def _ite_map(c, a, b):
    # longest common base of the two update chains
    bases = {}
    x = a
    while True:
        bases[x] = True
        if x.op != 'mset':
            break
        x = x.args[0]
    y, ys = b, []
    while y not in bases:
        if y.op != 'mset':
            return None
        ys.append(y)
        y = y.args[0]
    xs = []
    x = a
    while x is not y:
        xs.append(x)
        x = x.args[0]
    xs.reverse()
    ys.reverse()
    m = y
    if len(xs) == len(ys) and all(p.args[1] is q.args[1] for p, q in zip(xs, ys)):
        for p, q in zip(xs, ys):
            m = mset(m, p.args[1], ite(c, p.args[2], q.args[2]))
        return m
    for p in xs:
        m = mset(m, p.args[1], ite(c, p.args[2], mget(m, p.args[1])))
    for q in ys:
        m = mset(m, q.args[1], ite(c, mget(m, q.args[1]), q.args[2]))
    return m


# ------------------------------------------------------------------ maps
OPT = 'core::option::Option'
RES = 'core::result::Result'
EMAP = mk('emap')


def some(x):
    return mk('adt', OPT, 'Some', x)


NONE = mk('adt', OPT, 'None')


def ok(x):
    return mk('adt', RES, 'Ok', x)


def err(x):
    return mk('adt', RES, 'Err', x)


def mset(m, k, optv):
    if m.op == 'mset' and m.args[1] is k:
        m = m.args[0]
    if m.op == 'emap' and optv is NONE:
        return m
    r = mk('mset', m, k, optv)
    if ground(k):
        x = _MIDX.pop(m, None)
        if x is not None:
            x[0][k] = optv
            _MIDX[r] = x
    return r


_GROUND = {}
_MIDX = {}


def ground(k):
    """the key is a literal value: distinct terms are distinct values"""
    r = _GROUND.get(k)
    if r is None:
        if k.op == 'adt':
            r = all(ground(x) for x in k.args if isinstance(x, T))
        else:
            r = isint(k) is not None or k is TRUE or k is FALSE
        _GROUND[k] = r
    return r


def mindex(m):
    """(literal entries on top of m, map below them)"""
    x = _MIDX.get(m)
    if x is None:
        todo, b = [], m
        while b.op == 'mset' and ground(b.args[1]):
            y = _MIDX.get(b)
            if y is not None:
                d, b = dict(y[0]), y[1]
                break
            todo.append(b)
            b = b.args[0]
        else:
            d = {}
        for n in reversed(todo):
            d[n.args[1]] = n.args[2]
        if len(_MIDX) > 64:
            _MIDX.clear()
        x = _MIDX[m] = (d, b)
    return x


def maplen(m, dec=None):
    """number of entries"""
    if m.op == 'emap':
        return ZERO
    if m.op == 'mset' and ground(m.args[1]):
        d, b = mindex(m)
        if b.op == 'emap' and all(v is NONE or v.op == 'adt' for v in d.values()):
            return I(sum(v is not NONE for v in d.values()))
    n, k = 0, m
    while k.op == 'mset':
        n, k = n + 1, k.args[0]
    if m.op == 'mset' and n <= 8:
        old = isvar(mget(m.args[0], m.args[1], dec), 'Some')
        new = isvar(m.args[2], 'Some')
        return add(maplen(m.args[0], dec), sub(b2i(new), b2i(old)))
    return mk('maplen', m)


def mcomp(base, count, symb, key, optv):
    if isint(count) == 0:
        return base
    l, (k, v) = close(symb, key, optv)
    if base.lvl >= l:
        l = base.lvl + 1
        v0 = bv(l)
        k, v = raw(key, {symb: v0}), raw(optv, {symb: v0})
    return mk('mcomp', l, base, count, k, v)


def solve_eq0(c, j):
    """c is eq0(p) with p linear in j (coefficient +-1): the solution, else None"""
    if c.op != 'eq0':
        return None
    co = coeff_of(c.args[0], j)
    if co is None:
        return None
    a, b = co
    ai = isint(a)
    if ai == 1:
        return scale(b, -1)
    if ai == -1:
        return b
    return None


def mget(m, k, dec=None):
    dec = dec or (lambda c: None)
    if m.op == 'emap':
        return NONE
    if m.op == 'ite':
        d = dec(m.args[0])
        if d is True:
            return mget(m.args[1], k, dec)
        if d is False:
            return mget(m.args[2], k, dec)
        return ite(m.args[0], mget(m.args[1], k, dec), mget(m.args[2], k, dec))
    if m.op == 'mset' and ground(k) and ground(m.args[1]):
        d, b = mindex(m)
        return d[k] if k in d else mget(b, k, dec)
    if m.op == 'mset':
        c = mkeq(m.args[1], k)
        if c not in (TRUE, FALSE):
            d = dec(c)
            c = c if d is None else B(d)
        if c is TRUE:
            return m.args[2]
        if c is FALSE:
            return mget(m.args[0], k, dec)
        return ite(c, m.args[2], mget(m.args[0], k, dec))
    if m.op == 'mcomp':
        l, base, count, key, v = m.args
        j = fresh('j', True)
        kk = raw(key, {bv(l): j})
        c = mkeq(kk, k)
        if c is FALSE:
            return mget(base, k, dec)
        s = solve_eq0(c, j)
        if s is not None:
            inr = band(ge0(s), lt(s, count))
            d = dec(inr)
            if d is not None:
                inr = B(d)
            return ite(inr, subst(raw(v, {bv(l): j}), {j: s}), mget(base, k, dec))
    return mk('mget', m, k)


def muat(mu, i, k):
    if isint(k) == 0:
        return mu.args[2 + i]
    return mk('muat', mu, i, k)


def mu_step(mu, k):
    """terms of iteration k+1 in terms of muat(mu, i, k)"""
    l, n = mu.args[:2]
    kk = fresh('b')
    m = {bv(l): kk}
    xs = [fresh('x') for _ in range(n)]
    for i in range(n):
        m[mk('bx', l, i)] = xs[i]
    sm = {kk: k}
    for i in range(n):
        sm[xs[i]] = muat(mu, i, k)
    return [subst(raw(a, m), sm) for a in mu.args[2 + n:]]


def least(symb, cond):
    l, (b,) = close(symb, cond)
    return mk('least', l, b)


def exists(count, symb, cond):
    if cond is FALSE or isint(count) == 0:
        return FALSE
    l, (b,) = close(symb, cond)
    return mk('ex', l, count, b)


LENOF = {}


def b2i(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return mk('b2i', b)


def pow2(i):
    n = isint(i)
    if n is not None and 0 <= n <= 4096:
        return I(1 << n)
    if i.op == 'poly':
        d = dict(i.args)
        k = d.get((), 0)
        if k > 0 and any(c > 0 for m, c in d.items() if m != ()):
            d2 = {m: c for m, c in d.items() if m != ()}
            return scale(mk('pow2', from_dict(d2)), 1 << k)
    return mk('pow2', i)


def imin(a, b):
    c = le(a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if le(b, a) is TRUE:
        return b
    if a.uid > b.uid:
        a, b = b, a
    return mk('min', a, b)


def strcat(*parts):
    out = []
    for p in parts:
        ps = [p] if type(p) is str else (p.args if p.op == 'str' else [p])
        for q in ps:
            if type(q) is str and out and type(out[-1]) is str:
                out[-1] += q
            elif q != '':
                out.append(q)
    if len(out) == 1 and type(out[0]) is not str and out[0].op != 'disp':
        return out[0]
    return mk('str', *out)


# --------------------------------------------------------------- binders
def bv(l):
    return mk('bk', l)


def raw(t, m):
    """structural replacement without simplification (leaf -> leaf renaming,
    plus self/selfref renaming via m[('self', l)] = S and m[('selfref', S)] = l)"""
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op == 'poly':
            d = {}
            for mono, c in x.args:
                mm = tuple(sorted([go(a) for a in mono], key=lambda z: z.uid))
                d[mm] = d.get(mm, 0) + c
            r = from_dict(d)
        elif op == 'self' and ('self', x.args[0]) in m:
            r = mk('selfref', m[('self', x.args[0])], go(x.args[1]))
        elif op == 'selfref' and ('selfref', x.args[0]) in m:
            r = mk('self', m[('selfref', x.args[0])], go(x.args[1]))
        elif x.args:
            r = mk(op, *[go(a) if type(a) is T else a for a in x.args])
        else:
            r = x
        memo[x] = r
        return r
    return go(t)


def close(symb, *bodies):
    """Return (level, bodies with symb replaced by bk(level))."""
    l = 1 + max([b.lvl for b in bodies] + [0])
    v = bv(l)
    return l, [raw(b, {symb: v}) for b in bodies]


def comp(count, symb, body):
    """sequence segment: count elements, k=symb -> body"""
    if isint(count) == 0:
        return None
    l, (b,) = close(symb, body)
    return mk('comp', l, count, b)


def comp_at(seg, idx):
    l, count, body = seg.args
    k = fresh('b')
    return subst(raw(body, {bv(l): k}), {k: idx})


def sumk(count, symb, body):
    n = isint(count)
    if n == 0:
        return ZERO
    if n is not None and n <= SMALL[0]:
        return add(*[subst(body, {symb: I(i)}) for i in range(n)])
    if symb not in free_syms(body):
        return mul(count, body)
    # split into K-free part and the rest
    l, (b,) = close(symb, body)
    return mk('sum', l, count, b)


# ------------------------------------------------------------ sequences
def seq(*segs):
    out = []
    for s in segs:
        if s is None:
            continue
        if s.op == 'seq':
            if not s.args:
                continue
            raise ValueError('seq in seq')
        if s.op == 'comp':
            if isint(s.args[1]) == 0:
                continue
            if isint(s.args[1]) == 1:
                s = mk('el', comp_at(s, ZERO))
        if s.op == 'comp' and out and out[-1].op == 'comp' and out[-1].args[0] == s.args[0]:
            # merge adjacent comprehensions that continue one another
            p = out[-1]
            kk = fresh('m')
            if comp_at(p, add(kk, p.args[1])) is comp_at(s, kk):
                out[-1] = mk('comp', p.args[0], add(p.args[1], s.args[1]), p.args[2])
                continue
        if s.op == 'el' and out and out[-1].op == 'comp':
            p = out[-1]
            if comp_at(p, p.args[1]) is s.args[0]:
                out[-1] = mk('comp', p.args[0], add(p.args[1], ONE), p.args[2])
                continue
        out.append(s)
    return mk('seq', *out)


def el(v):
    return mk('el', v)


def seg_len(s):
    return ONE if s.op == 'el' else s.args[1]


def seq_len(s):
    if s.op == 'seq':
        return add(ZERO, *[seg_len(x) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], seq_len(s.args[1]), seq_len(s.args[2]))
    if s.op == 'str':
        if all(type(x) is str for x in s.args):
            return I(sum(len(x.encode()) for x in s.args))
    if s in LENOF:
        return LENOF[s]
    if s.op == 'muat' and (s.args[0], s.args[1]) in LENOF:
        return LENOF[(s.args[0], s.args[1])]
    return mk('len', s)


def as_seq(s):
    """view any sequence-valued term as a seq"""
    if s.op == 'seq':
        return s
    k = fresh('k')
    return seq(comp(seq_len(s), k, mk('at', s, k)))


def seq_at(s, i, dec=None):
    dec = dec or (lambda c: None)
    if s.op == 'ite':
        d = dec(s.args[0])
        if d is True:
            return seq_at(s.args[1], i, dec)
        if d is False:
            return seq_at(s.args[2], i, dec)
        return ite(s.args[0], seq_at(s.args[1], i, dec), seq_at(s.args[2], i, dec))
    if s.op != 'seq':
        return mk('at', s, i)
    off = ZERO
    alts = []
    for n, g in enumerate(s.args):
        end = add(off, seg_len(g))
        v = g.args[0] if g.op == 'el' else comp_at(g, sub(i, off))
        if g.op == 'el':
            c = eq0(sub(i, off))
        else:
            c = lt(i, end)
        if c is not TRUE and c is not FALSE:
            d = dec(c)
            if d is not None:
                c = B(d)
        if c is FALSE:
            off = end
            continue
        # below the segment?  only possible if i < off
        if not alts:
            cl = le(off, i)
            if cl is FALSE:
                return UNDEF
        alts.append((c, v))
        if c is TRUE:
            break
        off = end
    if not alts:
        return mk('oob', s, i)
    if alts[-1][0] is not TRUE and len(alts) >= 1:
        # beyond the last segment is out of bounds: last alternative is the default
        pass
    r = alts[-1][1]
    for c, v in reversed(alts[:-1]):
        r = ite(c, v, r)
    return r


def seq_slice(s, a, b, dec=None):
    """elements a..b"""
    dec = dec or (lambda c: None)
    if s.op == 'seq':
        if a is ZERO and b is seq_len(s):
            return s
        out = []
        off = ZERO
        pos = a
        ok = True
        for g in s.args:
            end = add(off, seg_len(g))
            # skip segments fully before pos
            c = le(end, pos)
            if c is not TRUE and dec(c) is True:
                c = TRUE
            if c is TRUE:
                off = end
                continue
            if pos is b:
                break
            c = le(end, b)
            if c is not TRUE and c is not FALSE:
                d = dec(c)
                c = B(d) if d is not None else c
            cs = le(off, pos)
            if cs is not TRUE and dec(cs) is not True:
                ok = False
                break
            stop = end if c is TRUE else b if c is FALSE else None
            if stop is None:
                ok = False
                break
            cnt = sub(stop, pos)
            if g.op == 'el':
                out.append(g)
            else:
                k = fresh('k')
                out.append(comp(cnt, k, comp_at(g, add(k, sub(pos, off)))))
            pos = stop
            off = end
            if c is FALSE:
                break
        if ok and pos is b:
            return seq(*out)
    k = fresh('k')
    return seq(comp(sub(b, a), k, seq_at(s, add(a, k), dec)))


def seq_cat(*ss):
    out = []
    for s in ss:
        if s.op == 'seq':
            out.extend(s.args)
        else:
            out.extend(as_seq(s).args)
    return seq(*out)


def seq_store(s, i, v, dec=None):
    dec = dec or (lambda c: None)
    if s.op == 'seq':
        off = ZERO
        for n, g in enumerate(s.args):
            if g.op == 'el':
                c = eq0(sub(i, off))
                if c is not TRUE and c is not FALSE:
                    d = dec(c)
                    c = B(d) if d is not None else c
                if c is TRUE:
                    return seq(*(s.args[:n] + (el(v),) + s.args[n + 1:]))
                if c is not FALSE:
                    break
                off = add(off, ONE)
            else:
                c = lt(i, add(off, g.args[1]))
                if c is not TRUE and c is not FALSE:
                    d = dec(c)
                    c = B(d) if d is not None else c
                if c is TRUE:
                    k = fresh('k')
                    ng = comp(g.args[1], k, ite(eq0(sub(k, sub(i, off))), v, comp_at(g, k)))
                    return seq(*(s.args[:n] + (ng,) + s.args[n + 1:]))
                if c is not FALSE:
                    break
                off = add(off, g.args[1])
    k = fresh('k')
    return seq(comp(seq_len(s), k, ite(eq0(sub(k, i)), v, seq_at(s, k, dec))))


# ---------------------------------------------------------- substitution
def _rebuild(t, f):
    """rebuild t with smart constructors, children mapped through f"""
    op = t.op
    if op == 'poly':
        ch = False
        r = None
        d = {}
        parts = []
        for m, c in t.args:
            p = I(c)
            for a in m:
                p = mul(p, f(a))
            parts.append(p)
        return add(ZERO, *parts)
    if op in ('comp', 'sum', 'strcomp', 'flat'):
        l, count, body = t.args
        k = fresh('b')
        nb = f(raw(body, {bv(l): k}))
        nc = f(count)
        if op == 'comp':
            if isint(nc) == 0:
                return mk('seq')
            return comp(nc, k, nb)
        if op != 'sum':
            import loops
            return (loops.strcomp if op == 'strcomp' else loops.flat)(nc, k, nb)
        return sumk(nc, k, nb)
    if op == 'rec':
        l, init, body = t.args
        k = fresh('b')
        S = fresh('S')
        nb = f(raw(body, {bv(l): k, ('self', l): S}))
        return rec(f(init), k, S, nb)
    if op == 'mcomp':
        l, base, count, key, v = t.args
        k = fresh('b')
        return mcomp(f(base), f(count), k, f(raw(key, {bv(l): k})), f(raw(v, {bv(l): k})))
    if op == 'least':
        l, c = t.args
        k = fresh('b')
        return least(k, f(raw(c, {bv(l): k})))
    if op == 'ex':
        l, n, c = t.args
        k = fresh('b')
        return exists(f(n), k, f(raw(c, {bv(l): k})))
    if op == 'musys':
        l, n = t.args[:2]
        k = fresh('b')
        xs = [fresh('x') for _ in range(n)]
        m = {bv(l): k}
        for i in range(n):
            m[mk('bx', l, i)] = xs[i]
        inits = [f(a) for a in t.args[2:2 + n]]
        steps = [f(raw(a, m)) for a in t.args[2 + n:]]
        return musys(k, xs, inits, steps)
    args = [f(a) if type(a) is T else a for a in t.args]
    if op == 'not':
        return bnot(*args)
    if op == 'and':
        return band(*args)
    if op == 'xor':
        return bxor(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'ge0':
        return ge0(*args)
    if op == 'eq0':
        return eq0(*args)
    if op == 'eq':
        return mkeq(*args)
    if op == 'is':
        return isvar(*args)
    if op == 'fld':
        return getfield(*args)
    if op == 'seq':
        return seq(*args)
    if op == 'at':
        return seq_at(args[0], args[1])
    if op == 'len':
        return seq_len(args[0])
    if op == 'div':
        return idiv(*args)
    if op == 'mod':
        return imod(*args)
    if op == 'max0':
        return max0(args[0])
    if op == 'recat':
        return recat(*args)
    if op == 'mset':
        return mset(*args)
    if op == 'mget':
        return mget(*args)
    if op == 'maplen':
        return maplen(*args)
    if op == 'muat':
        return muat(*args)
    if op == 'b2i':
        return b2i(*args)
    if op == 'pow2':
        return pow2(*args)
    if op == 'min':
        return imin(*args)
    if op == 'str':
        return strcat(*args)
    if op == 'adt':
        return adt(*args)
    if op == 'el':
        return mk('el', *args)
    r = EXTRA_REBUILD.get(op)
    if r is not None:
        return r(*args)
    return mk(op, *args)


def _fold2(op, fn):
    def h(a, b):
        x, y = isint(a), isint(b)
        if x is not None and y is not None and x >= 0 and y >= 0:
            return I(fn(x, y))
        return mk(op, a, b)
    return h


WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


def fits(a, n):
    x = isint(a)
    if x is not None and n in WIDTH:
        return B(0 <= x < (1 << WIDTH[n]))
    return mk('fits', a, n)


def tdiv(a, b):
    x, y = isint(a), isint(b)
    if y == 1:
        return a
    if x is not None and y:
        q = abs(x) // abs(y)
        return I(q if (x < 0) == (y < 0) else -q)
    if y and all(isnat(t) for m in poly_dict(a) for t in m) and all(k >= 0 for k in poly_dict(a).values()):
        return idiv(a, b) if y > 0 else scale(idiv(a, I(-y)), -1)
    return mk('tdiv', a, b)


EXTRA_REBUILD = {
    'tdiv': tdiv,
    'iand': _fold2('iand', lambda x, y: x & y), 'ior': _fold2('ior', lambda x, y: x | y),
    'ixor': _fold2('ixor', lambda x, y: x ^ y), 'fits': fits,
    'nbits': lambda a: I(isint(a).bit_length()) if isint(a) is not None else mk('nbits', a),
}

_subst_memo = {}


def free_syms(t):
    if t._fs is None:
        s = frozenset()
        if t.op in ('sym', 'bk', 'bx', 'in'):
            s = frozenset([t])
        for a in _kids(t):
            s |= free_syms(a)
        if t.op in BINDERS and False:
            pass
        t._fs = s
    return t._fs


def subst(t, m):
    """simultaneous substitution of terms"""
    memo = {}
    keys = set(m)
    simple = all(k.op in ('sym', 'bk', 'bx') for k in keys)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if simple and not (free_syms(x) & keys):
            memo[x] = x
            return x
        if not any(True for _ in _kids(x)):
            memo[x] = x
            return x
        r = _rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def rewrite(t, fn):
    """bottom-up-ish rewrite: fn(x) -> replacement or None, applied top-down"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = fn(x)
        if r is None:
            r = _rebuild(x, go) if any(True for _ in _kids(x)) else x
        memo[x] = r
        return r
    return go(t)


def max0(p):
    n = isint(p)
    if n is not None:
        return I(max(0, n))
    if ge0(p) is TRUE:
        return p
    return mk('max0', p)


# ---------------------------------------------------------- recurrences
def rec(initseq, ksym, selffn_sym, body):
    """rec: element j<len(init): init[j]; j>=len(init): body[k:=j],
    where body mentions T('selfref', selffn_sym, idx)."""
    l = 1 + max(body.lvl, initseq.lvl)
    return mk('rec', l, initseq, raw(body, {ksym: bv(l), ('selfref', selffn_sym): l}))


def musys(ksym, xsyms, inits, steps):
    """simultaneous recurrence x_i(0)=init_i, x_i(k+1)=step_i(k, x(k))"""
    l = 1 + max(s.lvl for s in list(steps) + list(inits))
    m = {ksym: bv(l)}
    for i, x in enumerate(xsyms):
        m[x] = mk('bx', l, i)
    return mk('musys', l, len(inits), *inits, *[raw(s, m) for s in steps])


def rec_step(r, j, selffn):
    """one unfolding of r at index j (j >= len(init)); selffn(idx)->term"""
    l, init, body = r.args
    k, S = fresh('b'), fresh('S')
    b = raw(body, {bv(l): k, ('self', l): S})
    b = subst(b, {k: j})
    return rewrite(b, lambda x: selffn(x.args[1]) if x.op == 'selfref' and x.args[0] is S else None)


def recat(r, j):
    if r.op == 'rec':
        init = r.args[1]
        n0 = isint(seq_len(init))
        ji = isint(j)
        if ji is not None and n0 is not None and 0 <= ji < n0:
            return seq_at(init, j)
    return mk('recat', r, j)


# ------------------------------------------------------------- ADTs
ADTS = {}   # d -> {vn: [field names]}


def variants(d):
    return ADTS.get(d)


def adt(d, vn, *fields):
    if fields and all(type(f) is T and f.op == 'fld' and f.args[2] == i for i, f in enumerate(fields)):
        b = fields[0].args[0]
        vs = ADTS.get(d)
        if vs and len(vs) == 1 and vn in vs and len(vs[vn]) == len(fields) \
                and all(f.args[0] is b and f.args[1] == fields[0].args[1] for f in fields):
            return b
    return mk('adt', d, vn, *fields)


def isvar(v, vn):
    if v.op == 'adt':
        return B(v.args[1] == vn)
    if v.op == 'ite':
        return ite(v.args[0], isvar(v.args[1], vn), isvar(v.args[2], vn))
    if v is UNDEF:
        return UNDEF
    if vn == 'None':
        return bnot(mk('is', v, 'Some'))
    if vn == 'Err':
        return bnot(mk('is', v, 'Ok'))
    return mk('is', v, vn)


def getfield(v, vn, idx, name=None):
    if v.op == 'adt':
        if vn and v.args[1] != vn:
            return UNDEF
        if 2 + idx < len(v.args):
            return v.args[2 + idx]
        return UNDEF
    if v.op == 'ite':
        return ite(v.args[0], getfield(v.args[1], vn, idx, name), getfield(v.args[2], vn, idx, name))
    if v is UNDEF:
        return UNDEF
    return mk('fld', v, vn, idx, name)


def setfield(v, vn, idx, name, new, d, nfields):
    if v.op == 'ite':
        return ite(v.args[0], setfield(v.args[1], vn, idx, name, new, d, nfields),
                   setfield(v.args[2], vn, idx, name, new, d, nfields))
    if v.op != 'adt':
        names = nfields
        v = mk('adt', d, vn, *[getfield(v, vn, i, n) for i, n in enumerate(names)])
    a = list(v.args)
    if 2 + idx >= len(a):
        return v
    a[2 + idx] = new
    return mk('adt', *a)


def mkeq(a, b):
    """semantic equality of two values of the same (unknown) type"""
    if a is b:
        return TRUE
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == 'ite':
        return ite(a.args[0], mkeq(a.args[1], b), mkeq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], mkeq(a, b.args[1]), mkeq(a, b.args[2]))
    if a.op == 'poly' or b.op == 'poly' or isnat(a) or isnat(b):
        return eq0(sub(a, b))
    if a.op == 'adt' and b.op == 'adt':
        if a.args[1] != b.args[1] or len(a.args) != len(b.args):
            return FALSE
        return band(*[mkeq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == 'adt' or b.op == 'adt':
        if b.op == 'adt':
            a, b = b, a
        d, vn = a.args[:2]
        vs = ADTS.get(d)
        if vs and vn in vs:
            cs = [] if len(vs) == 1 else [isvar(b, vn)]
            for i, n in enumerate(vs[vn]):
                cs.append(mkeq(a.args[2 + i], getfield(b, vn, i, n)))
            return band(*cs)
    if a.op in BOOLOPS and b.op in BOOLOPS:
        return beq(a, b)
    if a.op == 'tok' or b.op == 'tok':
        if b.op == 'tok':
            a, b = b, a
        if b.op == 'tok':
            return eq0(sub(a.args[0], b.args[0]))
        if b.op == 'str' and all(type(x) is str for x in b.args) and not ''.join(b.args).isdigit():
            return FALSE
    if a.op == 'str' and b.op == 'str' and all(type(x) is str for x in a.args + b.args):
        return B(a is b)
    if a.op == 'line' or b.op == 'line':
        if b.op == 'line':
            a, b = b, a
        if b.op == 'str' and all(type(x) is str for x in b.args) and a.args[0].op == 'seq' and all(g.op == 'el' for g in a.args[0].args):
            t = ''.join(b.args)
            ws = t.split()
            if ' '.join(ws) != t or len(ws) != len(a.args[0].args):
                return FALSE
            return band(*[mkeq(g.args[0], mk('str', w)) for g, w in zip(a.args[0].args, ws)])
    if a.uid > b.uid:
        a, b = b, a
    return mk('eq', a, b)


# ------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == 'poly':
        if not a:
            return '0'
        out = ''
        for m, c in a:
            ms = '*'.join(s(x) for x in m)
            if not ms:
                term = str(abs(c))
            elif abs(c) == 1:
                term = ms
            else:
                term = f'{abs(c)}*{ms}'
            out += ('-' if c < 0 else '+' if out else '') + term
        return out
    if op == 'sym':
        return a[0]
    if op in ('true', 'false', 'undef'):
        return op
    if op == 'bk':
        return f'k{a[0]}'
    if op == 'not':
        return '!' + s(a[0])
    if op == 'and':
        return '(' + ' & '.join(s(x) for x in a) + ')'
    if op == 'xor':
        return '(' + ' ^ '.join(s(x) for x in a) + ')'
    if op == 'ge0':
        return '[' + s(a[0]) + ' >= 0]'
    if op == 'eq0':
        return '[' + s(a[0]) + ' == 0]'
    if op == 'ite':
        return f'({s(a[0])} ? {s(a[1])} : {s(a[2])})'
    if op == 'adt':
        return (a[0].split('::')[-1] + '::' if a[0] != 'tuple' else '') + a[1] + '(' + ', '.join(s(x) for x in a[2:]) + ')'
    if op == 'seq':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if op == 'el':
        return s(a[0])
    if op == 'comp':
        return f'{{{s(a[2])} | k{a[0]}<{s(a[1])}}}'
    if op == 'fld':
        return f'{s(a[0])}.{a[1] + ":" if a[1] else ""}{a[3] if len(a) > 3 else a[2]}'
    if op == 'is':
        return f'{s(a[0])} is {a[1]}'
    if op == 'at':
        return f'{s(a[0])}[{s(a[1])}]'
    if op == 'recat':
        return f'{s(a[0])}@{s(a[1])}'
    if op == 'in':
        return f'in{s(a[0])}[{s(a[1])}]'
    if op == 'str':
        return 'str<' + '·'.join(repr(x) if type(x) is str else s(x) for x in a) + '>'
    return op + '(' + ', '.join(s(x) if isinstance(x, T) else repr(x) for x in a) + ')'
