"""Path-condition facts: a small sound decision procedure (literal membership,
linear combinations of integer facts, enum-variant exclusivity)."""
from terms import *
import terms as Tm

_cache = {}


class Facts:
    def __init__(self, pc):
        self.lits = set()
        self.ge = []
        self.var = {}       # opaque value -> known variant
        self.nvar = {}
        self.dis = []
        self.memo = {}
        for l in pc:
            self.addlit(l)
        # one round of unit propagation over disjunctions
        for _ in range(2):
            for d in self.dis:
                un = [x for x in d if self.decide(x, 2) is not True]
                if len(un) == 1:
                    l = bnot(un[0])
                    if l not in self.lits:
                        self.memo = {}
                        self.addlit(l)

    def addlit(self, l):
        if l is TRUE or l in self.lits:
            return
        self.lits.add(l)
        if l.op == 'and':
            for x in l.args:
                self.addlit(x)
        elif l.op == 'ge0':
            self.ge.append(l.args[0])
        elif l.op == 'eq0':
            self.ge.append(l.args[0])
            self.ge.append(scale(l.args[0], -1))
        elif l.op == 'is':
            self.var[l.args[0]] = l.args[1]
        elif l.op == 'fits' and l.args[1] in Tm.WIDTH:
            self.ge.append(l.args[0])
            self.ge.append(sub(I((1 << Tm.WIDTH[l.args[1]]) - 1), l.args[0]))
        elif l.op == 'not':
            x = l.args[0]
            if x.op == 'ge0':
                self.ge.append(sub(scale(x.args[0], -1), ONE))
            elif x.op == 'is':
                self.nvar.setdefault(x.args[0], set()).add(x.args[1])
            elif x.op == 'and':
                self.dis.append(x.args)
            elif x.op == 'eq0':
                d = poly_dict(x.args[0])
                for k in (1, -1):
                    if all(c * k >= 0 and all(isnat(a) for a in m) for m, c in d.items()):
                        self.ge.append(sub(scale(x.args[0], k), ONE))

    def decide(self, c, depth=4):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        k = (c, depth)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self._decide(c, depth)
        self.memo[k] = r
        return r

    def _decide(self, c, depth):
        if c in self.lits:
            return True
        op = c.op
        if op == 'not':
            r = self.decide(c.args[0], depth)
            return None if r is None else not r
        if bnot(c) in self.lits:
            return False
        if op == 'and':
            allt = True
            for x in c.args:
                r = self.decide(x, depth)
                if r is False:
                    return False
                if r is None:
                    allt = False
            return True if allt else None
        if op == 'ge0':
            if self.prove(c.args[0], depth):
                return True
            if self.prove(sub(scale(c.args[0], -1), ONE), depth):
                return False
            return None
        if op == 'eq0':
            p = c.args[0]
            if self.prove(sub(p, ONE), depth) or self.prove(sub(scale(p, -1), ONE), depth):
                return False
            if self.prove(p, depth) and self.prove(scale(p, -1), depth):
                return True
            # disequalities sharing the polynomial are literals already
            return None
        if op == 'fits' and c.args[1] in Tm.WIDTH:
            top = sub(I((1 << Tm.WIDTH[c.args[1]]) - 1), c.args[0])
            if self.prove(c.args[0], depth) and self.prove(top, depth):
                return True
            if self.prove(sub(scale(top, -1), ONE), depth) or self.prove(sub(scale(c.args[0], -1), ONE), depth):
                return False
            return None
        if op == 'is':
            x, v = c.args
            kv = self.var.get(x)
            if kv is not None:
                return kv == v
            return None
        if op == 'xor':
            a, b = self.decide(c.args[0], depth), self.decide(c.args[1], depth)
            if a is not None and b is not None:
                return a != b
            return None
        if op == 'ite':
            d = self.decide(c.args[0], depth)
            if d is True:
                return self.decide(c.args[1], depth)
            if d is False:
                return self.decide(c.args[2], depth)
            a, b = self.decide(c.args[1], depth), self.decide(c.args[2], depth)
            return a if a == b else None
        return None

    def prove(self, p, depth=4):
        return self._prove(p, depth, set())

    def _prove(self, p, depth, seen):
        g = Tm.ge0(p)
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        d = poly_dict(p)
        if all((c >= 0 and all(isnat(a) for a in m)) for m, c in d.items()):
            return True
        if interval(d):
            return True
        if depth == 0 or p in seen or len(d) > 12:
            return False
        seen = seen | {p}
        # lower bounds from structure of atoms
        for m, c in d.items():
            if len(m) == 1 and c < 0:
                a = m[0]
                ub = upper(a)
                for u in ub:
                    q = add(p, scale(sub(u, a), c))   # a <= u, c<0: p >= p + c*(u-a)
                    if self._prove(q, depth - 1, seen):
                        return True
            if len(m) == 1 and c > 0:
                for u in lower(m[0]):
                    q = add(p, scale(sub(u, m[0]), c))
                    if self._prove(q, depth - 1, seen):
                        return True
            if len(m) == 1 and m[0].op == 'max0':
                q = m[0].args[0]
                dd = self.decide(Tm.ge0(q), max(depth - 2, 0))
                if dd is not None:
                    return self._prove(add(p, scale(sub(q if dd else ZERO, m[0]), c)), depth, seen)
            if len(m) == 1 and m[0].op == 'ite' and c:
                a = m[0]
                dd = self.decide(a.args[0], max(depth - 2, 0))
                outs = []
                if dd is not False:
                    outs.append(a.args[1])
                if dd is not True:
                    outs.append(a.args[2])
                ok = True
                for o in outs:
                    if o.op not in ('poly', 'sym', 'len', 'at', 'fld', 'mod', 'div', 'max0', 'ite', 'b2i', 'bk'):
                        ok = False
                        break
                    if not self._prove(add(p, scale(sub(o, a), c)), depth - 1, seen):
                        ok = False
                        break
                if ok:
                    return True
        cand = [m for m, c in d.items() if c < 0 or not all(isnat(a) for a in m)]
        cand.sort(key=lambda m: -len(m))
        for m in cand[:3]:
            cm = d[m]
            for f in self.ge:
                fd = poly_dict(f)
                cf = fd.get(m, 0)
                if cf == 0 or (cf > 0) != (cm > 0):
                    continue
                # p*|cf| - f*|cm|
                q = sub(scale(p, abs(cf)), scale(f, abs(cm)))
                if self._prove(q, depth - 1, seen):
                    return True
        return False


def interval(d):
    """the polynomial is nonnegative because its atoms are naturals with
    constant upper bounds"""
    t = 0
    for m, c in d.items():
        if not all(isnat(a) for a in m):
            return False
        if c < 0:
            for a in m:
                u = 1 if a.op == 'b2i' else (isint(a.args[1]) or 0) - 1 if a.op == 'mod' else -1
                if u < 0:
                    return False
                c *= u
            t += c
        elif not m:
            t += c
    return t >= 0


def upper(a):
    """polys u with a <= u"""
    if a.op == 'mod':
        return [sub(a.args[1], ONE)]
    if a.op == 'b2i':
        return [ONE]
    if a in Tm.UPPER:
        return [I(Tm.UPPER[a])]
    if a.op == 'min':
        return list(a.args)
    if a.op == 'max0' and False:
        return []
    if a.op == 'div':
        bi = isint(a.args[1])
        if bi == 1:
            return [a.args[0]]
        if bi and isint(a.args[0]) is None and bi > 0 and Tm.ge0(a.args[0]) is TRUE:
            return [a.args[0]]
    return []


def lower(a):
    if a.op == 'max0':
        return [a.args[0]]
    if a.op == 'exk':
        return [ZERO]
    return []


def facts(pc):
    f = _cache.get(pc)
    if f is None:
        if len(_cache) > 20000:
            _cache.clear()
        f = Facts(pc)
        _cache[pc] = f
    return f


def decide(pc, c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return facts(pc).decide(c)


def prune(t, pc):
    """rewrite t using the facts in pc: decided conditions are folded"""
    F = facts(pc)

    def fn(x):
        if x.op == 'ite':
            d = F.decide(x.args[0])
            if d is True:
                return go(x.args[1])
            if d is False:
                return go(x.args[2])
        elif x.op in ('is', 'eq', 'ge0', 'eq0', 'not', 'sym', 'mget', 'at', 'fld') and x.op in BOOLOPS + ('sym', 'at', 'fld'):
            d = F.decide(x)
            if d is not None:
                return B(d)
        elif x.op == 'max0':
            d = F.decide(ge0(x.args[0]))
            if d is True:
                return go(x.args[0])
            if d is False:
                return ZERO
        return None
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = fn(x)
        if r is None:
            if x.op in BINDERS + ('muat', 'least', 'ex', 'exk', 'mcomp'):
                r = x if x.op != 'comp' else Tm._rebuild(x, go)
            elif any(True for _ in Tm._kids(x)):
                r = Tm._rebuild(x, go)
            else:
                r = x
        memo[x] = r
        return r
    return go(t)
