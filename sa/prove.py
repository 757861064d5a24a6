"""Equality of summaries under path conditions, by case split on the atoms of
the terms.  Answers are 'yes', or a list of leaves that were not closed."""
from terms import *
import terms as Tm
import facts as Fx

BOOLATOM = ('ge0', 'eq0', 'is', 'eq', 'sym', 'ex', 'at', 'fld', 'mget')


def atoms(c, out):
    if c.op == 'not' or c.op == 'and' or c.op == 'xor':
        for x in c.args:
            atoms(x, out)
    elif c.op == 'ite':
        atoms(c.args[0], out)
        if c.args[1].op in Tm.BOOLOPS:
            atoms(c.args[1], out)
        if c.args[2].op in Tm.BOOLOPS:
            atoms(c.args[2], out)
    elif c.op == 'or':
        for x in c.args:
            atoms(x, out)
    elif c not in (TRUE, FALSE):
        out.append(c)


def find_cond(t):
    """some undecided condition occurring in t"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            o = []
            atoms(x.args[0], o)
            if o:
                return o[0]
        if x.op in ('and', 'not', 'xor', 'or'):
            o = []
            atoms(x, o)
            for a in o:
                if a.op in ('ge0', 'eq0', 'is', 'eq', 'sym', 'in'):
                    return a
        if x.op in ('comp', 'musys', 'rec', 'sum', 'mcomp', 'ex', 'least', 'exk'):
            continue
        st.extend(y for y in Tm._kids(x))
    return None


def goal_of(a, b):
    """equality of two values as a boolean term, sequences element by element"""
    if a is b:
        return TRUE
    if a.op == 'adt' and b.op == 'adt':
        if a.args[1] != b.args[1] or len(a.args) != len(b.args):
            return FALSE
        return band(*[goal_of(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == 'ite':
        return ite(a.args[0], goal_of(a.args[1], b), goal_of(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], goal_of(a, b.args[1]), goal_of(a, b.args[2]))
    if a.op == 'seq' and b.op == 'seq':
        i = 0
        x, y = list(a.args), list(b.args)
        cs = []
        while x and y and x[0] is y[0]:
            x.pop(0)
            y.pop(0)
        while x and y and x[-1] is y[-1]:
            x.pop()
            y.pop()
        if len(x) == len(y) and all(p.op == 'el' and q.op == 'el' for p, q in zip(x, y)):
            return band(*[goal_of(p.args[0], q.args[0]) for p, q in zip(x, y)])
        if len(x) == len(y) == 1 and x[0].op == 'comp' and y[0].op == 'comp':
            k = fresh('kk', True)
            return band(eq0(sub(seg_len(x[0]), seg_len(y[0]))),
                        bor(bnot(lt(k, seg_len(x[0]))), goal_of(comp_at(x[0], k), comp_at(y[0], k))))
        if all(p.op == 'el' for p in x + y) and len(x) != len(y):
            return FALSE
        s, t = seq(*x), seq(*y)
        if seq_len(s) is not seq_len(t):
            d = eq0(sub(seq_len(s), seq_len(t)))
            if d is FALSE:
                return FALSE
            return band(d, mk('eq', s, t))
        return mk('eq', s, t)
    if a.op == 'seq' or b.op == 'seq':
        s, o = (a, b) if a.op == 'seq' else (b, a)
        # an opaque sequence equals its own pointwise copy
        if len(s.args) == 1 and s.args[0].op == 'comp':
            k = fresh('kk', True)
            return band(eq0(sub(seq_len(s), seq_len(o))),
                        bor(bnot(lt(k, seq_len(s))), goal_of(seq_at(s, k), seq_at(o, k))))
        if not s.args:
            return eq0(seq_len(o))
    return mkeq(a, b)


def prove(pc, goal, depth=10, leaves=None):
    """list of open leaves (pc, residual goal)"""
    if leaves is None:
        leaves = []
    if len(leaves) >= 4:
        return leaves
    pc = tuple(pc)
    if FALSE in pc:
        return leaves
    g = Fx.prune(goal, pc)
    d = Fx.decide(pc, g)
    if d is True or g is TRUE:
        return leaves
    F = Fx.facts(pc)
    if F.prove(I(-1)) or any(bnot(l) in F.lits for l in F.lits):
        return leaves             # contradictory path
    c = None
    if depth > 0 and g is not FALSE:
        c = find_cond(g)
    if c is None or d is False:
        pc, g = normal(pc, g)
        if pc is None or g is TRUE or Fx.decide(pc, g) is True:
            return leaves
        leaves.append((pc, g))
        return leaves
    prove(pc + (c,), subst_cond(g, c, TRUE), depth - 1, leaves)
    prove(pc + (bnot(c),), subst_cond(g, c, FALSE), depth - 1, leaves)
    return leaves


def normal(pc, g):
    """path condition and goal under the equalities of the path; (None, ..) when
    the path is contradictory"""
    pc = list(pc)
    for _ in range(6):
        # x == e
        eqs = None
        for l in pc:
            if l.op != 'eq0':
                continue
            d = Tm.poly_dict(l.args[0])
            for m, k in d.items():
                if len(m) == 1 and abs(k) == 1 and m[0].op == 'sym' and not any(m[0] in m2 for m2 in d if m2 != m):
                    e = Tm.from_dict({m2: -k2 * k for m2, k2 in d.items() if m2 != m})
                    if not contains(e, lambda t: t is m[0]):
                        eqs = (l, m[0], e)
                        break
            if eqs:
                break
        if eqs:
            l, x, e = eqs
            pc = [subst(y, {x: e}) for y in pc if y is not l] + [ge0(e)]
            g = subst(g, {x: e})
        out = []
        for i, l in enumerate(pc):
            q = Fx.prune(l, tuple(out) + tuple(pc[i + 1:]))
            if q is FALSE:
                return None, g
            if q is not TRUE:
                out += list(q.args) if q.op == 'and' else [q]
        g2 = Fx.prune(g, tuple(out))
        F = Fx.facts(tuple(out))
        if F.prove(I(-1)) or any(bnot(l) in F.lits for l in F.lits):
            return None, g
        if out == pc and g2 is g and not eqs:
            break
        pc, g = out, g2
    return tuple(pc), g


def subst_cond(g, c, v):
    return rewrite(g, lambda x: v if x is c else None)


def equal(pc, a, b, depth=10):
    a, b = Fx.prune(a, tuple(pc)), Fx.prune(b, tuple(pc))
    return prove(pc, goal_of(a, b), depth)
