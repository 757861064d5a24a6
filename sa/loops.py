"""Loop summarisation: every loop becomes the closed form of the recurrence of
each modified leaf, evaluated at the trip count (no unbounded iteration)."""
from terms import *
import terms as Tm
import facts as Fx
import time

UNROLL = 70


class sizes:
    """with sizes(n, secs): loops with decided trip counts up to n are followed
    step by step, for so many seconds at most"""

    def __init__(self, n, secs=None):
        self.n, self.secs = n, secs

    def __enter__(self):
        global UNROLL
        self.old = UNROLL, Tm.SMALL[0], DEADLINE[0]
        UNROLL, Tm.SMALL[0] = max(70, self.n), max(64, self.n)
        if self.secs:
            DEADLINE[0] = time.time() + self.secs

    def __exit__(self, *a):
        global UNROLL
        UNROLL, Tm.SMALL[0], DEADLINE[0] = self.old


class Leaf:
    __slots__ = ('cid', 'path', 'init', 'sym', 'sol', 'shape', 'length', 'lentried', 'noshape')

    def __init__(self, cid, path, init):
        self.cid, self.path, self.init = cid, path, init
        self.sym = self.sol = self.shape = self.length = None
        self.lentried = self.noshape = False


def leaf_get(v, path):
    for i in path:
        v = v.args[2 + i]
    return v


def leaf_set(v, path, new):
    if not path:
        return new
    a = list(v.args)
    a[2 + path[0]] = leaf_set(a[2 + path[0]], path[1:], new)
    return mk('adt', *a)


def diff(a, b, path=()):
    if a is b:
        return []
    if a.op == 'adt' and b.op == 'adt' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args) and len(a.args) > 2:
        out = []
        for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:])):
            out += diff(x, y, path + (i,))
        return out
    return [path]


def isseqlike(v):
    return v.op in ('seq',) or (v.op == 'ite' and isseqlike(v.args[1]) and isseqlike(v.args[2]))


# element shapes: sequences of tagged values  tag(cid, payload)
TAGS = ('GB',)


def elem_shape(segs):
    sh = None
    for g in segs:
        b = g.args[0] if g.op == 'el' else g.args[2]
        if b.op == 'adt' and b.args[0] in TAGS and isint(b.args[2]) is not None:
            s = b.args[:3]
        else:
            return None
        if sh is not None and sh != s:
            return None
        sh = s
    return sh


def strip_shape(v, sh):
    """seq of tag(cid, x) -> seq of x; None if it does not fit"""
    if v.op == 'ite':
        a, b = strip_shape(v.args[1], sh), strip_shape(v.args[2], sh)
        return None if a is None or b is None else ite(v.args[0], a, b)
    if v.op != 'seq':
        return None
    out = []
    for g in v.args:
        if g.op == 'el':
            x = g.args[0]
            if x.op != 'adt' or x.args[:3] != sh:
                return None
            out.append(el(x.args[3]))
        else:
            k = fresh('k')
            x = comp_at(g, k)
            x = pull_tag(x, sh)
            if x is None:
                return None
            out.append(comp(g.args[1], k, x))
    return seq(*out)


def pull_tag(x, sh):
    if x.op == 'adt' and x.args[:3] == sh:
        return x.args[3]
    if x.op == 'ite':
        a, b = pull_tag(x.args[1], sh), pull_tag(x.args[2], sh)
        return None if a is None or b is None else ite(x.args[0], a, b)
    return None


def wrap_shape(v, sh):
    v = as_seq(v)
    out = []
    for g in v.args:
        if g.op == 'el':
            out.append(el(mk('adt', *sh, g.args[0])))
        else:
            k = fresh('k')
            out.append(comp(g.args[1], k, mk('adt', *sh, comp_at(g, k))))
    return seq(*out)


class Loop:
    def __init__(self, ip, base, body, fr, sp):
        self.ip, self.base, self.body, self.fr, self.sp = ip, base, body, fr, sp
        self.K = fresh('K', True)
        self.leaves = {}

    # run the body once from s; returns (backs, breaks, rets)
    def once(self, s, quiet):
        ip, fr = self.ip, self.fr
        lp = {'scope': None, 'breaks': [], 'conts': []}
        nr = len(fr.rets)
        nl = len(fr.loops)
        if quiet:
            ip.quiet += 1
        try:
            self.body(s, lp)
        finally:
            if quiet:
                ip.quiet -= 1
            del fr.loops[nl:]
        rets = fr.rets[nr:]
        del fr.rets[nr:]
        backs = list(lp['conts'])
        if not s.dead:
            backs.append((s.copy(), UNIT))
        return backs, lp['breaks'], rets

    # ------------------------------------------------------ leaf values
    def cur(self, lf):
        if lf.sol is not None:
            return lf.sol
        if lf.sym is None:
            n = Tm.isnat(lf.init) or (lf.init.op == 'poly' and ge0(lf.init) is TRUE)
            lf.sym = fresh('x', n)
            if lf.length is not None:
                Tm.LENOF[lf.sym] = lf.length
        if lf.shape is not None:
            return wrap_shape(lf.sym, lf.shape)
        return lf.sym

    def state(self):
        s = self.base.copy()
        for lf in self.leaves.values():
            s.cells[lf.cid] = leaf_set(s.cells[lf.cid], lf.path, self.cur(lf))
        return s

    def end(self, s, quiet=True):
        """values of all cells at the back edge"""
        s0 = dict(s.cells)
        backs, brk, rets = self.once(s, quiet)
        if not backs:
            return s0, None, brk, rets, backs
        nxt, _ = self.ip.fold(backs, self.base.pc)
        nxt.force()
        return s0, nxt, brk, rets, backs

    def unsolved(self):
        return [l for l in self.leaves.values() if l.sol is None]

    def discover(self):
        for it in range(30):
            s0, nxt, brk, rets, backs = self.end(self.state())
            if nxt is None:
                return None
            new = False
            for cid in self.base.cells:
                a, b = s0[cid], nxt.cells.get(cid)
                if b is None or a is b:
                    continue
                for p in diff(a, b):
                    # already inside a leaf?
                    if any(l.cid == cid and p[:len(l.path)] == l.path for l in self.leaves.values()):
                        continue
                    try:
                        init = leaf_get(self.base.cells[cid], p)
                    except Exception:
                        raise Unsupported('loop leaf shape')
                    # drop finer leaves below p
                    for k2 in [k2 for k2, l in self.leaves.items() if l.cid == cid and l.path[:len(p)] == p]:
                        del self.leaves[k2]
                    self.leaves[(cid, p)] = Leaf(cid, p, init)
                    new = True
            if not new:
                return nxt
        raise Unsupported('loop discovery did not converge')

    def E(self, nxt, lf):
        return leaf_get(nxt.cells[lf.cid], lf.path)

    def clean(self, t, allow=()):
        """t mentions no unsolved leaf symbol outside allow"""
        bad = {l.sym for l in self.leaves.values()} - set(allow)
        return not (free_syms(t) & bad)

    # ------------------------------------------------------------ solve
    def solve(self):
        nxt = self.discover()
        if nxt is None:
            raise Unsupported('loop has no back edge after havoc')
        for rnd in range(60):
            if not self.unsolved():
                return
            prog = False
            Es = {}
            ok = True
            for lf in self.unsolved():
                try:
                    Es[lf] = self.E(nxt, lf)
                except Exception:
                    # structure changed: coarsen
                    ok = False
            if not ok:
                raise Unsupported('loop leaf structure')
            # shapes first
            for lf, e in Es.items():
                if lf.shape is None and not lf.noshape and lf.sym is not None and (isseqlike(lf.init) or isseqlike(e)):
                    sh = self.find_shape(lf, e)
                    if sh is not None:
                        lf.shape = sh
                        lf.sym = None
                        prog = True
                elif lf.shape is not None and strip_shape(e, lf.shape) is None:
                    lf.shape = None         # give up on the shape
                    lf.noshape = True
                    lf.sym = None
                    prog = True
            if not prog:
                for lf, e in Es.items():
                    S = self.solve_leaf(lf, e)
                    if S is not None:
                        lf.sol = S
                        prog = True
            if not prog:
                # lengths of sequences
                for lf, e in Es.items():
                    if lf.length is None and not lf.lentried and isseqlike(lf.init):
                        lf.lentried = True
                        if not (e.op in ('seq', 'ite')):
                            continue
                        d = pdiff(seq_len(e), mk('len', lf.sym))
                        n0 = seq_len(lf.init)
                        if self.clean(d) and self.K not in free_syms(d):
                            lf.length = add(n0, mul(d, self.K))
                            lf.sym = None
                            prog = True
                        elif seq_len(e) is n0 or self.lensame(lf, e, n0):
                            lf.length = n0
                            lf.sym = None
                            prog = True
            if not prog:
                self.solve_mu(Es)
            # rerun with what is known
            s0, nxt, brk, rets, backs = self.end(self.state())
            if nxt is None:
                raise Unsupported('loop back edge vanished')
        raise Unsupported('loop recurrences not solved')

    def lensame(self, lf, e, n0):
        # does the length stay n0 when it is n0 before?
        m = {mk('len', lf.sym): n0}
        return subst(seq_len(e), m) is n0

    def find_shape(self, lf, e):
        segs = []
        for v in (lf.init, e):
            v = v.args[1] if v.op == 'ite' else v
            if v.op != 'seq':
                return None
            for g in v.args:
                b = g.args[0] if g.op == 'el' else g.args[2]
                if g.op == 'comp' and b.op == 'at' and b.args[0] is lf.sym:
                    continue
                segs.append(g)
        if not segs:
            return None
        return elem_shape(segs)

    def solve_leaf(self, lf, e):
        K = self.K
        x = lf.sym
        init = lf.init
        # numeric accumulation
        if init.op == 'poly' or Tm.isnat(init):
            d = pdiff(e, x)
            if d is not None and self.clean(d):
                if K not in free_syms(d):
                    return add(init, mul(d, K))
                k = fresh('k', True)
                return add(init, sumk(K, k, subst(d, {K: k})))
        # value that does not depend on earlier iterations
        if self.clean(e):
            if e is init:
                return init
            return ite(eq0(K), init, self.prev(e))
        if lf.shape is not None:
            e2 = strip_shape(e, lf.shape)
            i2 = strip_shape(init, lf.shape)
            if e2 is None or i2 is None:
                return None
            r = self.solve_seq(lf, e2, i2)
            return None if r is None else wrap_shape(r, lf.shape)
        if isseqlike(init):
            r = self.solve_seq(lf, e, init)
            if r is not None:
                return r
        if e.op == 'mset' and (init.op in Tm.MAPOPS or True):
            r = self.solve_map(lf, e)
            if r is not None:
                return r
        if e.op == 'str' and e.args and e.args[0] is x:
            rest = strcat(*e.args[1:])
            if self.clean(rest):
                k = fresh('k', True)
                return strcat(init, strcomp(K, k, subst(rest, {K: k})))
        return None

    def prev(self, e):
        return subst(e, {self.K: sub(self.K, ONE)})

    def solve_seq(self, lf, e, init):
        K, x = self.K, lf.sym
        if e.op != 'seq' or not e.args:
            return None

        def isx(g):
            return g.op == 'comp' and g.args[2].op == 'at' and g.args[2].args[0] is x and g.args[2].args[1].op == 'bk' \
                and g.args[1] is seq_len(x)
        init = as_seq(init)
        n0 = seq_len(init)
        if isx(e.args[0]) and len(e.args) > 1:
            block = e.args[1:]
            bl = seq(*block)
            L = seq_len(bl)
            if self.clean(bl):
                return seq(*(init.args + self.repeat(bl, L, K)))
            if self.clean(bl, (x,)) and self.clean(L) and lf.length is not None and L is ONE:
                # self-referential push
                v = block[0].args[0]
                j, S = fresh('j', True), fresh('S')
                ok = [True]

                def fn(t):
                    if t.op == 'at' and t.args[0] is x:
                        return mk('selfref', S, rewrite(t.args[1], fn))
                    if t is x:
                        ok[0] = False
                    return None
                b = rewrite(subst(v, {K: sub(j, n0)}), fn)
                # K occurs inside length of x: already substituted
                if not ok[0]:
                    return None
                r = rec(init, j, S, b)
                k = fresh('k')
                return seq(comp(add(n0, K), k, recat(r, k)))
            return None
        if isx(e.args[-1]) and len(e.args) == 2 and e.args[0].op == 'el' and self.clean(e.args[0]):
            k = fresh('k')
            v = e.args[0].args[0]
            return seq(*((comp(K, k, subst(v, {K: sub(sub(K, ONE), k)})),) + init.args))
        # indexed store
        if len(e.args) == 1 and e.args[0].op == 'comp':
            g = e.args[0]
            k = fresh('k')
            b = comp_at(g, k)
            if b.op == 'ite' and b.args[0].op == 'eq0' and b.args[2] is seq_at(x, k):
                s = solve_eq0(b.args[0], k)     # k == s(K)
                if s is not None and self.clean(s) and self.clean(g.args[1]):
                    v = b.args[1]
                    init_k = seq_at(init, k)
                    v2 = subst(v, {seq_at(x, s): init_k, seq_at(x, k): init_k})
                    if self.clean(v2):
                        j = fresh('j', True)
                        sj = solve_eq0(eq0(sub(subst(s, {K: j}), k)), j)
                        if sj is not None:
                            inr = band(ge0(sj), lt(sj, K))
                            return seq(comp(g.args[1], k, ite(inr, subst(v2, {K: sj}), init_k)))
        return None

    def repeat(self, bl, L, K):
        """K copies of a block (a function of K) as segments"""
        if L is ONE and bl.args[0].op == 'el':
            k = fresh('k', True)
            return (comp(K, k, subst(bl.args[0].args[0], {K: k})),)
        if self.K in free_syms(L):
            # blocks of varying length
            k = fresh('k', True)
            f = flat(K, k, subst(bl, {K: k}))
            return as_seq(f).args
        t = fresh('t', True)
        q, r = idiv(t, L), imod(t, L)
        v = seq_at(subst(bl, {K: q}), r)
        return (comp(mul(L, K), t, v),)

    def solve_map(self, lf, e):
        x, K = lf.sym, self.K
        b, ch = Tm._chain(e)
        if b is not x or len(ch) != 1:
            return None
        k, v = ch[0].args[1], ch[0].args[2]
        if not self.clean(k):
            return None
        j = fresh('j', True)
        if x in free_syms(v):
            # read-modify-write of a key no other iteration touches
            c = mkeq(k, subst(k, {K: j}))
            d = solve_eq0(c, j)
            if d is not K:
                return None
            v = rewrite(v, lambda y: mget(lf.init, k) if y.op == 'mget' and y.args[0] is x and y.args[1] is k else None)
        if not self.clean(v):
            return None
        return mcomp(lf.init, K, j, subst(k, {K: j}), subst(v, {K: j}))

    def solve_mu(self, Es):
        """simultaneous recurrence for one independent group"""
        K = self.K
        un = list(Es)
        syms = {l.sym: l for l in un}
        deps = {}
        for l in un:
            deps[l] = {syms[s] for s in free_syms(Es[l]) if s in syms}

        def reach(l):
            seen, stk = set(), [l]
            while stk:
                y = stk.pop()
                for z in deps[y]:
                    if z not in seen:
                        seen.add(z)
                        stk.append(z)
            return seen
        R = {l: reach(l) | {l} for l in un}
        grp = min(un, key=lambda l: len(R[l]))
        g = [l for l in un if l in R[grp]]
        inits, steps, xs = [], [], []
        for l in g:
            e, i = Es[l], l.init
            if l.shape is not None:
                e, i = strip_shape(e, l.shape), strip_shape(i, l.shape)
                if e is None or i is None:
                    raise Unsupported('loop element shape')
            inits.append(i)
            steps.append(e)
            xs.append(l.sym)
        mu = musys(K, xs, inits, steps)
        for n, l in enumerate(g):
            if l.length is not None and K not in free_syms(l.length):
                Tm.LENOF[(mu, n)] = l.length
            v = muat(mu, n, K)
            if Tm.isnat(l.sym):
                Tm.NATMU.add((mu, n))
            if l.shape is not None:
                v = wrap_shape(v, l.shape)
            l.sol = v


def pdiff(e, x):
    if e.op == 'ite':
        a, b = pdiff(e.args[1], x), pdiff(e.args[2], x)
        return ite(e.args[0], a, b)
    return sub(e, x)


def strcomp(count, k, body):
    if isint(count) == 0:
        return mk('str')
    l, (b,) = close(k, body)
    return mk('strcomp', l, count, b)


def flat(count, k, blk):
    l, (b,) = close(k, blk)
    return mk('flat', l, count, b)


def conds(s, base):
    return band(*s.pc[len(base.pc):])


def solve_trip(c, K):
    """least K >= 0 with c, for c linear in K; None if unknown"""
    neg = c.op == 'not'
    a = c.args[0] if neg else c
    if a.op == 'ge0':
        co = coeff_of(a.args[0], K)
        if co is None:
            return None
        p, q = co                       # p*K + q >= 0
        if neg:                         # p*K + q < 0  <=>  -pK - q - 1 >= 0
            p, q = scale(p, -1), sub(scale(q, -1), ONE)
        pi = isint(p)
        if pi is None or pi == 0:
            return None
        if pi > 0:                      # K >= ceil(-q/p)
            if pi == 1:
                return max0(scale(q, -1))
            return max0(idiv(add(scale(q, -1), I(pi - 1)), I(pi)))
        # p < 0: true up to a bound: least is 0 if q >= 0 (else never)
        return None
    if a.op == 'eq0' and not neg:
        s = solve_eq0(a, K)
        if s is not None and ge0(s) is TRUE:
            return s
    return None


def run(ip, st, body, fr, sp=None):
    st.force()
    if st.dead:
        return UNDEF
    ip.loopcount += 1
    base = st.copy()
    # ---- bounded, decided trip counts: constant propagation through the loop
    L = Loop(ip, base, body, fr, sp)
    cur = base.copy()
    allrets = []
    nobl = len(ip.obls)
    done = False
    for n in range(UNROLL):
        backs, brk, rets = L.once(cur, False)
        allrets += rets
        if brk and backs:
            break
        if not backs:
            done = True
            break
        nxt, _ = ip.fold(backs, base.pc) if len(backs) > 1 else backs[0]
        nxt.force()
        cur = nxt
    if done:
        fr.rets.extend(allrets)
        if not brk:
            st.dead = True
            return UNDEF
        s, v = ip.fold(brk, base.pc) if len(brk) > 1 else brk[0]
        st.become(s)
        return v
    if n == 0:
        pass
    del ip.obls[nobl:]
    L.solve()
    K = L.K
    s0 = L.state()
    backs, brk, rets = L.once(s0, False)
    exits = []
    ro = 0
    seq_ = []          # chronological order is not recorded between kinds: by length of path
    for s, v in brk:
        exits.append(('b', s.force(), v, conds(s, base)))
    for s, v in rets:
        exits.append(('r', s.force(), v, conds(s, base)))
    main = None
    for x in exits:
        if x[0] == 'b':
            t = solve_trip(x[3], K)
            if t is None and x[3].op == 'and':
                # conjuncts that are negations of other exits do not matter
                others = [y[3] for y in exits if y is not x]
                lits = [c for c in x[3].args if not any(bnot(c) is o or bnot(c) in (o.args if o.op == 'and' else ()) for o in others)]
                if len(lits) == 1:
                    t = solve_trip(lits[0], K)
            if t is not None and main is None:
                main = (x, t)
    out_b, out_r = [], []

    def at(s, v, k, extra):
        m = {K: k}
        n = s.copy()
        cells = {}
        for c, val in n.cells.items():
            bval = base.cells.get(c)
            cells[c] = val if val is bval else subst(val, m)
        n.cells = cells
        n.pc = base.pc
        for c in extra:
            n.assume(c)
        for c in s.pc[len(base.pc):]:
            n.assume(subst(c, m))
        return n, subst(v, m)
    if main is not None:
        x, trip = main
        if isint(trip) is None:
            NAT.add(trip) if trip.op != 'poly' else None
        early = [y for y in exits if y is not x]
        if early:
            kk = fresh('k', True)
            anyc = bor(*[y[3] for y in early])
            # the guard of the main exit is false before the trip count
            anyc = restrict(anyc, x[3])
            nt = isint(trip)
            if nt is not None and 0 < nt <= 4:
                cs = [subst(anyc, {K: I(i)}) for i in range(nt)]
                exc = bor(*cs)
                kx = I(nt - 1)
                for i in range(nt - 2, -1, -1):
                    kx = ite(cs[i], I(i), kx)
            else:
                exc = exists(trip, kk, subst(anyc, {K: kk}))
                kx = mk('exk', exc)
            if exc is not FALSE:
                for y in early:
                    n, v = at(y[1], y[2], kx, (exc, lt(kx, trip)))
                    (out_b if y[0] == 'b' else out_r).append((n, v))
            n, v = at(x[1], x[2], trip, (bnot(exc),))
        else:
            n, v = at(x[1], x[2], trip, ())
            n.pc = base.pc
        out_b.append((n, v))
    else:
        anyc = bor(*[y[3] for y in exits])
        kk = fresh('k', True)
        T_ = least(kk, subst(anyc, {K: kk}))
        for y in exits:
            n, v = at(y[1], y[2], T_, ())
            (out_b if y[0] == 'b' else out_r).append((n, v))
    fr.rets.extend(out_r)
    if not out_b:
        st.dead = True
        return UNDEF
    if len(out_b) == 1:
        s, v = out_b[0]
    else:
        s, v = ip.fold(out_b, base.pc)
    st.become(s)
    return v


def restrict(c, guard):
    """c under `not guard`"""
    def fn(t):
        if t is guard:
            return FALSE
        if guard.op == 'not' and t is guard.args[0]:
            return TRUE
        return None
    return rewrite(c, fn)


from interp import Unsupported, DEADLINE  # noqa: E402
