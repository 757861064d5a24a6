"""Ground constant folding of summary terms: every parameter is replaced by a
constant, booleans become truth tables (bit-vectors over all / sampled input
assignments), recurrences are folded.  Used to turn the difference between a
summary and its specification into a definite witness."""
import random
from terms import *
import terms as Tm

_fb = {}


class Stuck(Exception):
    pass


def freeb(t):
    """bound levels free in t (bk levels as int, bx as ('x',l), self as ('r',l))"""
    r = _fb.get(t)
    if r is not None:
        return r
    s = set()
    if t.op == 'bk':
        s.add(t.args[0])
    elif t.op == 'bx':
        s.add(('x', t.args[0]))
    elif t.op == 'self':
        s.add(('r', t.args[0]))
    for a in Tm._kids(t):
        s |= freeb(a)
    if t.op in BINDERS:
        l = t.args[0]
        s -= {l, ('x', l), ('r', l)}
        # kids outside the binder's scope
        if t.op in ('comp', 'sum', 'strcomp', 'flat', 'ex'):
            s |= freeb(t.args[1])
        elif t.op == 'rec':
            s |= freeb(t.args[1])
        elif t.op == 'mcomp':
            s |= freeb(t.args[1]) | freeb(t.args[2])
        elif t.op == 'musys':
            for a in t.args[2:2 + t.args[1]]:
                s |= freeb(a)
    r = tuple(sorted(s, key=str))
    _fb[t] = frozenset(r)
    return _fb[t]


class Ev:
    """width: number of truth-table columns"""

    def __init__(self, width, syms=None, inputs=None, defs=None, shared=None, opaque=None):
        self.w = width
        self.M = (1 << width) - 1
        self.syms = syms or {}
        self.inputs = inputs or {}
        self.defs = defs or {}
        self.memo = {}
        self.shared = shared if shared is not None else {'mo': {}, 'fuel': 4000000}
        self.opaque = opaque

    def b(self, x):
        if x is True:
            return self.M
        if x is False:
            return 0
        return x

    def cond(self, t, env):
        """condition that must be uniform: python bool"""
        v = self.ev(t, env)
        if v == self.M:
            return True
        if v == 0:
            return False
        return None

    def ev(self, t, env=None):
        env = env or {}
        fb = freeb(t)
        if not fb:
            key = t
        else:
            try:
                key = (t,) + tuple((l, env[l][0] if type(l) is tuple else env[l]) for l in sorted(fb, key=str))
            except KeyError:
                raise Stuck('unbound')
        r = self.memo.get(key, self)
        if r is not self:
            return r
        self.shared['fuel'] -= 1
        if self.shared['fuel'] < 0:
            raise Stuck('fuel')
        r = self._ev(t, env)
        self.memo[key] = r
        return r

    def _ev(self, t, env):
        op, a = t.op, t.args
        if op == 'poly':
            s = 0
            for m, c in a:
                p = c
                for x in m:
                    v = self.ev(x, env)
                    if type(v) is not int:
                        raise Stuck('nonint ' + x.op)
                    p *= v
                s += p
            return s
        h = getattr(self, 'o_' + op, None)
        if h is None:
            if self.opaque:
                return self.opaque(self, t, env)
            raise Stuck('op ' + op + ' ' + show(t)[:60])
        return h(t, env, *a)

    def o_sym(self, t, env, name):
        if t in self.syms:
            return self.syms[t]
        if self.opaque:
            return self.opaque(self, t, env)
        raise Stuck('sym ' + name)

    def o_true(self, t, env):
        return self.M

    def o_false(self, t, env):
        return 0

    def o_bk(self, t, env, l):
        return env[l]

    def o_not(self, t, env, x):
        return self.M ^ self.ev(x, env)

    def o_and(self, t, env, *xs):
        r = self.M
        # integer conditions first (they may guard partial terms)
        for x in sorted(xs, key=lambda x: 0 if x.op in ('ge0', 'eq0') or (x.op == 'not' and x.args[0].op in ('ge0', 'eq0')) else 1):
            r &= self.ev(x, env)
            if not r:
                return 0
        return r

    def o_xor(self, t, env, x, y):
        return self.ev(x, env) ^ self.ev(y, env)

    def o_ge0(self, t, env, p):
        return self.M if self.ev(p, env) >= 0 else 0

    def o_eq0(self, t, env, p):
        return self.M if self.ev(p, env) == 0 else 0

    def o_ite(self, t, env, c, x, y):
        cv = self.ev(c, env)
        if cv == self.M:
            return self.ev(x, env)
        if cv == 0:
            return self.ev(y, env)
        return self.mux(cv, self.ev(x, env), self.ev(y, env))

    def mux(self, c, x, y):
        if x == y:
            return x
        if type(x) is int and type(y) is int:
            return (c & x) | ((self.M ^ c) & y)
        if type(x) is tuple and type(y) is tuple and len(x) == len(y):
            return tuple(self.mux(c, p, q) for p, q in zip(x, y))
        raise Stuck('mux')

    def o_in(self, t, env, cid, i):
        c, i = self.ev(cid, env), self.ev(i, env)
        v = self.inputs.get(c)
        if v is None or not (0 <= i < len(v)):
            raise Stuck(f'input {i} of circuit {c} out of range')
        return v[i]

    def o_mo(self, t, env, mi, k, vals):
        i = self.ev(k, env)
        vs = self.ev(vals, env)
        outs = self.run_mod(mi, vs)
        if not (0 <= i < len(outs)):
            raise Stuck('module output out of range')
        return outs[i]

    def run_mod(self, mi, vs):
        key = (mi, vs)
        r = self.shared['mo'].get(key)
        if r is None:
            t = tape_of(self, mi, len(vs))
            if t is not None and all(type(v) is int for v in vs):
                r = t.run(vs, self.M)
            else:
                r = self.run_slow(mi, vs)
            self.shared['mo'][key] = r
        return r

    def run_slow(self, mi, vs):
        mcid, nin, outs = self.defs[mi]
        s = Ev(self.w, self.syms, {isint(mcid): list(vs)}, self.defs, self.shared, self.opaque)
        n = s.ev(nin)
        if n != len(vs):
            raise Stuck(f'module called with {len(vs)} inputs, has {n}')
        return s.ev(outs)

    def o_seq(self, t, env, *segs):
        out = []
        for g in segs:
            if g.op == 'el':
                out.append(self.ev(g.args[0], env))
            else:
                out.extend(self.ev(g, env))
        return tuple(out)

    def o_el(self, t, env, x):
        return self.ev(x, env)

    def o_comp(self, t, env, l, n, body):
        n = self.ev(n, env)
        if n > 100000:
            raise Stuck('count')
        return tuple(self.ev(body, {**env, l: i}) for i in range(n))

    def o_flat(self, t, env, l, n, body):
        n = self.ev(n, env)
        out = []
        for i in range(n):
            out.extend(self.ev(body, {**env, l: i}))
        return tuple(out)

    def o_sum(self, t, env, l, n, body):
        n = self.ev(n, env)
        return sum(self.ev(body, {**env, l: i}) for i in range(n))

    def o_at(self, t, env, s, i):
        v = self.ev(s, env)
        k = self.ev(i, env)
        if not (0 <= k < len(v)):
            raise Stuck('index out of range')
        return v[k]

    def o_oob(self, t, env, s, i):
        return self.o_at(t, env, s, i)

    def o_len(self, t, env, s):
        v = self.ev(s, env)
        return len(v)

    def o_div(self, t, env, x, y):
        y = self.ev(y, env)
        if y == 0:
            raise Stuck('div0')
        return self.ev(x, env) // y

    def o_mod(self, t, env, x, y):
        y = self.ev(y, env)
        if y == 0:
            raise Stuck('div0')
        return self.ev(x, env) % y

    def o_tdiv(self, t, env, x, y):
        x, y = self.ev(x, env), self.ev(y, env)
        if y == 0:
            raise Stuck('div0')
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y >= 0) else -q

    def o_max0(self, t, env, x):
        return max(0, self.ev(x, env))

    def o_min(self, t, env, x, y):
        return min(self.ev(x, env), self.ev(y, env))

    def o_pow2(self, t, env, x):
        v = self.ev(x, env)
        if not 0 <= v < 5000:
            raise Stuck('pow2')
        return 1 << v

    def o_b2i(self, t, env, x):
        v = self.ev(x, env)
        if v == self.M:
            return 1
        if v == 0:
            return 0
        raise Stuck('b2i of non-constant')

    def o_bit(self, t, env, x, i):
        return self.M if (self.ev(x, env) >> self.ev(i, env)) & 1 else 0

    def o_iand(self, t, env, x, y):
        return self.ev(x, env) & self.ev(y, env)

    def o_ior(self, t, env, x, y):
        return self.ev(x, env) | self.ev(y, env)

    def o_ixor(self, t, env, x, y):
        return self.ev(x, env) ^ self.ev(y, env)

    def o_trunc(self, t, env, x, n):
        return self.ev(x, env) % (1 << n)

    def o_fits(self, t, env, x, n):
        v = self.ev(x, env)
        bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}.get(n)
        return self.M if bits is None or 0 <= v < (1 << bits) else 0

    def o_abs(self, t, env, x):
        return abs(self.ev(x, env))

    def o_sign(self, t, env, x):
        v = self.ev(x, env)
        return ('adt', 'num_bigint::Sign', 'Minus' if v < 0 else 'NoSign' if v == 0 else 'Plus')

    def o_nbits(self, t, env, x):
        return self.ev(x, env).bit_length()

    def o_bytes_le(self, t, env, x):
        v = self.ev(x, env)
        if v < 0:
            raise Stuck('bytes of negative')
        return tuple(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little'))

    def o_from_bytes_le(self, t, env, x):
        return int.from_bytes(bytes(self.ev(x, env)), 'little')

    def o_modpow(self, t, env, x, y, z):
        return pow(self.ev(x, env), self.ev(y, env), self.ev(z, env))

    def o_ispow2(self, t, env, x):
        v = self.ev(x, env)
        return self.M if v > 0 and v & (v - 1) == 0 else 0

    # ---------------------------------------------------- recurrences
    def o_recat(self, t, env, r, j):
        return self.recval(r, env, self.ev(j, env))

    def recval(self, r, env, j):
        l, init, body = r.args
        key = ('rec', r) + tuple((x, env[x][0] if type(x) is tuple else env[x]) for x in sorted(freeb(r), key=str))
        tab = self.memo.setdefault(key, {})
        if j in tab:
            return tab[j]
        iv = self.ev(init, env)
        if j < 0:
            raise Stuck('rec index')
        if j < len(iv):
            tab[j] = iv[j]
            return iv[j]
        for q in range(len(iv), j + 1):      # fold upwards to bound the stack
            if q not in tab:
                tab[q] = None
                e2 = {**env, l: q, ('r', l): (key, r, env)}
                tab[q] = self.ev(body, e2)
        return tab[j]

    def o_self(self, t, env, l, idx):
        key, r, e0 = env[('r', l)]
        j = self.ev(idx, env)
        tab = self.memo.get(key, {})
        if j in tab and tab[j] is None:
            raise Stuck('rec forward reference')
        return self.recval(r, e0, j)

    def o_muat(self, t, env, mu, i, k):
        return self.muval(mu, env, self.ev(k, env))[i]

    def muval(self, mu, env, k):
        l, n = mu.args[:2]
        key = ('mu', mu) + tuple((x, env[x][0] if type(x) is tuple else env[x]) for x in sorted(freeb(mu), key=str))
        tab = self.memo.setdefault(key, [])
        if not tab:
            tab.append([self.ev(x, env) for x in mu.args[2:2 + n]])
        if k < 0 or k > 200000:
            raise Stuck('mu index')
        while len(tab) <= k:
            q = len(tab) - 1
            e2 = {**env, l: q, ('x', l): ((key, q), tab[q])}
            tab.append([self.ev(x, e2) for x in mu.args[2 + n:]])
        return tab[k]

    def o_bx(self, t, env, l, i):
        return env[('x', l)][1][i]

    def o_least(self, t, env, l, c):
        for i in range(20000):
            if self.ev(c, {**env, l: i}) == self.M:
                return i
        raise Stuck('least')

    def o_ex(self, t, env, l, n, c):
        n = self.ev(n, env)
        r = 0
        for i in range(n):
            r |= self.ev(c, {**env, l: i})
            if r == self.M:
                break
        return r

    def o_exk(self, t, env, ex):
        l, n, c = ex.args
        n = self.ev(n, env)
        for i in range(n):
            v = self.ev(c, {**env, l: i})
            if v == self.M:
                return i
            if v:
                raise Stuck('exk mixed')
        return 0

    # ------------------------------------------------------------- adts
    def o_adt(self, t, env, d, vn, *fs):
        return ('adt', d, vn) + tuple(self.ev(f, env) for f in fs)

    def o_is(self, t, env, v, vn):
        x = self.ev(v, env)
        return self.M if x[2] == vn else 0

    def o_fld(self, t, env, v, vn, idx, name=None):
        x = self.ev(v, env)
        if type(x) is not tuple or x[0] != 'adt' or (vn and x[2] != vn):
            raise Stuck('field')
        return x[3 + idx]

    def o_eq(self, t, env, x, y):
        return self.M if self.ev(x, env) == self.ev(y, env) else 0

    def o_str(self, t, env, *ps):
        out = ''
        for p in ps:
            out += p if type(p) is str else str(self.ev(p, env))
        return out


class Nd:
    """a gate of the tape under construction"""
    __slots__ = ('t', 'i')

    def __init__(self, t, i):
        self.t, self.i = t, i

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        if self is o:
            return True
        raise Stuck('data-dependent comparison')

    __ne__ = None

    def __and__(self, o):
        return self.t.op(0, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return self.t.op(1, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.t.op(2, self, o)

    __rxor__ = __xor__


class Tape:
    """the gates of one module at one ground size, in order: evaluating a call
    of the module is then one pass over this list"""

    def __init__(self, nin):
        self.M = 1
        self.n = 2 + nin            # slot 0: false, slot 1: true, then the inputs
        self.code = []
        self.seen = {}
        self.calls = {}
        self.outs = None

    def slot(self, x):
        if type(x) is Nd:
            if x.t is not self:
                raise Stuck('gate of another tape')
            return x.i
        if x is True or (type(x) is int and x == 1):
            return 1
        if x is False or (type(x) is int and x == 0):
            return 0
        raise Stuck('not a boolean')

    def op(self, k, x, y):
        a, b = self.slot(x), self.slot(y)
        if a > b:
            a, b = b, a
        if a == b:
            return 0 if k == 2 else x
        if a == 0:
            return 0 if k == 0 else Nd(self, b) if b > 1 else b
        if a == 1 and k != 2:
            return Nd(self, b) if k == 0 else 1
        n = self.seen.get((k, a, b))
        if n is None:
            n = self.seen[(k, a, b)] = Nd(self, self.n)
            self.code.append((k, a, b))
            self.n += 1
        return n

    def call(self, mi, t, vs):
        a = tuple(self.slot(v) for v in vs)
        r = self.calls.get((mi, a))
        if r is None:
            self.code.append((3, t, a))
            r = self.calls[(mi, a)] = tuple(Nd(self, self.n + i) for i in range(len(t.outs)))
            self.n += len(t.outs)
        return r

    def run(self, vs, M):
        v = [0, M]
        v.extend(vs)
        ap = v.append
        for k, a, b in self.code:
            if k == 0:
                ap(v[a] & v[b])
            elif k == 2:
                ap(v[a] ^ v[b])
            elif k == 1:
                ap(v[a] | v[b])
            else:
                v.extend(a.run([v[i] for i in b], M))
        return tuple(v[i] for i in self.outs)


class TEv(Ev):
    """evaluation with gates instead of columns; whatever is not a plain gate is Stuck"""

    def o_ite(self, t, env, c, x, y):
        cv = self.ev(c, env)
        if type(cv) is Nd:
            return self.mux(cv, self.ev(x, env), self.ev(y, env))
        return super().o_ite(t, env, c, x, y)

    def mux(self, c, x, y):
        if type(x) is tuple and type(y) is tuple and len(x) == len(y):
            return tuple(self.mux(c, p, q) for p, q in zip(x, y))
        for q in (x, y):
            if type(q) is not Nd and not (type(q) is int and 0 <= q <= 1):
                raise Stuck('mux')
        if type(x) is int and type(y) is int:
            raise Stuck('mux of constants')    # integers or booleans: not distinguished here
        if x is y:
            return x
        return (c & x) | ((self.M ^ c) & y)

    def run_mod(self, mi, vs):
        t = tape_of(self, mi, len(vs))
        if t is None:
            raise Stuck('no tape')
        return self.tape.call(mi, t, vs)

    def o_eq(self, t, env, x, y):
        raise Stuck('eq')


def tape_of(E, mi, nv):
    T = E.shared.setdefault('tape', {})
    k = (mi, nv)
    if k not in T:
        T[k] = None                 # while under construction, and when there is none
        mcid, nin, outs = E.defs[mi]
        t = Tape(nv)
        s = TEv(1, E.syms, {isint(mcid): [Nd(t, 2 + i) for i in range(nv)]}, E.defs, E.shared, E.opaque)
        s.tape = t
        try:
            if s.ev(nin) == nv:
                r = s.ev(outs)
                t.outs = tuple(t.slot(x) for x in r)
                T[k] = t
        except (Stuck, TypeError, RecursionError):
            pass
    return T[k]


def columns(nbits, rnd_width=256, seed=1, special=()):
    """truth-table columns for nbits variables: exhaustive when small"""
    if nbits <= 10:
        w = 1 << nbits
        vs = []
        for i in range(nbits):
            v = 0
            for j in range(w):
                if (j >> i) & 1:
                    v |= 1 << j
            vs.append(v)
        return w, vs
    r = random.Random(seed)
    vs = []
    w = rnd_width
    for i in range(nbits):
        v = r.getrandbits(w)
        # first columns: all zero, all one
        v &= ~0b11
        v |= 0b10
        vs.append(v)
    # one-hot / boundary columns
    for j in range(min(nbits, 40)):
        col = 2 + j
        for i in range(nbits):
            vs[i] = (vs[i] & ~(1 << col)) | ((1 << col) if i == j else 0)
    return w, vs


def bits_of(vs, col):
    return [(v >> col) & 1 for v in vs]


def num(bits):
    return sum(b << i for i, b in enumerate(bits))
