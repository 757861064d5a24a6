"""Gate lists: well-formedness, and proofs that a gate list computes a function.

match: every wire is described by its truth table over a few already identified
signals (a local cut); a wire whose description is that of a signal of the
specification becomes that signal.  adders: full and half adders are found the
same way and the arithmetic identity is checked by linear rewriting.  bytes_dom
(AES): every wire is a sum over GF(2) of functions of single bytes.  All of them
hold for every input; nothing is sampled."""
import heapq

ARITY = {'AND': 2, 'XOR': 2, 'INV': 1, 'NOT': 1, 'EQW': 1, 'EQ': 1, 'OR': 2}


class Bad(Exception):
    pass


class Net:
    """a Bristol gate list; Bad with the first thing that is wrong"""

    def __init__(self, text):
        L = text.split('\n')
        if len(L) < 3:
            raise Bad('no header')
        try:
            h = [[int(x) for x in l.split()] for l in L[:3]]
        except ValueError:
            raise Bad('header is not numeric')
        if len(h[0]) != 2:
            raise Bad('line 1 is not "gates wires"')
        self.ng, self.nw = h[0]
        for k in (1, 2):
            if not h[k] or len(h[k]) != h[k][0] + 1:
                raise Bad(f'line {k + 1} does not list as many widths as it says')
        self.ins, self.outs = h[1][1:], h[2][1:]
        self.nin, self.nout = sum(self.ins), sum(self.outs)
        self.gates = []
        have = [False] * self.nw
        self.line = [None] * self.nw
        if self.nin > self.nw or self.nout > self.nw:
            raise Bad('more inputs or outputs than wires')
        for i in range(self.nin):
            have[i] = True
        for n, l in enumerate(L[3:], 4):
            t = l.split()
            if not t:
                continue
            k = t[-1]
            if k not in ARITY:
                raise Bad(f'line {n}: unknown gate {k}')
            try:
                v = [int(x) for x in t[:-1]]
            except ValueError:
                raise Bad(f'line {n}: not a number')
            if v[:2] != [ARITY[k], 1] or len(v) != 2 + ARITY[k] + 1:
                raise Bad(f'line {n}: a {k} gate takes {ARITY[k]} wires and gives one: {l}')
            a, o = v[2:-1], v[-1]
            if k == 'EQ':
                if a[0] not in (0, 1):
                    raise Bad(f'line {n}: constant {a[0]}')
            else:
                for w in a:
                    if not 0 <= w < self.nw or not have[w]:
                        raise Bad(f'line {n}: wire {w} is used before it is driven')
            if not 0 <= o < self.nw:
                raise Bad(f'line {n}: wire {o} does not exist')
            if have[o]:
                raise Bad(f'line {n}: wire {o} is driven twice')
            have[o] = True
            self.line[o] = n
            self.gates.append((k, a, o, n))
        if len(self.gates) != self.ng:
            raise Bad(f'the header says {self.ng} gates, there are {len(self.gates)}')
        for w in range(self.nw):
            if not have[w]:
                raise Bad(f'wire {w} is never driven')
        self.out = list(range(self.nw - self.nout, self.nw))

    def eval(self, inp, width):
        """all wires, bit-parallel"""
        M = (1 << width) - 1
        v = [0] * self.nw
        v[:self.nin] = inp
        for k, a, o, n in self.gates:
            if k == 'XOR':
                v[o] = v[a[0]] ^ v[a[1]]
            elif k == 'AND':
                v[o] = v[a[0]] & v[a[1]]
            elif k == 'OR':
                v[o] = v[a[0]] | v[a[1]]
            elif k in ('INV', 'NOT'):
                v[o] = v[a[0]] ^ M
            elif k == 'EQW':
                v[o] = v[a[0]]
            else:
                v[o] = M if a[0] else 0
        return [v[w] for w in self.out]


# -------------------------------------------------- local functions
KMAX = 6


def expand(f, sup):
    """truth table of f = (support, table) over the larger support"""
    s, t = f
    if s == sup:
        return t
    pos = [sup.index(x) for x in s]
    r = 0
    for i in range(1 << len(sup)):
        j = 0
        for b, p in enumerate(pos):
            j |= (i >> p & 1) << b
        r |= (t >> j & 1) << i
    return r


_exp = {}


def expandc(f, sup):
    s, t = f
    pos = tuple(sup.index(x) for x in s)
    k = (t, pos, len(sup))
    r = _exp.get(k)
    if r is None:
        r = _exp[k] = expand(f, sup)
    return r


_red = {}


def reduce_(sup, t):
    """drop the variables the function does not depend on"""
    k = (len(sup), t)
    keep = _red.get(k)
    if keep is None:
        n = len(sup)
        ks = []
        for b in range(n):
            dep = False
            for i in range(1 << n):
                if not i >> b & 1 and (t >> i & 1) != (t >> (i | 1 << b) & 1):
                    dep = True
                    break
            if dep:
                ks.append(b)
        r = 0
        for i in range(1 << len(ks)):
            j = 0
            for q, b in enumerate(ks):
                j |= (i >> q & 1) << b
            r |= (t >> j & 1) << i
        keep = _red[k] = (tuple(ks), r)
    ks, r = keep
    return tuple(sup[b] for b in ks), r


ZERO, ONE = ((), 0), ((), 1)


def inv(f):
    return f[0], f[1] ^ ((1 << (1 << len(f[0]))) - 1)


def comb(k, f, g):
    """gate on two local functions; None when the cut gets too wide"""
    sup = tuple(sorted(set(f[0]) | set(g[0])))
    if len(sup) > KMAX:
        return None
    a, b = expandc(f, sup), expandc(g, sup)
    t = a ^ b if k == 'XOR' else a & b if k == 'AND' else a | b
    return reduce_(sup, t)


def sym(i):
    return (i,), 2


class Spec:
    """signals of a specification, each a local function of earlier ones"""

    def __init__(self, nin):
        self.n = nin                      # symbols 0..nin-1 are the inputs
        self.table = {}                   # local function -> symbol
        self.defn = {}

    def fresh(self):
        self.n += 1
        return self.n - 1

    def lut(self, tt, *ops):
        """signal tt(ops): a constant, a (negated) signal or a symbol of its own"""
        return self.signal(self.fn(tt, *ops))

    def fn(self, tt, *ops):
        """tt(ops) as a local function, not a signal"""
        sup = tuple(sorted(set(x for o in ops for x in o[0])))
        t = 0
        es = [expandc(o, sup) for o in ops]
        for i in range(1 << len(sup)):
            j = 0
            for q, e in enumerate(es):
                j |= (e >> i & 1) << q
            t |= (tt >> j & 1) << i
        return reduce_(sup, t)

    def signal(self, f):
        if len(f[0]) <= 1:
            return f
        s = self.table.get(f)
        if s is not None:
            return sym(s)
        s = self.table.get(inv(f))
        if s is not None:
            return inv(sym(s))
        s = self.fresh()
        self.table[f] = s
        self.defn[s] = f
        return sym(s)

    def find(self, f):
        s = self.table.get(f)
        if s is not None:
            return sym(s)
        s = self.table.get(inv(f))
        return inv(sym(s)) if s is not None else f


XOR2, AND2, OR2 = 0b0110, 0b1000, 0b1110
XOR3, MAJ3 = 0b10010110, 0b11101000
BORROW = sum(1 << i for i in range(8) if (1 - (i & 1)) + (i >> 1 & 1) + (i >> 2 & 1) >= 2)    # (a, b, borrow)
MUX = sum(1 << i for i in range(8) if (i >> 1 & 1 if i & 1 else i >> 2 & 1))                    # (c, then, else)


def match(net, spec):
    """local function of every wire over the inputs and the signals of the spec"""
    v = [None] * net.nw
    opaque = {}
    for i in range(net.nin):
        v[i] = sym(i)
    for k, a, o, n in net.gates:
        if k == 'EQ':
            r = ONE if a[0] else ZERO
        elif k == 'EQW':
            r = v[a[0]]
        elif k in ('INV', 'NOT'):
            r = inv(v[a[0]])
        else:
            r = comb(k, v[a[0]], v[a[1]])
            if r is None:
                r = sym(spec.fresh())     # a signal of its own: sound
            else:
                r = spec.find(r)
        v[o] = r
    return v


# ------------------------------------------------------ specifications
def bits(lo, n):
    return [sym(lo + i) for i in range(n)]


def spec_add(n=64):
    s = Spec(2 * n)
    a, b = bits(0, n), bits(n, n)
    c, out = ZERO, []
    for i in range(n):
        out.append(s.lut(XOR3, a[i], b[i], c))
        c = s.lut(MAJ3, a[i], b[i], c)
    return s, out


def subtract(s, a, b, inner=False):
    """difference and last borrow"""
    c, out = ZERO, []
    for x, y in zip(a, b):
        out.append((s.fn if inner else s.lut)(XOR3, x, y, c))
        c = s.lut(BORROW, x, y, c)
    return out, c


def spec_sub(n=64):
    s = Spec(2 * n)
    out, _ = subtract(s, bits(0, n), bits(n, n))
    return s, out


def negate(s, a):
    """two's complement: the bits above the lowest one are inverted"""
    out, seen = [], ZERO
    for x in a:
        out.append(s.lut(XOR2, x, seen))
        seen = s.lut(OR2, x, seen)
    return out


def spec_neg(n=64):
    s = Spec(n)
    return s, negate(s, bits(0, n))


def divide(s, a, d):
    """restoring division, one bit of the dividend per row; quotient bits"""
    n = len(a)
    above = [ZERO] * (n + 1)              # above[j]: some divisor bit >= j is set
    for j in range(n - 1, -1, -1):
        above[j] = s.lut(OR2, d[j], above[j + 1])
    r, q = [], [None] * n
    for k in range(n):
        i = n - 1 - k
        x = [a[i]] + r                    # the remainder shifted in one bit
        df, br = subtract(s, x, d[:len(x)], True)
        no = s.lut(OR2, br, above[len(x)])
        q[i] = inv(no)
        r = [s.lut(MUX, no, p, t) for p, t in zip(x, df)]
    return q


def spec_udiv(n=64):
    s = Spec(2 * n)
    return s, divide(s, bits(0, n), bits(n, n))


def condneg(s, c, a):
    """c ? -a : a"""
    out, seen = [], ZERO
    for x in a:
        out.append(s.lut(0b01111000, seen, c, x))          # x ^ (seen & c)
        seen = s.lut(OR2, x, seen)
    return out


def signed_divide(s, a, d):
    """non-restoring division: the remainder starts as -d and d is added to or
    subtracted from it according to its sign"""
    n = len(a)
    r, seen = [], ZERO
    for x in d:
        r.append(s.fn(XOR2, x, seen))
        seen = s.lut(OR2, x, seen)
    q = [None] * n
    for i in range(n - 1, -1, -1):
        x, m, c = [a[i]] + r[:n - 1], inv(r[n - 1]), ZERO
        r = []
        for j in range(n):
            r.append(s.lut(XOR3, x[j], d[j], c))
            c = s.lut(ADDSUB, x[j], d[j], c, m)
        q[i] = inv(r[n - 1])
    return q


ADDSUB = sum(1 << i for i in range(16) if ((i & 1) ^ (i >> 3 & 1)) + (i >> 1 & 1) + (i >> 2 & 1) >= 2)   # (x, d, carry, subtract)


def spec_sdiv(n=64):
    s = Spec(2 * n)
    a, b = bits(0, n), bits(n, n)
    na, nb = condneg(s, a[n - 1], a), condneg(s, b[n - 1], b)
    q = signed_divide(s, na, nb)
    return s, condneg(s, s.lut(XOR2, a[n - 1], b[n - 1]), q)


def proves(net, spec):
    """outputs that are not the specified signal"""
    s, out = spec
    v = match(net, s)
    return [i for i in range(len(out)) if v[net.out[i]] != out[i]]


# ------------------------------------------------------- multiplication
def adders(net, passes=20):
    """local functions of all wires with full and half adders recognised:
    sums = {sum symbol: (operands, carry symbol)}, products = {symbol: (a, b)}"""
    n = net.nin
    s = Spec(n)
    sums, prods = {}, {}

    def cell(sup):
        """an adder over the signals sup"""
        two = len(sup) == 2
        ck, sk = (sup, AND2 if two else MAJ3), (sup, XOR2 if two else XOR3)
        if sk in s.table and s.table[sk] in sums:
            return False
        if ck not in s.table:
            s.signal(ck)
        new = sk not in s.table
        if new:
            s.signal(sk)
        sums[s.table[sk]] = (sup, s.table[ck])
        return new
    v = None
    for p in range(passes):
        again = False
        v = [None] * net.nw
        seen = {}
        for i in range(n):
            v[i] = sym(i)
        for k, a, o, ln in net.gates:
            if k == 'EQ':
                r = ONE if a[0] else ZERO
            elif k == 'EQW':
                r = v[a[0]]
            elif k in ('INV', 'NOT'):
                r = inv(v[a[0]])
            else:
                r = comb(k, v[a[0]], v[a[1]])
                if r is None:
                    r = sym(s.fresh())
                else:
                    sup, t = r
                    if r not in s.table:
                        if len(sup) == 3 and t in (MAJ3, XOR3):
                            if cell(sup) and (sup, XOR3) in seen:
                                again = True
                        elif len(sup) == 2 and t == AND2:
                            if sup[0] < n and sup[1] < n:
                                s.signal(r)
                                prods[s.table[r]] = sup
                            elif cell(sup) and (sup, XOR2) in seen:
                                again = True
                    seen[r] = o
                    r = s.find(r)
            v[o] = r
        if not again:
            break
    return v, sums, prods


def product(net, order, n=64):
    """None when the outputs (in the given order) are the bits of the product
    of two n-bit inputs, otherwise what is left over"""
    v, sums, prods = adders(net)
    M = 1 << 2 * n
    P = {}
    for w, o in enumerate(order):
        f = v[net.out[o]]
        if len(f[0]) != 1 or f[1] != 2:
            return f'output {o} is not the sum of an adder'
        P[f[0][0]] = (P.get(f[0][0], 0) + (1 << w)) % M
    for x in sorted(sums, reverse=True):
        c = P.pop(x, 0)
        if not c:
            continue
        ops, carry = sums[x]
        for y in ops:
            P[y] = (P.get(y, 0) + c) % M
        P[carry] = (P.get(carry, 0) - 2 * c) % M
    P = {k: c for k, c in P.items() if c}
    want = {}
    for k, (x, y) in prods.items():
        i, j = sorted((x, y))
        if i < n <= j:
            want[k] = (1 << (i + j - n)) % M
    if len(want) != n * n:
        return f'{len(want)} of {n * n} partial products'
    if P != want:
        return f'{sum(P.get(k, 0) != want.get(k, 0) for k in set(P) | set(want))} terms of the sum are left over'
    return None


# ------------------------------------------------------------------ AES
def xtime(a):
    a <<= 1
    return (a ^ 0x11b) if a & 0x100 else a


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a, b = xtime(a), b >> 1
    return r


def aes_sbox():
    out = []
    for x in range(256):
        i = next((y for y in range(256) if gmul(x, y) == 1), 0)
        out.append(i ^ 0x63 ^ (r8(i, 1) ^ r8(i, 2) ^ r8(i, 3) ^ r8(i, 4)))
    return out


def r8(x, k):
    return ((x << k) | (x >> (8 - k))) & 255


class Aes:
    """AES-128 over linear forms: a bit is (mask over symbols, constant), the
    symbols being the 256 inputs and the output bits of every S-box"""

    def __init__(self, key, msg):
        self.nsym = 256
        self.groups = []                  # input forms (bit 0 first), first output symbol
        self.out = self.run(key, msg)

    def sub(self, x):
        y = self.nsym
        self.nsym += 8
        self.groups.append((x, y))
        return [(1 << (y + b), 0) for b in range(8)]

    @staticmethod
    def add(*bs):
        return [xor_all([b[i] for b in bs]) for i in range(8)]

    @staticmethod
    def times2(x):
        t = x[7]
        r = [(0, 0)] + x[:7]
        return [xor_all([r[i], t]) if 0x1b >> i & 1 else r[i] for i in range(8)]

    @staticmethod
    def const(c):
        return [(0, c >> i & 1) for i in range(8)]

    def run(self, key, msg):
        A, S = self.add, self.sub
        w = [key[4 * i:4 * i + 4] for i in range(4)]
        rc = 1
        for i in range(4, 44):
            t = w[i - 1]
            if i % 4 == 0:
                t = [S(x) for x in t[1:] + t[:1]]
                t[0] = A(t[0], self.const(rc))
                rc = xtime(rc)
            w.append([A(x, y) for x, y in zip(w[i - 4], t)])
        rk = [sum(w[4 * r:4 * r + 4], []) for r in range(11)]
        s = [A(x, y) for x, y in zip(msg, rk[0])]
        for r in range(1, 11):
            s = [S(x) for x in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r < 10:
                o = []
                for c in range(4):
                    a = s[4 * c:4 * c + 4]
                    for i in range(4):
                        p, q, y, z = (a[(i + j) % 4] for j in range(4))
                        o.append(A(self.times2(p), self.times2(q), q, y, z))
                s = o
            s = [A(x, y) for x, y in zip(s, rk[r])]
        return s


def xor_all(fs):
    m = c = 0
    for a, b in fs:
        m ^= a
        c ^= b
    return m, c


def bebytes(lo):
    """16 bytes of input symbols, the most significant bit of each first"""
    return [[(1 << (lo + 8 * i + 7 - b), 0) for b in range(8)] for i in range(16)]


def aes_left(net):
    """outputs of the gate list (message, then key) that are not AES-128's"""
    spec = Aes(bebytes(128), bebytes(0))
    S = aes_sbox()
    ALL = (1 << 256) - 1
    xt = [sum((v >> b & 1) << v for v in range(256)) for b in range(8)]
    yt = [sum((S[v] >> b & 1) << v for v in range(256)) for b in range(8)]
    # every table in the span of inputs, outputs and 1 has one representation
    basis = []                            # (pivot, table, combination)
    for k, t in enumerate(xt + yt + [ALL]):
        c = 1 << k
        for p, u, d in basis:
            if t >> p & 1:
                t ^= u
                c ^= d
        assert t
        basis.append((t.bit_length() - 1, t, c))
    comb_of = {}                          # linear form -> (group, combination of its input bits)
    for g, (x, y) in enumerate(spec.groups):
        acc = [(0, 0)]
        for b in range(8):
            acc = acc + [xor_all([a, x[b]]) for a in acc]
        for k, (m, c) in enumerate(acc):
            if m:
                comb_of[m] = (g, k, c)
    xtab = [0] * 256
    for k in range(256):
        for b in range(8):
            if k >> b & 1:
                xtab[k] ^= xt[b]

    def linear(g, t):
        """a table over group g as a linear form, or None"""
        c = 0
        for p, u, d in basis:
            if t >> p & 1:
                t ^= u
                c ^= d
        if t:
            return None
        x, y = spec.groups[g]
        f = [x[b] for b in range(8) if c >> b & 1] + [(1 << (y + b), 0) for b in range(8) if c >> (8 + b) & 1]
        return xor_all(f + [(0, c >> 16 & 1)])

    def norm(m, c, ts):
        ts = {g: t for g, t in ts.items() if t}
        for g in list(ts):
            l = linear(g, ts[g])
            if l:
                del ts[g]
                m ^= l[0]
                c ^= l[1]
        return m, c, ts

    def table(f, g):
        """the value f as a table over group g, or None"""
        m, c, ts = f
        if any(k != g for k in ts):
            return None
        t = ts.get(g, 0)
        if m:
            e = comb_of.get(m)
            if e is None or e[0] != g:
                return None
            t ^= xtab[e[1]] ^ (ALL if e[2] else 0)
        return t ^ (ALL if c else 0)
    v = [None] * net.nw
    for i in range(net.nin):
        v[i] = (1 << i, 0, {})
    ands = 0
    for k, a, o, n in net.gates:
        x = v[a[0]] if k != 'EQ' else None
        if k == 'EQ':
            v[o] = (0, a[0], {})
        elif k == 'EQW':
            v[o] = x
        elif x is None:
            v[o] = None
        elif k in ('INV', 'NOT'):
            v[o] = (x[0], x[1] ^ 1, x[2])
        elif v[a[1]] is None:
            v[o] = None
        elif k == 'XOR':
            y = v[a[1]]
            ts = dict(x[2])
            for g, t in y[2].items():
                ts[g] = ts.get(g, 0) ^ t
            v[o] = norm(x[0] ^ y[0], x[1] ^ y[1], ts) if ts else (x[0] ^ y[0], x[1] ^ y[1], ts)
        else:
            y = v[a[1]]
            gs = set(x[2]) | set(y[2])
            for f in (x, y):
                if f[0] in comb_of:
                    gs.add(comb_of[f[0]][0])
            r = None
            if len(gs) == 1:
                g = next(iter(gs))
                p, q = table(x, g), table(y, g)
                if p is not None and q is not None:
                    r = norm(0, 0, {g: p & q if k == 'AND' else p | q})
                    ands += 1
            v[o] = r
    want = [spec.out[i // 8][7 - i % 8] for i in range(128)]
    return [i for i in range(128) if v[net.out[i]] is None or v[net.out[i]][2] or v[net.out[i]][:2] != want[i]], ands
