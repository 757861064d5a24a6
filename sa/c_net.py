"""C23: the bundled gate lists are well-formed and read by their build functions.
C24: the bundled circuits compute what they are for."""
import os, random
from terms import *
import terms as Tm
from interp import Unsupported, Interp, St
from core import check, loc_of
from build import Missing, find_fn
from inst import columns
import netlist
from netlist import Net, Bad

A = 'src/circuits/arithmetic/'
# build function -> operand widths, output widths
LISTS = {
    'build_adder64': ([64, 64], [64]), 'build_sub64': ([64, 64], [64]), 'build_neg64': ([64], [64]),
    'build_mult2_64': ([64, 64], [64, 64]), 'build_divide_signed_64': ([64, 64], [64]),
    'build_divide_unsigned_64': ([64, 64], [64]), 'build_aes128': ([128, 128], [128]),
}
# gates the reader builds (C09)
KINDS = ('XOR', 'AND', 'OR', 'INV', 'EQ', 'EQW')


def text_of(J, v):
    """text of a literal (large ones are kept beside the program)"""
    for _ in range(8):
        if v.op == 'strfile':
            with open(os.path.join(J['_dir'], v.args[0]), encoding='utf-8') as f:
                return f.read()
        if v.op == 'str' and all(type(p) is str for p in v.args):
            return ''.join(v.args)
        if v.op == 'str' and len(v.args) == 1:
            v = v.args[0]
            continue
        if v.op == 'adt' and len(v.args) >= 3:
            v = v.args[2]
            continue
        return None
    return None


def build(J, name, fail):
    """(function, texts handed to the reader, handles, value returned)"""
    fn = find_fn(J, name, free=True)
    rd = find_fn(J, 'read', 'BristolReader')
    ip = Interp(J)
    got = []

    def hook(ip, st, f, args, ty):
        t = args[1]
        for _ in range(4):
            u = ip.deref_val(st, t)
            if u is t:
                break
            t = u
        got.append((t, args[2]))
        return err(mk('readfail')) if fail else ok(mk('adt', 'tuple', ''))
    ip.hooks[rd['id']] = hook
    st = St()
    h = sym('handle')
    cell = ip.ref(ip.alloc(st, h))
    v = ip.call_fn(st, fn, [cell], {})
    st.force()
    return fn, ip, st, got, cell, v


@check('C23')
def run23(c):
    J = c.J
    for name, (ins, outs) in LISTS.items():
        c.count('build functions')
        try:
            fn, ip, st, got, cell, v = build(J, name, False)
        except Missing as m:
            c.bad(name, str(m))
            continue
        except Unsupported as u:
            c.und(name, str(u))
            continue
        loc = loc_of(fn)
        what = f'{name} reads its gate list once, into the circuit it is given'
        if st.dead:
            c.bad(what, 'it panics', loc)
            continue
        if len(got) != 1:
            (c.bad if not got else c.und)(what, f'{len(got)} gate lists read', loc)
            continue
        if ip.deref_val(st, got[0][1]) is not ip.deref_val(st, cell):
            c.und(what, 'the handle was not followed', loc)
        elif v.op != 'adt' or v.args[1] != 'Ok':
            (c.bad if v.op == 'adt' and v.args[1] == 'Err' else c.und)(what, f'returns {show(v)[:80]} although the list was read', loc)
        else:
            try:
                v2 = build(J, name, True)[-1]
                if v2.op == 'adt' and v2.args[1] == 'Ok':
                    c.bad(what, 'an error of the reader is lost: it returns Ok', loc)
                elif not contains(v2, lambda t: t.op == 'readfail'):
                    c.und(what, f'error of the reader: {show(v2)[:80]}', loc)
                else:
                    c.ok(what, 'abstract execution with the reader replaced by its contract, both outcomes', loc)
            except Unsupported as u:
                c.und(what, str(u), loc)
        t = text_of(J, got[0][0])
        what = f'gate list of {name} is well-formed, {"+".join(map(str, ins))} bits to {"+".join(map(str, outs))}'
        if t is None:
            c.und(what, f'text not resolved: {show(got[0][0])[:80]}', loc)
            continue
        try:
            n = Net(t)
        except Bad as b:
            c.bad(what, str(b), loc)
            continue
        c.count('gate lines', n.ng)
        c.count('wires', n.nw)
        if n.ins != ins or n.outs != outs:
            c.bad(what, f'interface is {n.ins} to {n.outs}', loc)
            continue
        ks = set(g[0] for g in n.gates) - set(KINDS)
        if ks:
            c.bad(what, f'gates {sorted(ks)} are not read', loc)
            continue
        c.ok(what, f'{n.ng} gates: every wire driven once and before use, counts as in the header', loc)
    c.extra['explanation'] = 'The text each build function hands to the reader is taken from the type-checked program and scanned as a gate list.'


# ----------------------------------------------------------------- C24
M64 = (1 << 64) - 1


def sgn(x):
    return x - (1 << 64) if x >> 63 else x


def sdiv(a, b):
    a, b = sgn(a), sgn(b)
    if b == 0:
        return None
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & M64


def mul(a, b):
    p = a * b
    return p >> 64 | (p & M64) << 64      # the high word comes first


FUN = {
    'build_adder64': ('the sum modulo 2^64', lambda n: netlist.proves(n, netlist.spec_add()), lambda a, b: (a + b) & M64),
    'build_sub64': ('the difference modulo 2^64', lambda n: netlist.proves(n, netlist.spec_sub()), lambda a, b: (a - b) & M64),
    'build_neg64': ("the two's complement", lambda n: netlist.proves(n, netlist.spec_neg()), lambda a: -a & M64),
    'build_mult2_64': ('the 128-bit product, high word first', lambda n: netlist.product(n, list(range(64, 128)) + list(range(64))), mul),
    'build_divide_unsigned_64': ('the unsigned quotient (divisor not 0)', lambda n: netlist.proves(n, netlist.spec_udiv()), lambda a, b: a // b if b else None),
    'build_divide_signed_64': ('the signed quotient, rounded to 0 (divisor not 0)', lambda n: netlist.proves(n, netlist.spec_sdiv()), sdiv),
    'build_aes128': ('AES-128 of the first operand under the second', lambda n: netlist.aes_left(n)[0], None),
}


def aes_ref(msg, key):
    S = SB
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [S[t[1]] ^ rc, S[t[2]], S[t[3]], S[t[0]]]
            rc = netlist.xtime(rc)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    rk = [sum(w[4 * r:4 * r + 4], []) for r in range(11)]
    s = [a ^ b for a, b in zip(msg, rk[0])]
    x2 = netlist.xtime
    for r in range(1, 11):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            o = []
            for k in range(4):
                a = s[4 * k:4 * k + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ x2(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return s


SB = netlist.aes_sbox()


def operands(name, rnd, k):
    if name == 'build_aes128':
        return [[rnd.getrandbits(128) for _ in range(k)] for _ in range(2)]
    m = len(LISTS[name][0])
    out = [[] for _ in range(m)]
    edge = [0, 1, 2, 3, M64, M64 - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1 << 32, M64 >> 32]
    for a in edge:
        for b in edge:
            out[0].append(a)
            if m > 1:
                out[1].append(b)
    while len(out[0]) < k:
        x = rnd.getrandbits(64) >> rnd.randrange(64)
        kind = rnd.randrange(4)
        if kind == 1:
            x = M64 ^ x
        y = rnd.getrandbits(64) >> rnd.randrange(64)
        if rnd.randrange(4) == 0:
            y = M64 ^ y
        if kind == 2:
            y = (x + rnd.randrange(-2, 3)) & M64
        if kind == 3 and y:
            x = (x // y * y + rnd.randrange(-1, 2)) & M64
        out[0].append(x)
        if m > 1:
            out[1].append(y)
    return out


def witness(name, n, seed, k):
    """an input for which the gate list, folded gate by gate, differs"""
    rnd = random.Random(seed)
    ops = operands(name, rnd, k)
    k = len(ops[0])
    wid = LISTS[name][0][0]
    inp = []
    for o in ops:
        for b in range(wid):
            p = wid - 1 - b if name == 'build_aes128' else b
            inp.append(int(''.join('1' if x >> p & 1 else '0' for x in reversed(o)), 2))
    res = n.eval(inp, k)
    nb = len(res)
    txt = [format(r, f'0{k}b')[::-1] for r in res]
    for c in range(k):
        got = sum((txt[b][c] == '1') << (nb - 1 - b if name == 'build_aes128' else b) for b in range(nb))
        a = [o[c] for o in ops]
        if name == 'build_aes128':
            want = int.from_bytes(bytes(aes_ref(a[0].to_bytes(16, 'big'), a[1].to_bytes(16, 'big'))), 'big')
        else:
            want = FUN[name][2](*a)
        if want is not None and want != got:
            return f'{", ".join(map(hex, a))} gives {got:#x}, not {want:#x}'
    return None


@check('C24')
def run24(c):
    J = c.J
    for name in LISTS:
        what, prover, _ = FUN[name]
        what = f'{name} computes {what}'
        try:
            fn, ip, st, got, cell, v = build(J, name, False)
            t = text_of(J, got[0][0]) if len(got) == 1 else None
        except Missing as m:
            c.bad(what, str(m))
            continue
        except Unsupported as u:
            c.und(what, str(u))
            continue
        loc = loc_of(fn)
        if t is None:
            c.und(what, 'text not resolved', loc)
            continue
        try:
            n = Net(t)
        except Bad as b:
            c.und(what, f'the gate list is not well-formed (C23): {b}', loc)
            continue
        if (n.ins, n.outs) != LISTS[name]:
            c.und(what, 'the interface is not the expected one (C23)', loc)
            continue
        c.count('gates', n.ng)
        left = prover(n)
        if not left:
            c.ok(what, 'every output wire is the specified signal, by local cuts, for all inputs' if name != 'build_mult2_64' else
                 'adder cells recognised; the weighted sum of the outputs rewrites to the sum of the partial products', loc)
            continue
        w = witness(name, n, c.seed, 400 if name == 'build_aes128' else 6000)
        if w:
            c.bad(what, w, loc)
        else:
            c.und(what, f'not matched: {left if type(left) is str else str(len(left)) + " outputs, first " + str(left[0])}', loc)
    c.extra['explanation'] = 'Each gate list is matched, gate by gate, against the specification: wires are described over cuts of at most 6 identified signals; AES wires as sums of functions of single S-box inputs.  An unmatched list is evaluated at boundary operands and reported only with a definite wrong result.'
