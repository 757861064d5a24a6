"""C21: bit/byte/hex conversions.  C22: extended gcd, modular inverses."""
import random
import time
from terms import *
import terms as Tm
import loops
from models import lit
import facts as Fx
from interp import Unsupported, Interp, St
from core import check, loc_of
from build import Missing, find_fn
from inst import Ev, Stuck
from prove import equal, prove
from c_eval import literals


def both(xs, q, j, be):
    """weight exponent of bit j of a byte"""
    return 7 - j if be else j


def bit_of(byte, i):
    return eq0(sub(imod(idiv(byte, I(1 << i)), I(2)), ONE))


def py_bits(xs, be):
    return [bool(b >> (7 - i if be else i) & 1) for b in xs for i in range(8)]


def py_bytes(xs, be):
    return [sum(int(b) << (7 - i if be else i) for i, b in enumerate(xs[k:k + 8])) for k in range(0, len(xs), 8)]


def run(J, names, x):
    """summary of f_n(..f_1(x))"""
    ip = Interp(J)
    st = St()
    v = x
    fn = None
    for n in names:
        fn = find_fn(J, n, free=True)
        v = ip.call_fn(st, fn, [ip.ref(ip.alloc(st, v))], {})
    st.force()
    return ip, st, v, fn


def ground(x, xs, v):
    """value of the summary v at the ground sequence xs; None when it cannot be folded"""
    r = subst(v, {x: seq(*[el(B(b) if type(b) is bool else I(b)) for b in xs])})
    e = Ev(1)
    try:
        r = e.ev(r)
    except (Stuck, KeyError, ZeroDivisionError, TypeError, AttributeError):
        return None
    return r


def conv(c, J, name, be, tobits):
    fn = find_fn(J, name, free=True)
    x = sym('xs')
    order = 'most significant' if be else 'least significant'
    try:
        ip, st, v, _ = run(J, [name], x)
    except Unsupported as u:
        v, why = None, str(u)
    n = seq_len(x)
    open_ = []

    def show_eq(pc, a, b, what):
        o = equal(tuple(pc), a, b)
        if o:
            open_.append((what, o))
    if v is None:
        open_.append((why, []))
    elif st.dead:
        open_.append(('returns on every input', []))
    else:
        if tobits:
            show_eq(st.pc, seq_len(v), scale(n, 8), 'eight bits per byte')
        else:
            show_eq(st.pc, seq_len(v), idiv(add(n, I(7)), I(8)), 'one byte per started group of eight bits')
        q = sym('q', True)
        if tobits:
            pc = tuple(st.pc) + (lt(q, n),)
            for j in range(8):
                show_eq(pc, seq_at(v, add(scale(q, 8), I(j))), bit_of(seq_at(x, q), 7 - j if be else j), f'bit {j} of a byte')
                c.count('element cases')
        else:
            # a full group, then a last group of r bits
            for r in range(1, 9):
                if r == 8:
                    m = n
                    pc = tuple(st.pc) + (le(add(scale(q, 8), I(8)), n),)
                    sb = {}
                else:
                    pc = tuple(st.pc) + (eq0(sub(n, add(scale(q, 8), I(r)))),)
                    sb = {n: add(scale(q, 8), I(r))}
                want = ZERO
                for j in range(r):
                    want = add(want, scale(b2i(seq_at(x, add(scale(q, 8), I(j)))), 1 << (7 - j if be else j)))
                got = norm_min(seq_at(v, q), pc, r)
                show_eq(pc, got, want, 'the byte of a full group' if r == 8 else f'the byte of a last group of {r} bits')
                c.count('element cases')
    obls = [] if v is None else ip.obls
    for o in obls:
        if not prove_obl(o):
            open_.append((o['kind'] + ' cannot happen', []))
    c.count('failure conditions', len(obls))
    # ground instances of the same summary: they decide an open obligation
    rnd = random.Random(c.seed)
    g = 0
    stuck = 0
    lens = list(range(0, 26)) * 2 if open_ or c.thorough else list(range(0, 10, 3))
    if open_:
        for k in literals(J, ('utils',), 70000):
            if k <= 30 or k in (255, 256):        # the masks and casts of ordinary code
                continue
            lens += [m for m in (k - 1, k, k + 1, k + 3, 8 * k - 1, 8 * k, 8 * k + 1, 8 * k + 9) if 25 < m < (70000 if k > 8191 else 9000)]
    t0 = time.time()
    for ln in lens:
        if time.time() - t0 > 30:
            break
        xs = list(range(256)) if tobits and open_ and ln == 25 else [rnd.random() < .5 for _ in range(ln)] if not tobits else [rnd.choice([0, 1, 127, 128, 255, rnd.randrange(256)]) for _ in range(ln)]
        want = (py_bits if tobits else py_bytes)(xs, be)
        if v is None or st.dead:
            got = None
        else:
            got = ground(x, xs, v)
        if got is None:
            stuck += 1
            if ln > 30:
                with loops.sizes(ln + 2, 30):
                    got = ground_run(J, name, xs)
            else:
                got = ground_run(J, name, xs)
            if got is None:
                continue
        if got == 'panic':
            c.bad(name + ' is exact', f'it cannot convert {len(xs)} {"bytes" if tobits else "bits"}: {show_xs(xs)} panics', loc_of(fn))
            return
        g += 1
        got = [bool(b) for b in got] if tobits else list(got)
        if got != want:
            c.bad(name + ' is exact', f'{show_xs(xs)} ({len(xs)} long) is converted to {show_xs(got)}, not {show_xs(want)}', loc_of(fn))
            return
        for o in obls:
            if not obl_at(o, x, xs):
                c.bad(name + ' is exact', f"{o['kind']} on {show_xs(xs)}", o.get('at') or loc_of(fn))
                return
    c.count('ground instances', g)
    if not open_:
        c.ok(f'{name} is exact, {order} bit first, for every length', 'summary proved equal element by element' + ('' if tobits else ', full and incomplete groups'), loc_of(fn))
    else:
        c.und(f'{name} is exact', '; '.join(w + ' ' + '|'.join(show(l[1])[:120] for l in o) for w, o in open_)[:400], loc_of(fn))


def show_xs(xs):
    if xs and type(xs[0]) is bool:
        return '[' + ''.join('01'[b] for b in xs) + ']'
    return str(list(xs))


def norm_min(t, pc, r):
    """group length min(8, len - 8q) under the case assumption"""
    def fn(y):
        if y.op == 'min':
            a, b = y.args
            if Fx.decide(tuple(pc), le(a, b)) is True:
                return a
            if Fx.decide(tuple(pc), le(b, a)) is True:
                return b
        return None
    for _ in range(4):
        u = Fx.prune(rewrite(t, fn), tuple(pc))
        # a count fixed by an equality of the case
        u = rewrite(u, lambda y: I(r) if r < 8 and y.op == 'poly' and eqc(pc, y, r) else None)
        if u is t:
            break
        t = u
    return t


def eqc(pc, y, r):
    return Fx.decide(tuple(pc), eq0(sub(y, I(r)))) is True


def prove_obl(o):
    """the failure condition holds at each offset within a group"""
    pc = tuple(o['pc'])
    cond = rewrite(o['cond'], lambda y: band(ge0(y.args[0]), le(y.args[0], I((1 << Tm.WIDTH[y.args[1]]) - 1))) if y.op == 'fits' and y.args[1] in Tm.WIDTH else None)
    o = {'cond': cond}
    if not prove(pc, o['cond']):
        return True
    ks = [s for s in free_syms(o['cond']) if Fx.decide(pc, le(s, I(7))) is True]
    for k in ks:
        if all(not prove(tuple(subst(l, {k: I(j)}) for l in pc), subst(o['cond'], {k: I(j)})) for j in range(8)):
            return True
    return False


def free_syms(t):
    out, seen, todo = [], set(), [t]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'sym' and isnat(y):
            out.append(y)
        todo.extend(Tm._kids(y))
    return out


def obl_at(o, x, xs):
    """False when the failure condition is definitely violated at xs"""
    if len(xs) > 30:        # decided on short sequences; long ones compare the value only
        return True
    sb = {x: seq(*[el(B(b) if type(b) is bool else I(b)) for b in xs])}
    pc = [subst(l, sb) for l in o['pc']]
    cond = subst(o['cond'], sb)
    ks = sorted(set(sum((free_syms(l) for l in pc + [cond]), [])), key=lambda s: s.uid)
    if len(ks) > 2:
        return True
    import itertools
    e = Ev(1)
    for vals in itertools.product(range(0, len(xs) + 1), repeat=len(ks)):
        m = {k: I(j) for k, j in zip(ks, vals)}
        try:
            if all(e.ev(subst(l, m)) == 1 for l in pc) and e.ev(subst(cond, m)) == 0:
                return False
        except (Stuck, KeyError, TypeError, AttributeError, ZeroDivisionError):
            continue
    return True


def ground_run(J, name, xs):
    """abstract execution on a ground sequence: value, 'panic', None"""
    try:
        ip, st, v, fn = run(J, [name], seq(*[el(B(b) if type(b) is bool else I(b)) for b in xs]))
    except Unsupported:
        return None
    if st.dead:
        return 'panic'
    try:
        e = Ev(1)
        for o in ip.obls:
            if not free_syms(o['cond']) and e.ev(o['cond']) == 0:
                return 'panic'
        return e.ev(v)
    except (Stuck, KeyError, TypeError, AttributeError, ZeroDivisionError):
        return None


def hexes(c, J):
    fe, fd = find_fn(J, 'bytes2hex', free=True), find_fn(J, 'hex2bytes', free=True)
    x = sym('xs')
    try:
        ip, st, v, _ = run(J, ['bytes2hex', 'hex2bytes'], x)
    except Unsupported as u:
        v = sym('unknown: ' + str(u))
        st = St()
    name = 'hex2bytes(bytes2hex(b)) is b'
    if not st.dead and v is ok(x):
        c.ok(name, 'the decoder is applied to the unchanged encoding of the unchanged bytes', loc_of(fe))
        return
    ks = [k for k in literals(J, ('utils',), 5000)]
    for xs in [[0, 1, 255], [16, 7], [10], [], [171, 205, 239, 1], [0], [0, 0], list(range(256)), list(range(255, -1, -1))] + \
            [[(i * 37 + 11) % 256 for i in range(m)] for k in ks for m in (k + 1, k, k - 1, 2 * k, k // 2 + 1)]:
        try:
            ip, st, v, _ = run(J, ['bytes2hex', 'hex2bytes'], seq(*[el(I(b)) for b in xs]))
        except Unsupported as u:
            c.und(name, str(u), loc_of(fe))
            return
        if st.dead:
            c.bad(name, f'{xs} panics', loc_of(fe))
            return
        if v.op == 'adt' and v.args[1] == 'Err':
            c.bad(name, f'{xs} is not decoded again', loc_of(fd))
            return
        if v.op == 'adt' and v.args[1] == 'Ok':
            if contains(v.args[2], lambda t: t.op in ('hexenc', 'hexdec')):
                continue
            try:
                got = list(Ev(1).ev(v.args[2]))
            except (Stuck, TypeError, KeyError, AttributeError):
                continue
            if got != xs:
                c.bad(name, f'{xs} comes back as {got}', loc_of(fe))
                return
    c.und(name, show(v)[:200], loc_of(fe))


def hexerr(c, J):
    """text that is not an even number of hexadecimal digits is an error, any other is decoded"""
    fd = find_fn(J, 'hex2bytes', free=True)
    name = 'hex2bytes rejects whatever is not an even number of hex digits'
    x = sym('text')
    try:
        ip, st, v, _ = run(J, ['hex2bytes'], x)
        if not st.dead and v.op == 'hexdec' and v.args[0] is x:
            c.ok(name, 'the decoder is applied to the unchanged text', loc_of(fd))
            return
        why = show(v)[:200]
    except Unsupported as u:
        why = str(u)
    txt = ['', '0', 'f', 'abc', '0g', 'g0', 'zz', '0x10', ' 10', '10 ', ' 1', '1 0', '10\n', '-1', '+1', '1_0', 'AB', 'aB09', '00ff', 'F0', '000', '00a', 'abcde', '0X1f', '#fff', '1:2:']
    for k in literals(J, ('utils',), 5000):
        txt += ['ab' * k, 'ab' * k + 'c', 'ab' * (k // 2) + 'g0', 'a' * (k + 1), '0' * k + 'xy']
    for s in txt:
        hexok = len(s) % 2 == 0 and all(ch in '0123456789abcdefABCDEF' for ch in s)
        try:
            ip, st, v, _ = run(J, ['hex2bytes'], lit(s))
        except Unsupported as u:
            continue
        if st.dead:
            c.bad(name, f'{s[:60]!r} panics', loc_of(fd))
            return
        if v.op != 'adt':
            continue
        c.count('ground instances')
        if v.args[1] == 'Ok' and not hexok:
            c.bad(name, f'{s[:60]!r} is decoded', loc_of(fd))
            return
        if v.args[1] == 'Err' and hexok:
            c.bad(name, f'{s[:60]!r} is rejected', loc_of(fd))
            return
        if v.args[1] == 'Ok':
            try:
                got = list(Ev(1).ev(v.args[2]))
            except (Stuck, TypeError, KeyError, AttributeError):
                continue
            if got != list(bytes.fromhex(s)):
                c.bad(name, f'{s[:60]!r} is decoded as {got[:20]}', loc_of(fd))
                return
    c.und(name, why, loc_of(fd))


@check('C21')
def run21(c):
    J = c.J
    for nm, be, tb in (('bytes2bits_le', False, True), ('bytes2bits_be', True, True), ('bits2bytes_le', False, False), ('bits2bytes_be', True, False)):
        try:
            conv(c, J, nm, be, tb)
        except Missing as m:
            c.bad(nm, str(m))
    try:
        hexes(c, J)
        hexerr(c, J)
    except Missing as m:
        c.bad('hex', str(m))
    c.extra['explanation'] = 'Each conversion is summarised as a closed form of its argument sequence (of any length) and compared element by element with the definition; incomplete last groups are separate cases. An open comparison is decided at ground sequences.'


# ------------------------------------------------------------------ C22
def gcd_induct(c, J):
    """one unfolding of ext_gcd with the recursive call replaced by what the
    property promises for it"""
    fn = find_fn(J, 'ext_gcd', free=True)
    ip = Interp(J)
    a, b = sym('a'), sym('b')
    calls = []

    def rec(ip, st, f, args, ty):
        if f['id'] != fn['id']:
            return NotImplemented
        x, y = (ip.deref_val(st, v) for v in args)
        n = len(calls)
        s, t = sym(f'x{n}'), sym(f'y{n}')
        d = add(mul(x, s), mul(y, t))     # the promise
        calls.append((tuple(st.pc), x, y, d))
        return mk('adt', 'tuple', '', s, t, d)
    ip.on_recursion = rec
    st = St()
    v = ip.call_fn(st, fn, [ip.ref(ip.alloc(st, a)), ip.ref(ip.alloc(st, b))], {})
    st.force()
    return fn, ip, st, v, a, b, calls


def proj(v, i):
    if v.op == 'ite':
        return ite(v.args[0], proj(v.args[1], i), proj(v.args[2], i))
    if v.op == 'adt' and len(v.args) == 5:
        return v.args[2 + i]
    raise Unsupported('result ' + show(v)[:60])


class Loops(Exception):
    pass


def ground_gcd(J, a, b):
    ip = Interp(J)
    ip.inline_rec = True
    fn = find_fn(J, 'ext_gcd', free=True)
    st = St()
    seen = {}

    def hook(ip, st, f, args, ty):
        k = tuple(ip.deref_val(st, v) for v in args)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 40:          # the same call, over and over
            raise Loops()
        return NotImplemented
    ip.hooks[fn['id']] = hook
    v = ip.call_fn(st, fn, [ip.ref(ip.alloc(st, I(a))), ip.ref(ip.alloc(st, I(b)))], {})
    st.force()
    if st.dead or any(o['cond'] is FALSE for o in ip.obls):
        return 'panic'
    r = [isint(proj(v, i)) for i in range(3)]
    return None if None in r else r


@check('C22')
def run22(c):
    import math
    J = c.J
    try:
        fn = find_fn(J, 'ext_gcd', free=True)
    except Missing as m:
        c.bad('ext_gcd', str(m))
        return
    open_ = []
    try:
        fn, ip, st, v, a, b, calls = gcd_induct(c, J)
        if st.dead:
            open_.append('it does not return')
        else:
            x, y, d = (proj(v, i) for i in range(3))
            if prove(st.pc, eq0(sub(add(mul(a, x), mul(b, y)), d))):
                open_.append('a*x + b*y = d')
            for k, (pc, p, q, dk) in enumerate(calls):
                r = sub(a, mul(b, Tm.tdiv(a, b)))
                if equal(pc, p, b) or equal(pc, q, r):
                    open_.append(f'recursion on ({show(p)[:60]}, {show(q)[:60]}), not on (b, a rem b)')
                if Fx.decide(pc, eq0(b)) is not False:
                    open_.append('recursion with b = 0')
                if prove(pc, eq0(sub(d, dk))):
                    open_.append('d is the divisor found by the recursion')
                c.count('recursive calls')
            if len(calls) != 1:
                open_.append(f'{len(calls)} recursive calls')
            if prove(tuple(st.pc) + (eq0(b),), eq0(sub(d, a))):
                open_.append('gcd(a, 0) is a')
            for o in ip.obls:
                if prove(o['pc'], o['cond']):
                    open_.append(o['kind'])
    except Unsupported as u:
        open_.append(str(u))
    rnd = random.Random(c.seed)
    pairs = [(x, y) for x in range(-6, 7) for y in range(-6, 7)] if open_ or c.thorough else [(0, 0), (5, 0), (0, 7), (-6, 4), (12, 18), (111, 30)]
    pairs += [(240, 46), (17, 4096), (4096, 17), (1071, 462), (13, 1 << 20), (2 ** 31 - 1, 2 ** 32), (rnd.getrandbits(80), rnd.getrandbits(60)), (1 << 40, 1 << 36)]
    if open_:
        for k in (64, 128, 256, 512) + tuple(k for k in literals(J, ('utils',), 5000)):
            v = rnd.getrandbits(k) | 1 << k
            pairs += [(v, 1), (v, -1), (-v, -1), (1, v), (-v, 1), (-1, v), (v, v), (v, 2), (3 * v, v), (v, 3 * v), (v, v + 1), (v, 0), (5 * v, 3 * v), (-v, v), (v, -v), (rnd.getrandbits(k), v)]
            pairs += [(x, y) for x in (k - 1, k, k + 1, -k) for y in (1, k, 2 * k, 3, -k, -1)]
    n = 0
    for p, q in pairs:
        try:
            r = ground_gcd(J, p, q)
        except (Unsupported, RecursionError):
            r = None
        except Loops:
            r = 'loops'
        if r is None:
            continue
        n += 1
        what = None
        if r == 'panic':
            what = 'panics'
        elif r == 'loops':
            what = 'does not return: it calls itself with the same arguments again'
        elif p * r[0] + q * r[1] != r[2]:
            what = f'gives {r[0]}, {r[1]}, {r[2]}, but {p}*{r[0]} + {q}*{r[1]} = {p * r[0] + q * r[1]}'
        elif abs(r[2]) != math.gcd(p, q):
            what = f'gives the divisor {r[2]}, not {math.gcd(p, q)}'
        if what:
            c.bad('ext_gcd', f'ext_gcd({p}, {q}) {what}', loc_of(fn))
            return
    c.count('ground instances', n)
    if open_:
        c.und('ext_gcd', '; '.join(open_)[:400], loc_of(fn))
    else:
        c.ok('ext_gcd: a*x + b*y = d', 'polynomial identity, the recursive call replaced by its own promise', loc_of(fn))
        c.ok('ext_gcd: d is the greatest common divisor up to sign', 'gcd(a, 0) = a and the recursion is on (b, a - b*trunc(a/b)), which is smaller', loc_of(fn))
    c.extra['explanation'] = 'One unfolding of the recursion is summarised with the recursive call replaced by fresh x, y and d = b*x + r*y; the identity for a, b is then a polynomial identity.  Anything not recognised is decided on ground pairs.'
