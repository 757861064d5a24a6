"""C09, C10: the Bristol reader."""
import random
import time
from terms import *
import terms as Tm
import facts as Fx
import loops
import models
from models import lit, pystr
from interp import Unsupported, St
from core import check, loc_of
from build import Missing, find_fn
from circ import Conc
from c_circ import TR
from prove import equal, prove

RD = 'BristolReader'
COMM = ('xor', 'and', 'or', 'equivalent')
MAXLEN = I(2 ** 63 - 1)


def tok(n):
    return mk('tok', n if isinstance(n, T) else I(n))


def line(*ts):
    return mk('line', seq(*[el(lit(t) if isinstance(t, str) else t) for t in ts]))


def okl(l):
    return el(ok(l))


class Rd(Conc):
    """a reader, an abstract circuit and a text"""

    def __init__(self, J, log=None, fail=None):
        super().__init__(J)
        self.ip.trait_model = self.trait
        self.ccell = self.ip.alloc(self.st, log or mk('adt', 'Log', '', ZERO, ZERO, seq()))
        self.fail = fail
        self.nop = 0
        d = [d for d in self.ip.adts if d.split('::')[-1] == RD]
        if not d:
            raise Missing(RD)
        self.rd = d[0]
        self.rfs = self.ip.adts[self.rd]['vs'][0]['fs']

    def trait(self, ip, st, tr, name, args, selfty, e):
        if tr.split('::')[-1] != TR:
            if tr.split('::')[-1] == 'BufRead' or tr.startswith('std::io'):
                return NotImplemented
            return NotImplemented
        r = args[0]
        for _ in range(4):
            v = ip.readref(st, r)
            if v.op == 'adt' and v.args[0] == 'Log':
                break
            if v.op not in ('ref', 'rc', 'adt'):
                raise Unsupported('circuit ' + show(v)[:60])
            r = v if v.op == 'ref' else ip.ref(getfield(v, '', 0, '0').args[0])
        nin, ng, outs = v.args[2:5]
        vals = [ip.deref_val(st, a) for a in args[1:]]

        def put(*a):
            ip.writeref(st, r, mk('adt', 'Log', '', *a))
        self.nop += 1
        if self.fail is not None and name in ('input', 'output', 'constant', 'not', 'xor', 'and', 'or', 'equivalent', 'identity') and self.nop == self.fail:
            return err(mk('opfail', name))
        if name == 'input':
            st.assume(lt(nin, MAXLEN))
            put(add(nin, ONE), ng, outs)
            return ok(self.gid(mk('rin', nin)))
        if name == 'output':
            n = seq_len(outs)
            put(nin, ng, seq_cat(outs, seq(el(self.num(vals[0])))))
            return ok(self.wid(add(nin, n)))
        if name == 'constant':
            put(nin, add(ng, ONE), outs)
            return ok(self.gid(mk('kconst', vals[0])))
        if name in ('not', 'identity', 'xor', 'and', 'or', 'equivalent'):
            put(nin, add(ng, ONE), outs)
            return ok(self.gid(opterm(name, *[self.num(x) for x in vals])))
        if name == 'input_len':
            return nin
        if name == 'output_len':
            return seq_len(outs)
        if name == 'num_gate':
            return ng
        raise Unsupported('circuit operation ' + name)

    def guard_obls(self):
        """a circuit never holds more than isize::MAX inputs"""
        orig = self.ip.obl

        def obl(kind, st, cond, sp, info=None):
            if not self.ip.quiet and not st.dead and cond is not TRUE:
                s = st.copy()
                s.assume(le(self.ip.readcell(st, self.ccell).args[2], MAXLEN))
                return orig(kind, s, cond, sp, info)
        self.ip.obl = obl
        self.ip.cap = True

    def num(self, g):
        return getfield(g, 'GateId', 0, '0')

    def reader(self, st, over=None):
        """a reader in an arbitrary state (or with given fields)"""
        fs = []
        for f in self.rfs:
            n, t = f[0], f[1]
            if t.get('d', '').endswith('PhantomData'):
                fs.append(mk('adt', 'core::marker::PhantomData', 'PhantomData'))
            else:
                fs.append((over or {}).get(n) or fresh('r.' + n, t.get('k') == 'int'))
        return self.ip.alloc(st, mk('adt', self.rd, RD, *fs))

    def new(self, st):
        return self.ip.alloc(st, self.call(st, find_fn(self.J, 'new', RD)))

    def read(self, st, rcell, lines):
        fn = find_fn(self.J, 'read', RD)
        text = mk('adt', 'Rdr', '', lines)
        args = []
        for p in fn['params']:
            t = p['ty'] if 'ty' in p else p['pat']['t']
            args.append(t)
        names = [RD, 'BoolCircuitRef']
        out = []
        for t in args:
            s = self.ip.stripref(t)
            d = s.get('d', '').split('::')[-1]
            if d == RD:
                out.append(self.ip.ref(rcell))
            elif d == 'BoolCircuitRef':
                out.append(self.refto(st, self.cref(self.ccell)))
            else:
                out.append(text if t.get('k') != 'ref' else self.refto(st, text))
        return fn, self.call(st, fn, *out)

    def log(self, st):
        return self.ip.readcell(st, self.ccell).args[2:5]


def opterm(name, *xs):
    if name in COMM:
        xs = sorted(xs, key=lambda t: t.uid)
    return mk('g' + name, *xs)


# ------------------------------------------------------------- ground texts
def oracle(text):
    """(inputs, gates, outputs) a well-formed text describes"""
    ls = text.split('\n')
    nw = int(ls[0].split()[1])
    a = ls[1].split()
    nin = sum(int(x) for x in a[1:1 + int(a[0])])
    a = ls[2].split()
    no = sum(int(x) for x in a[1:1 + int(a[0])])
    w = {i: mk('rin', I(i)) for i in range(nin)}
    ng = 0
    OP = {'INV': 'not', 'EQW': 'identity', 'XOR': 'xor', 'AND': 'and', 'OR': 'or'}
    for l in ls[4:]:
        t = l.split()
        if not t:
            break
        i = int(t[0])
        op, ins, o = t[-1], t[2:2 + i], int(t[2 + i])
        w[o] = mk('kconst', B(ins[0] == '1')) if op == 'EQ' else opterm(OP[op], *[w[int(x)] for x in ins])
        ng += 1
    return nin, ng, [w[i] for i in range(nw - no, nw)]


def random_text(rng, style=0):
    groups = [rng.choice((1, 1, 2, 3, 0)) for _ in range(rng.choice((1, 2, 2, 3)))]
    n = sum(groups)
    if style & 8:
        groups[rng.randrange(len(groups))] = rng.choice((9, 16, 32, 33, 48, 64, 70, 100))
        n = sum(groups)
    if n == 0:
        groups[0] = n = 1
    lines = []
    for _ in range(rng.choice((3, 4, 6, 9, 14))):
        op = rng.choice(('XOR', 'AND', 'OR', 'INV', 'EQW', 'EQ', 'XOR', 'AND'))
        o = n + len(lines)
        if op == 'EQ':
            lines.append(['1', '1', rng.choice('01'), o, op])
        elif op in ('INV', 'EQW'):
            lines.append([1, 1, rng.randrange(o), o, op])
        else:
            lines.append([2, 1, rng.randrange(o), rng.randrange(o), o, op])
    nw = n + len(lines)
    tot = rng.randrange(0, min(5, nw) + 1)
    outs = []
    while tot > 0:
        k = rng.randrange(1, tot + 1)
        outs.append(k)
        tot -= k
    outs = outs or [0]
    # gate lines may appear in any order that defines wires before use, and
    # wires need not be numbered in line order
    perm = list(range(nw))
    if style & 1:
        tail = perm[n:]
        rng.shuffle(tail)
        perm[n:] = tail
    for l in lines:
        for j in range(2, len(l) - 1):
            if not (l[-1] == 'EQ' and j == 2):
                l[j] = perm[l[j]]
    sep = ' '
    rows = [[len(lines), nw], [len(groups)] + groups, [len(outs)] + outs, []] + lines
    out = []
    for r in rows:
        if style & 2:
            out.append(''.join(str(x) + rng.choice((' ', '  ', ' ', '\t')) for x in r))
        else:
            out.append(sep.join(map(str, r)))
    if style & 2:
        out[3] = ''
    if style & 4:
        out.append('')
    return '\n'.join(out)


CURATED = [
    '1 3\n2 1 1\n1 1\n\n2 1 0 1 2 AND',
    '0 2\n1 2\n1 2\n\n',
    '3 5\n1 2\n2 1 2\n\n2 1 0 1 2 XOR\n2 1 0 2 3 OR\n1 1 3 4 INV',
    '4 6\n2 1 1\n1 3\n\n1 1 1 2 EQ\n1 1 0 3 EQ\n1 1 0 4 EQW\n2 1 2 4 5 XOR',
    '3 6\n3 1 1 1\n1 2\n\n2 1 2 0 3 AND\n2 1 3 1 5 XOR\n2 1 5 3 4 OR\n',
    '2 4\n2 2 0\n1 1\n\n2 1 1 1 2 XOR\n1 1 2 3 INV\n\n',
]


def sized_texts(k):
    """texts with something of a size around k"""
    def text(groups, outs, lines):
        nw = sum(groups) + len(lines)
        return '\n'.join([f'{len(lines)} {nw}', ' '.join(map(str, [len(groups)] + groups)), ' '.join(map(str, [len(outs)] + outs)), ''] + lines)
    for n in (k + 2, k - 1, k, k + 1) if k <= 200 else (k + 2, k):
        if n > 3:
            ends = [0, 1, n // 2, n - 3, n - 2, n - 1]
            use = [f'2 1 {a} {b} {n + i} {o}' for i, (a, b, o) in enumerate(zip(ends, ends[1:] + ends[:1], ('XOR', 'AND', 'OR') * 2))]
            yield text([n], [6], use)
            yield text([n, 2, n], [2, 1], [f'2 1 {n - 1} {2 * n + 1} {2 * n + 2} XOR', f'2 1 {n} {2 * n} {2 * n + 3} AND', f'1 1 {n + 1} {2 * n + 4} INV'])
            if n <= 1200:
                yield text([1] * n, [1] * n, [f'2 1 {i} {(i + 1) % n} {n + i} XOR' for i in range(n)])
                yield text([2] + [1] * n, [1], [f'2 1 {n} {n + 1} {n + 2} AND'])
                yield text([1] * 2, [1] * n, [f'2 1 {i} {i + 1} {i + 2} ' + ('XOR', 'OR')[i % 2] for i in range(n)])
            if n <= 5000:
                yield text([1, 1], [3], [f'2 1 {i} {i + 1} {i + 2} ' + ('XOR', 'AND')[i % 2] for i in range(n)])
                yield text([1, 1], [3], [f'2 1 {i % 3} {i + 1} {i + 2} ' + ('XOR', 'OR')[i % 2] for i in range(n)])


def ground_read(c, J, texts):
    """read the texts one after the other with one reader; None or what is
    definitely wrong"""
    W = Rd(J)
    W.ip.inline_rec = True
    st = W.st.copy()
    rc = W.new(st)
    for k, text in enumerate(texts):
        W.ip.writeref(st, W.ip.ref(W.ccell), mk('adt', 'Log', '', ZERO, ZERO, seq()))
        ls = text.split('\n')
        if ls and ls[-1] == '':
            ls.pop()
        fn, v = W.read(st, rc, seq(*[okl(lit(l)) for l in ls]))
        c.count('texts instantiated')
        what = f'text {text!r}' + (f' read with a reader that has read {texts[k - 1]!r}' if k else '')
        if st.dead:
            return f'panics on {what}'
        v = Fx.prune(v, ())
        if isvar(v, 'Err') is TRUE:
            return f'returns the error {show(v.args[2])[:80]} on {what}'
        if isvar(v, 'Ok') is not TRUE:
            return None
        nin, ng, outs = W.log(st)
        x, y, z = oracle(text)
        if isint(nin) is None or isint(ng) is None or outs.op != 'seq' or any(g.op != 'el' for g in outs.args):
            return None
        if isint(nin) != x:
            return f'adds {show(nin)} inputs instead of {x} on {what}'
        if isint(ng) != y:
            return f'adds {show(ng)} gates instead of {y} on {what}'
        if len(outs.args) != len(z):
            return f'adds {len(outs.args)} outputs instead of {len(z)} on {what}'
        for i, (a, b) in enumerate(zip(outs.args, z)):
            if a.args[0] is not b and not free_syms(a.args[0]):
                return f'output {i} is {show(a.args[0])[:80]} instead of {show(b)[:80]} on {what}'
    return None


MALFORMED = ['1 4\n1 2\n1 1\n\n2 1 0 2 3 AND', '0 4\n1 2\n1 1\n\n', '1 5\n1 2\n1 1\n\n1 1 4 3 INV', '1 3\n1 2\n1 1\n\n2 1 0 1 2 NAND', '1 3\n1 2\n1 1\n\n2 1 3 1 2 OR']


def reuse_read(c, J, first, second):
    """does a reader that has read another text judge a text like a fresh one"""
    out = []
    for texts in ([second], [first, second]):
        W = Rd(J)
        W.ip.inline_rec = True
        st = W.st.copy()
        rc = W.new(st)
        for text in texts:
            W.ip.writeref(st, W.ip.ref(W.ccell), mk('adt', 'Log', '', ZERO, ZERO, seq()))
            ls = text.split('\n')
            if ls and ls[-1] == '':
                ls.pop()
            fn, v = W.read(st, rc, seq(*[okl(lit(l)) for l in ls]))
            c.count('texts instantiated')
            if st.dead:
                return None
            v = Fx.prune(v, ())
        out.append('an error' if isvar(v, 'Err') is TRUE else 'success' if isvar(v, 'Ok') is TRUE else None)
    if None not in out and out[0] != out[1]:
        return f'returns {out[1]} on text {second!r} read with a reader that has read {first!r}, and {out[0]} with a fresh reader'
    return None


def refute10(c):
    for a in CURATED[:4]:
        for b in MALFORMED:
            try:
                w = reuse_read(c, c.J, a, b)
            except (Unsupported, Missing):
                continue
            if w:
                return w
    rng = random.Random(c.seed * 7 + 1)
    import c_eval
    t0 = time.time()
    for k in [k for k in c_eval.literals(c.J, ('bristol',), 70000) if k > 4][:6]:
        for t in sized_texts(k):
            if time.time() - t0 > 250:
                break
            try:
                with loops.sizes(max(700, min(len(t.split('\n')) + 80, 6000)), 60):
                    w = ground_read(c, c.J, [t])
            except (Unsupported, Missing):
                continue
            if w:
                return w if len(w) < 900 else w[:400] + ' ... ' + w[-400:]
    runs = [[t] for t in CURATED] + [[CURATED[4], CURATED[2]], [CURATED[2], CURATED[1]], [CURATED[3], CURATED[0]]]
    for s in range(16):
        runs += [[random_text(rng, s)] for _ in range(6)]
        runs.append([random_text(rng, s), random_text(rng, s)])
    why = None
    for r in runs:
        try:
            w = ground_read(c, c.J, r)
        except (Unsupported, Missing) as x:
            why = why or str(x)
            continue
        if w:
            return w
    if why:
        c.und('ground texts', why)
    return None


# ---------------------------------------------------------- inductive reading
def iters(ip, st, ls):
    """cells and paths of iterators over the lines"""
    out = []

    def go(cid, v, path):
        if v.op == 'adt':
            if v.args[0] == 'It' and v.args[1] == 'seq' and v.args[2] is ls:
                out.append((cid, path, v.args[3]))
                return
            for i, x in enumerate(v.args[2:]):
                if isinstance(x, T):
                    go(cid, x, path + (i,))
    for cid, v in st.cells.items():
        go(cid, v, ())
    return out


class Split:
    """run_loop hook: treats the loop over the gate lines by one arbitrary
    iteration.  phase 'step': returns the step; phase 'tail': continues after
    the loop from an arbitrary state."""

    def __init__(self, W, ls, nhead):
        self.W, self.ls, self.nhead = W, ls, nhead
        self.orig = W.ip.run_loop
        self.head = self.step = None
        self.found = False
        self.map = None
        self.busy = False

    def run_loop(self, st, body, fr, sp=None):
        if self.found or self.busy:
            return self.orig(st, body, fr, sp)
        st.force()
        its = iters(self.W.ip, st, self.ls)
        if not any(isint(i[2]) == self.nhead for i in its):
            return self.orig(st, body, fr, sp)
        L = loops.Loop(self.W.ip, st.copy(), body, fr, sp)
        base = st.copy()
        self.busy = True
        n = self.W.nop
        try:
            backs, brk, rets = L.once(base.copy(), True)
        finally:
            self.busy = False
        its = [i for i in its if isint(i[2]) == self.nhead]
        mv = None
        for s, v in backs:
            s.force()
            at = {i[:2]: isint(i[2]) for i in iters(self.W.ip, s, self.ls)}
            m = [i for i in its if at.get(i[:2]) == self.nhead + 1]
            mv = m if mv is None or m == mv else []
        its = mv or []
        adv = [s for s, v in backs]
        if len(its) != 1:
            return self.orig(st, body, fr, sp)
        self.found = True
        self.sp = sp
        self.head = base.copy()
        # havoc what an iteration changes
        gen = base.copy()
        self.leaves = []
        seen = set()
        for cid, a in base.cells.items():
            paths = set()
            for s in adv:
                s.force()
                b = s.cells.get(cid)
                if b is not None and b is not a:
                    paths |= set(loops.diff(a, b))
            for p in sorted(paths):
                par = [loops.leaf_get(a, p[:i]) for i in range(len(p))]
                if any(x.op == 'adt' and x.args[0] == 'It' for x in par):
                    continue
                x = loops.leaf_get(a, p)
                y = loops.leaf_get(adv[0].cells[cid], p)
                if x.op in ('emap', 'mset', 'mcomp') or y.op == 'mset':
                    kind, v = 'map', sym('M')
                elif cid == self.W.ccell:
                    kind = 'log%d' % p[0]
                    v = sym('nin', True) if p[0] == 0 else sym('ng', True) if p[0] == 1 else sym('outs')
                elif x.op == 'poly' or Tm.isnat(x) or isint(x) is not None:
                    kind, v = 'count', fresh('cnt', True)
                else:
                    raise Unsupported('the gate-line loop carries ' + show(x)[:60])
                self.leaves.append((cid, p, kind))
                gen.cells[cid] = loops.leaf_set(gen.cells[cid], p, v)
        if sum(k == 'map' for _, _, k in self.leaves) != 1:
            raise Unsupported('the gate-line loop does not keep one wire map')
        self.gen = gen
        s = gen.copy()
        backs, brk, rets = L.once(s, False)
        self.step = (backs, brk, rets)
        # leave the loop from an arbitrary state with the lines used up
        t = gen.copy()
        (cid, path, _), = its
        t.cells[cid] = loops.leaf_set(t.cells[cid], path, models.it_seq(seq()))
        for cid, p, k in self.leaves:
            if k == 'map' and self.map is not None:
                t.cells[cid] = loops.leaf_set(t.cells[cid], p, self.map)
        self.busy = True
        try:
            b2, brk, rets = L.once(t, False)
        finally:
            self.busy = False
        if b2:
            raise Unsupported('the gate-line loop goes on after the last line')
        self.exits = (brk, rets)
        fr.rets.extend(rets)
        if not brk:
            st.dead = True
            return UNDEF
        e, v = self.W.ip.fold(brk, base.pc) if len(brk) > 1 else brk[0]
        st.become(e.force())
        return v

    def leaf(self, s, kind):
        for cid, p, k in self.leaves:
            if k == kind:
                return loops.leaf_get(s.cells[cid], p)
        return None


SHAPES = [('XOR', 2, 'xor'), ('AND', 2, 'and'), ('OR', 2, 'or'), ('INV', 1, 'not'), ('EQW', 1, 'identity'), ('EQ', 0, 'const0'), ('EQ', 1, 'const1')]


def inductive(c, J, groups, ogroups, shape):
    """one run of `read` over: a header with the given numbers of groups (any
    widths), any number of gate lines, one of which is `shape`"""
    W = Rd(J)
    st = W.st.copy()
    name, ar, op = shape
    bits = [sym('b%d' % i, True) for i in range(groups)]
    obits = [sym('o%d' % i, True) for i in range(ogroups)]
    NW, NG = sym('NW', True), sym('NG', True)
    total, ototal = add(ZERO, *bits), add(ZERO, *obits)
    st.assume(le(ototal, NW))
    st.assume(le(total, NW))
    st.assume(lt(NW, MAXLEN))
    a, b, o = sym('wa', True), sym('wb', True), sym('wo', True)
    if op.startswith('const'):
        gl = line(tok(1), tok(1), op[-1], tok(o), name)
    elif ar == 1:
        gl = line(tok(1), tok(1), tok(a), tok(o), name)
    else:
        gl = line(tok(2), tok(1), tok(a), tok(b), tok(o), name)
    ls = seq(okl(line(tok(NG), tok(NW))), okl(line(tok(groups), *[tok(x) for x in bits])), okl(line(tok(ogroups), *[tok(x) for x in obits])), okl(lit('')), okl(gl))
    sp = Split(W, ls, 4)
    i = fresh('i', True)
    sp.map = Tm.mcomp(EMAP, NW, i, i, some(W.gid(mk('wire', i))))
    W.ip.run_loop = sp.run_loop
    rc = W.reader(st)
    base = st.pc
    fn, v = W.read(st, rc, ls)
    probs = []
    if not sp.found:
        return fn, ['the loop over the gate lines was not isolated'], W

    def same(what, pc, x, y):
        if x is not y:
            lv = equal(tuple(pc), x, y)
            if lv:
                probs.append(f'{what}: {show(x)[:120]} is not {show(y)[:120]}')
    # header
    h = sp.head
    q = fresh('q', True)
    nin, ng, outs = h.cells[W.ccell].args[2:5]
    same('inputs after the header', h.pc, nin, total)
    same('gates after the header', h.pc, ng, ZERO)
    same('outputs after the header', h.pc, outs, seq())
    M0 = sp.leaf(h, 'map')
    g0 = mget(M0, q)
    for pc, want in (((lt(q, total),), some(W.gid(mk('rin', q)))), ((le(total, q),), NONE)):
        same('wire map after the header', tuple(h.pc) + pc, mget(M0, q, lambda x: Fx.decide(tuple(h.pc) + pc, x)), want)
    # step
    M = sym('M')
    defined = [isvar(mget(M, x), 'Some') for x in ((a, b) if ar == 2 else (a,) if not op.startswith('const') else ())]
    backs, brk, rets = sp.step
    for s, _ in list(brk) + list(rets):
        s.force()
        lv = prove(tuple(s.pc) + tuple(defined), FALSE)
        if lv:
            probs.append('a well-formed line may end the reading: ' + show(band(*s.pc[len(sp.gen.pc):]))[:120])
    g = lambda x: getfield(getfield(mget(M, x), 'Some', 0, '0'), 'GateId', 0, '0')
    new = {'xor': lambda: opterm('xor', g(a), g(b)), 'and': lambda: opterm('and', g(a), g(b)), 'or': lambda: opterm('or', g(a), g(b)),
           'not': lambda: opterm('not', g(a)), 'identity': lambda: opterm('identity', g(a)),
           'const0': lambda: mk('kconst', FALSE), 'const1': lambda: mk('kconst', TRUE)}[op]()
    for s, _ in backs:
        s.force()
        pc = tuple(s.pc) + tuple(defined)
        if not prove(pc, FALSE):
            continue
        m2 = sp.leaf(s, 'map')
        same('wire map after a line', pc, mget(m2, q), ite(mkeq(q, o), some(W.gid(new)), mget(M, q)))
        n2 = s.cells[W.ccell].args[2:5]
        n1 = sp.gen.cells[W.ccell].args[2:5]
        same('inputs after a line', pc, n2[0], n1[0])
        same('gates after a line', pc, n2[1], add(n1[1], ONE))
        same('outputs after a line', pc, n2[2], n1[2])
    # tail
    if st.dead:
        probs.append('the reading never returns')
        return fn, probs, W
    lv = prove(tuple(st.pc), isvar(v, 'Ok'))
    if lv:
        probs.append('result may be an error: ' + show(lv[0][1])[:120])
    e = sp.gen.cells[W.ccell].args[2:5]
    f = W.log(st)
    j = fresh('j', True)
    same('inputs at the end', st.pc, f[0], e[0])
    same('gates at the end', st.pc, f[1], e[1])
    o0 = e[2] if e[2].op == 'seq' else seq(e[2])
    pcj = tuple(st.pc) + (lt(j, ototal),)
    same('number of outputs', st.pc, seq_len(f[2]), add(seq_len(e[2]), ototal))
    same('outputs', pcj, seq_at(f[2], add(seq_len(e[2]), j), lambda x: Fx.decide(pcj, x)), mk('wire', add(sub(NW, ototal), j)))
    return fn, probs, W


@check('C10')
def c10(c):
    c.extra['explanation'] = ('`read` is interpreted over an arbitrary circuit type and an arbitrary previous reader state. The header is read with symbolic widths; the loop over the gate lines is cut: '
                              'one iteration from an arbitrary wire map for every kind of line, and the code after the loop from an arbitrary complete wire map. Ground texts confirm a violation.')
    J = c.J
    open_ = []
    fn = None
    runs = [(2, 1, s) for s in SHAPES] + [(g, o, SHAPES[0] if g else SHAPES[6]) for g in (0, 1, 3) for o in (0, 1, 2, 3)] + [(2, 2, SHAPES[0])]
    for g, o, s in runs:
        key = f'{g} input groups, {o} output groups, line {s[0]}{"" if s[0] != "EQ" else " " + s[2][-1]}'
        try:
            fn, probs, W = inductive(c, J, g, o, s)
        except Missing as x:
            c.bad('reader', f'public operation {x} is missing')
            return
        except Unsupported as x:
            probs = ['not summarised: ' + str(x)]
        c.count('symbolic texts')
        if probs:
            open_.append((key, probs))
        else:
            c.ok(key, 'header, arbitrary line and outputs as described', loc_of(fn))
    c.assumptions.append('headers with up to 3 input and 3 output groups; every width, wire number and number of gate lines; fewer than 2^63 wires')
    import c_eval
    if open_ or any(k > 4 for k in c_eval.literals(c.J, ('bristol',), 70000)):
        try:
            w = refute10(c)
        except Missing as x:
            c.bad('reader', f'public operation {x} is missing')
            return
        if w:
            c.bad('reader', w, loc_of(fn) if fn else None)
        for k, p in open_:
            c.und(k, '; '.join(p), loc_of(fn) if fn else None)


# ---------------------------------------------------------------------- C09
def text_cases(pc, goal):
    """open leaves after splitting on which literal each text is"""
    lv = prove(pc, goal)
    if not lv:
        return lv
    eqs = {}

    def walk(t):
        if t.op == 'eq':
            for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                if pystr(y) is not None and pystr(x) is None:
                    eqs.setdefault(x, {})[y] = t
    for t in list(pc) + [goal]:
        for x in subterms(t, set()):
            walk(x)
    out = [(tuple(pc), goal)]
    for x, m in sorted(eqs.items(), key=lambda kv: -len(kv[1]))[:2]:
        nxt = []
        for p, g in out:
            for pick in list(m) + [None]:
                env = {t: B(y is pick) for y, t in m.items()}
                f = lambda t: env.get(t)
                p2 = []
                for l in p:
                    l = rewrite(l, f)
                    p2 += list(l.args) if l.op == 'and' else [l]
                if FALSE in p2:
                    continue
                nxt.append((tuple(l for l in p2 if l is not TRUE), rewrite(g, f)))
        out = nxt
    res = []
    for p, g in out:
        res += prove(p, g)
    return res


BADTOK = ['x', '\u00e9', '\u2192\u2192', '-1', '', '18446744073709551615', '18446744073709551616', '3', '0', '1', '99', 'XOR', '+2', '0x1', '1.5']
CURATED9 = [
    '', '\n', '1\n', '1 2\n', '1 2\n1 1\n', '1 2\n1 1\n1 1\n', '\n\n\n\n', '1 0\n1 1\n1 1\n\n', '1 0\n1 0\n1 1\n\n', '0 1\n1 0\n1 1\n\n', '0 5\n1 1\n1 2\n\n',
    '0 18446744073709551615\n0\n2 18446744073709551615 1\n\n', '0 1\n3 1\n1 1\n\n', '0 1\n1 1\n4 1\n\n', '0 1\n0\n0\n\n0 0 XOR', '0 1\n0\n0\n\n0 1 3 EQ', '0 1\n0\n0\n\n1 0 0 EQ',
    '0 1\n0\n0\n\n18446744073709551615 18446744073709551615 0 EQ', '0 1\n0\n0\n\n1', '0 1\n0\n0\n\n1 1', '0 1\n0\n0\n\n ', '0 1\n0\n18446744073709551615 1\n\n', '0 1\n18446744073709551615 1\n1 1\n\n', '1 2\n1 1\n1 1\n\n\u00e9', '1 2\n1 1\n1 1\n\n\u2192 1 1', '\u00e9', '1 2\n\u00e9', '1 2\n1 1\n\u2192',
    '1 2\n1 1\n1 1\n\n1 1 0 1 \u00e9', '1 2\n1 1\n1 1\n\n1 1 0 1 INV \u2192',
]
for g in ('XOR', 'AND', 'OR', 'INV', 'EQW', 'EQ', 'MAND', 'xor'):
    for l in ('0 1 2 %s', '1 1 0 2 %s', '2 0 0 0 %s', '1 0 0 %s', '0 0 %s', '2 1 0 0 2 %s', '3 1 0 0 0 2 %s', '2 1 0 7 2 %s', '1 1 7 2 %s', '2 1 0 0 %s', '18446744073709551615 1 0 2 %s', '1 18446744073709551615 0 2 %s', '2 2 0 0 1 2 %s'):
        CURATED9.append('1 2\n1 1\n1 1\n\n' + l % g)


def malformed(rng):
    rows = [r.split(' ') for r in random_text(rng, 0).split('\n')]
    bad = set()
    for _ in range(rng.choice((1, 1, 1, 2))):
        i = rng.randrange(len(rows))
        r = rows[i]
        k = rng.randrange(9)
        if k == 0 and r:
            del r[rng.randrange(len(r))]
        elif k == 1 and r:
            r[rng.randrange(len(r))] = rng.choice(BADTOK)
        elif k == 2:
            del rows[i]
        elif k == 3:
            rows.insert(i, list(rng.choice(rows)))
        elif k == 4:
            del rows[i:]
        elif k == 5:
            bad.add(i)
        elif k == 6:
            r.insert(rng.randrange(len(r) + 1), rng.choice(BADTOK))
        elif k == 7 and r:
            j = rng.randrange(len(r))
            if r[j].isdigit():
                r[j] = str(max(0, int(r[j]) + rng.choice((-1, 1, 2))))
        elif k == 8 and len(r) > 1:
            r.pop()
        if not rows:
            break
    return [' '.join(r) for r in rows], bad


def ground_panic(c, J, ls, bad=()):
    W = Rd(J)
    W.ip.inline_rec = True
    W.ip.cap = True
    st = W.st.copy()
    rc = W.new(st)
    n0 = len(W.ip.obls)
    fn, v = W.read(st, rc, seq(*[el(err(mk('ioerr'))) if i in bad else okl(lit(l)) for i, l in enumerate(ls)]))
    c.count('texts instantiated')
    for o in W.ip.obls[n0:]:
        if o['cond'] is FALSE and all(p is TRUE for p in o['pc']):
            t = '\n'.join(ls)
            return f'panics ({o["kind"]}) at {o["sp"]} on the text {t!r}' + (f' with an unreadable line {sorted(bad)}' if bad else '')
    return None


def refute9(c):
    rng = random.Random(c.seed * 13 + 5)
    runs = [(t.split('\n')[:-1] if t.endswith('\n') else t.split('\n'), ()) for t in CURATED9]
    runs += [(CURATED[2].split('\n'), (i,)) for i in range(6)]
    runs += [malformed(rng) for _ in range(400 if c.thorough else 150)]
    for ls, bad in runs:
        try:
            w = ground_panic(c, c.J, ls, bad)
        except Unsupported:
            continue
        if w:
            return w
    return None


@check('C09')
def c09(c):
    c.extra['explanation'] = ('`read` is interpreted over arbitrary lines (every line readable or not, any number of words, every word a number or not), an arbitrary previous reader state and an arbitrary '
                              'circuit type; the gate-line loop by one iteration from an arbitrary wire map. Every index, slice, unwrap, arithmetic and capacity obligation on every path must follow from the path condition.')
    W = Rd(c.J)
    W.guard_obls()
    st = W.st.copy()
    ls = sym('LINES')
    sp = Split(W, ls, 4)
    W.ip.run_loop = sp.run_loop
    open_ = []
    fn = None
    try:
        fn = find_fn(c.J, 'read', RD)
        rc = W.reader(st)
        fn, v = W.read(st, rc, ls)
        if not sp.found:
            open_.append(('gate-line loop', 'the loop over the gate lines was not isolated'))
        for o in W.ip.obls:
            c.count('panic obligations')
            name = f'{o["kind"]} at {o["sp"]}'
            lv = text_cases(tuple(o['pc']), o['cond'])
            if lv:
                open_.append((name, 'not implied by the path: ' + show(lv[0][1])[:200]))
            else:
                c.ok(name, 'follows from the path condition', o['sp'])
        c.count('functions inlined', len(W.ip.visited))
    except Missing as x:
        c.bad('reader', f'public operation {x} is missing')
        return
    except Unsupported as x:
        open_.append(('summary', str(x)))
    c.assumptions.append('a circuit never holds more than isize::MAX inputs; memory exhaustion is not modelled; circuit operations of the supplied circuit type do not panic themselves')
    if open_:
        w = refute9(c)
        if w:
            c.bad('reader', w, loc_of(fn) if fn else None)
        for k, p in open_:
            c.und(k, p, loc_of(fn) if fn else None)
