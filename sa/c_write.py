"""C12, C13: the Bristol writer."""
import random
import time
from terms import *
import terms as Tm
import facts as Fx
import models
import loops
from models import lit, pystr
from interp import Unsupported, St
from core import check, loc_of
from build import Missing, find_fn
from circ import Conc
from c_circ import Hist, TR, find, random_walk
import c_eval
from prove import equal, prove

WR = 'BristolNXAOWriter'


class Sink:
    """the byte sink below the writer: a heap cell with the written text, the
    text handed on by a flush, and the number of io calls so far"""

    def __init__(self, ip, st, fail=None, short=None):
        self.ip, self.fail, self.short = ip, fail, short
        self.partial = set()          # calls that may take a part of the bytes only
        self.cell = ip.alloc(st, mk('adt', 'Io', '', mk('str'), mk('str'), ZERO))
        ip.writer_hook = self.hook

    def hook(self, c, r, w, v):
        st = c.st
        old, done, n = self.ip.readcell(st, self.cell).args[2:]
        k = isint(n)
        n = add(n, ONE)
        if self.fail is not None and k == self.fail:
            st.cells[self.cell] = mk('adt', 'Io', '', old, done, n)
            return err(mk('ioerr'))
        part = getattr(c, 'partial', None)
        if part is not None and len(part) > 1:
            self.partial.add(k)
            if self.short is not None and k == self.short:
                half = part.encode()[:len(part.encode()) // 2].decode(errors='ignore')
                st.cells[self.cell] = mk('adt', 'Io', '', strcat(mk('str'), old, lit(half)), done, n)
                return ok(I(len(half.encode())))
        if v is None:
            st.cells[self.cell] = mk('adt', 'Io', '', old, old, n)
        else:
            st.cells[self.cell] = mk('adt', 'Io', '', strcat(mk('str'), old, models.astext(v)), done, n)
        return ok(UNIT)

    def text(self, st):
        return pystr(self.ip.readcell(st, self.cell).args[2])

    def flushed(self, st):
        return pystr(self.ip.readcell(st, self.cell).args[3])

    def calls(self, st):
        return isint(self.ip.readcell(st, self.cell).args[4])


def new_writer(W, st, cref, sink=None):
    fn = find_fn(W.J, 'new', WR)
    out = []
    for p in fn['params']:
        s = W.ip.stripref(p['ty'] if 'ty' in p else p['pat']['t'])
        d = s.get('d', '').split('::')[-1]
        out.append(cref if d == 'BoolCircuitRef' else mk('adt', 'Sink', ''))
    return W.ip.alloc(st, W.call(st, fn, *out))


def write(W, st, wcell, first, mapcell=None):
    fn = find_fn(W.J, 'write', WR)
    out = []
    for p in fn['params']:
        t = p['ty'] if 'ty' in p else p['pat']['t']
        s = W.ip.stripref(t)
        d = s.get('d', '').split('::')[-1]
        if d == WR:
            out.append(W.ip.ref(wcell))
        elif d == 'Option':
            out.append(some(W.ip.ref(mapcell)) if mapcell is not None else NONE)
        else:
            out.append(I(first) if not isinstance(first, T) else first)
    return fn, W.call(st, fn, *out)


# ----------------------------------------------------------------- ground
def vals_of(H, ci, ins, full):
    """bit-parallel values of all gates of a composed circuit, and its outputs"""
    vals, outs = [], []
    k = 0
    for x in H.log:
        if x[0] != ci or x[1] == 'sub':
            continue
        op, a = x[1], x[2:]
        if len(a) and isinstance(a[-1], str):
            raise Unsupported('repeated steps')
        if op == 'input':
            vals.append(ins[k])
            k += 1
        elif op == 'constant':
            vals.append(full if a[0] else 0)
        elif op == 'output':
            if a[0] < len(vals):
                outs.append(vals[a[0]])
        elif op == 'module':
            vals += vals_of(H, a[0], [vals[i] for i in a[1]], full)[1]
        else:
            y = [vals[i] for i in a]
            vals.append({'not': lambda p: full ^ p, 'identity': lambda p: p, 'xor': lambda p, q: p ^ q, 'and': lambda p, q: p & q,
                         'or': lambda p, q: p | q, 'equivalent': lambda p, q: full ^ p ^ q}[op](*y))
    return vals, outs


LINES = {'not': 1, 'identity': 2, 'xor': 1, 'and': 1, 'or': 1, 'equivalent': 2}


def expanded(H, ci):
    """(logic gates, constants) of a circuit with all modules expanded"""
    n = k = 0
    for x in H.log:
        if x[0] != ci:
            continue
        if x[1] == 'module':
            a, b = expanded(H, x[2])
            n, k = n + a, k + b
        elif x[1] == 'constant':
            k += 1
        else:
            n += LINES.get(x[1], 0)
    return n, k


def live(H, ci):
    """number of distinct gate lines the outputs of circuit ci need"""
    defs = []
    outs = []
    for i, x in enumerate(H.log):
        if x[0] != ci or x[1] == 'sub':
            continue
        if x[1] == 'output':
            outs.append(x[2])
        elif x[1] == 'module':
            defs += [(i, x)] * sum(1 for y in H.log if y[0] == x[2] and y[1] == 'output')
        else:
            defs.append((i, x))
    seen, n = set(), 0
    todo = [o for o in outs if o < len(defs)]
    while todo:
        i, x = defs[todo.pop()]
        if i in seen:
            continue
        seen.add(i)
        if x[1] == 'module':
            n += live(H, x[2])
            todo += x[3]
        elif x[1] in LINES:
            n += LINES[x[1]]
            todo += x[2:]
    return n


def shapes(H, ci, ins):
    """structural form of every gate of circuit ci and, added up in the counter,
    the logic gates of its expansion; None if a form depends on the implementation"""
    from collections import Counter
    forms, outs, cnt = [], [], Counter()
    k = 0
    for x in H.log:
        if x[0] != ci or x[1] == 'sub':
            continue
        op, a = x[1], x[2:]
        if op == 'input':
            forms.append(ins[k])
            k += 1
        elif op == 'constant':
            forms.append(mk('fc', int(a[0])))
        elif op == 'output':
            if a[0] < len(forms):
                outs.append(forms[a[0]])
        elif op == 'module':
            r = shapes(H, a[0], [forms[i] for i in a[1]])
            if r is None:
                return None
            forms += r[1]
            cnt += r[2]
        elif op in ('not', 'xor', 'and', 'or'):
            f = form(op, *[forms[i] for i in a])
            forms.append(f)
            cnt[f] += 1
        else:
            return None
    return forms, outs, cnt


def form(op, *xs):
    return mk('f' + op, *sorted(xs, key=lambda t: t.uid))


ARITY = {'XOR': 2, 'AND': 2, 'OR': 2, 'INV': 1, 'NOT': 1, 'EQW': 1}


class Bad(Exception):
    def __init__(self, pid, msg):
        self.pid, self.msg = pid, msg


def nums(pid, what, l):
    xs = l.split()
    if not all(x.isdigit() for x in xs):
        raise Bad(pid, f'{what} reads "{l}"')
    return [int(x) for x in xs]


def check_text(H, text, first, consts, wire_of, rng, cgates):
    """judge a written file against the circuit it was written from"""
    nin = H.cs[0]['nin']
    full_lines, _ = expanded(H, 0)
    nout = sum(1 for x in H.log if x[0] == 0 and x[1] == 'output' and x[2] < len(H.cs[0]['ids']))
    nconst = len(consts)
    ls = text.split('\n')
    if len(ls) < 4 or not text.endswith('\n'):
        raise Bad('C13', f'the file has only {len(ls) - 1} lines')
    h1, h2, h3 = nums('C13', 'line 1', ls[0]), nums('C13', 'line 2', ls[1]), nums('C13', 'line 3', ls[2])
    if ls[3].strip():
        raise Bad('C13', f'line 4 is "{ls[3]}" instead of blank')
    lines = ls[4:-1]
    if len(h1) != 2 or h1[0] != len(lines):
        raise Bad('C13', f'the header "{ls[0]}" announces {h1[0] if h1 else "no"} gate lines but {len(lines)} follow')
    if h1[1] != nin + nconst + len(lines):
        raise Bad('C13', f'the header announces {h1[1]} wires but {nin} inputs, {nconst} constants and {len(lines)} gate lines make {nin + nconst + len(lines)}')
    if h2 != [2, first, nin + nconst - first]:
        raise Bad('C13', f'input header is "{ls[1]}" instead of "2 {first} {nin + nconst - first}"')
    if h3 != [1, nout]:
        raise Bad('C13', f'output header is "{ls[2]}" instead of "1 {nout}"')
    # simulation, many input assignments at a time
    B = 1 << nin if nin <= 6 else 64
    full = (1 << B) - 1
    if nin <= 6:
        ins = [sum(((j >> i) & 1) << j for j in range(B)) for i in range(nin)]
    else:
        ins = [rng.getrandbits(B) for _ in range(nin)]
    want, outs = vals_of(H, 0, ins, full)
    wire = {i: v for i, v in enumerate(ins)}
    for i, v in enumerate(consts):
        wire[nin + i] = full if v else 0
    neqw = 0
    sh = shapes(H, 0, [mk('fi', i) for i in range(nin)])
    fm = {i: mk('fi', i) for i in range(nin)}
    fm.update({nin + i: mk('fc', int(v)) for i, v in enumerate(consts)})
    seen = {}
    for n, l in enumerate(lines):
        t = l.split()
        if len(t) < 4 or not all(x.isdigit() for x in t[:-1]):
            raise Bad('C12', f'gate line {n + 1} is "{l}"')
        o = t[-1]
        k, m = int(t[0]), int(t[1])
        ws = [int(x) for x in t[2:-1]]
        if o not in ARITY or ARITY[o] != k or m != 1 or len(ws) != k + 1:
            raise Bad('C12', f'gate line {n + 1} is "{l}"')
        for x in ws[:-1]:
            if x not in wire:
                raise Bad('C12', f'gate line {n + 1} "{l}" uses wire {x} before it has a value')
        if ws[-1] in wire:
            raise Bad('C12', f'gate line {n + 1} "{l}" assigns wire {ws[-1]} a second time')
        y = [wire[x] for x in ws[:-1]]
        wire[ws[-1]] = y[0] ^ y[1] if o == 'XOR' else y[0] & y[1] if o == 'AND' else y[0] | y[1] if o == 'OR' else full ^ y[0] if o in ('INV', 'NOT') else y[0]
        neqw += o == 'EQW'
        if o == 'EQW':
            fm[ws[-1]] = fm[ws[0]]
            continue
        f = fm[ws[-1]] = form({'INV': 'not'}.get(o, o.lower()), *[fm[x] for x in ws[:-1]])
        seen[f] = seen.get(f, 0) + 1
        if sh is not None and seen[f] > sh[2][f] > 0:
            raise Bad('C12', f'gate line {n + 1} "{l}" writes a gate again: the circuit has {sh[2][f]} such gates')
    if len(lines) - neqw > full_lines:
        raise Bad('C12', f'{len(lines) - neqw} gate lines for {full_lines} gates')
    if neqw > nout + full_lines:
        raise Bad('C12', f'{neqw} copy lines for {nout} outputs')
    if any(w not in wire for w in range(h1[1])):
        raise Bad('C13', f'wire {next(w for w in range(h1[1]) if w not in wire)} of {h1[1]} is never assigned')
    ids = H.cs[0]['ids']
    num = {isint(getfield(g, 'GateId', 0, '0')): i for i, g in enumerate(ids)}
    k = 0
    inputs = {}
    ops = gate_ops(H)
    for i in range(len(ids)):
        if ops[i][0] == 'input':
            inputs[i] = k
            k += 1
    for g, w in sorted(wire_of.items()):
        if g not in num:
            continue        # the inner gate of a two-gate operation
        i = num[g]
        if w not in wire:
            raise Bad('C12', f'gate {g} is said to be on wire {w}, which has no value')
        if i in inputs and w != inputs[i]:
            raise Bad('C13', f'input {inputs[i]} is on wire {w}')
        if ops[i][0] == 'constant':
            if not nin <= w < nin + nconst:
                raise Bad('C13', f'the constant gate {g} is on wire {w}, the constant wires are {nin}..{nin + nconst}')
            if consts[w - nin] != bool(ops[i][1]):
                raise Bad('C13', f'the constant gate {g} has value {bool(ops[i][1])} but wire {w} is returned as {consts[w - nin]}')
        if wire[w] != want[i]:
            raise Bad('C12', f'wire {w} does not carry the value of gate {g} ({ops[i][0]})')
    for i, w in inputs.items():
        g = isint(getfield(ids[i], 'GateId', 0, '0'))
        if wire_of.get(g) != w:
            raise Bad('C13', f'input {w} is on wire {wire_of.get(g)}')
    top = h1[1] - nout
    for j in range(nout):
        if wire[top + j] != outs[j]:
            raise Bad('C13' if any(wire[w] == outs[j] for w in wire) else 'C12', f'the wire {top + j} of output {j} does not carry its value')
    need = live(H, 0)
    return dict(lines=len(lines), live=need)


def gate_ops(H):
    out = []
    for x in H.log:
        if x[0] != 0 or x[1] in ('sub', 'output'):
            continue
        if x[1] == 'module':
            n = sum(1 for y in H.log if y[0] == x[2] and y[1] == 'output')
            out += [('module',)] * n
        else:
            out.append(x[1:])
    return out


def ground_map(ip, st, cell):
    m = ip.readcell(st, cell)
    out = {}
    while m.op == 'mset':
        k = isint(getfield(m.args[1], 'GateId', 0, '0')) if m.args[1].op == 'adt' else isint(m.args[1])
        v = isint(m.args[2].args[2]) if m.args[2].op == 'adt' and m.args[2].args[1] == 'Some' else None
        if k is None or v is None:
            raise Unsupported('map entry')
        out.setdefault(k, v)
        m = m.args[0]
    if m is not EMAP:
        raise Unsupported('map ' + show(m)[:60])
    return out


def bools(v):
    v = as_seq(v)
    if v.op != 'seq' or any(g.op != 'el' or g.args[0] not in (TRUE, FALSE) for g in v.args):
        raise Unsupported('returned values')
    return [g.args[0] is TRUE for g in v.args]


def try_write(H, rng):
    """write the outer circuit twice; list of (property, message) of definite failures"""
    W, st, ip = H.W, H.st, H.W.ip
    ip.inline_rec = True
    nin = H.cs[0]['nin']
    ncon = expanded(H, 0)[1]
    first = rng.randrange(nin + ncon + 1)
    sink = Sink(ip, st)
    cref = W.cref(H.cs[0]['cell'])
    wcell = new_writer(W, st, cref)
    before = ip.readcell(st, H.cs[0]['cell'])
    fn = None
    old = ''
    for rnd in range(2):
        mcell = ip.alloc(st, EMAP)
        mark = len(ip.obls)
        fn, v = write(W, st, wcell, first, mcell)
        for o in ip.obls[mark:]:
            if o['cond'] is FALSE and all(p is TRUE for p in o['pc']):
                return fn, [(p, f"writing panics ({o['kind']})") for p in ('C12', 'C13')]
        if st.dead:
            return fn, [(p, 'writing panics') for p in ('C12', 'C13')]
        if v.op == 'adt' and v.args[1] == 'Err':
            return fn, [(p, f'writing fails with {show(v)[:80]}') for p in ('C12', 'C13')]
        text = sink.text(st)
        if text is None or not (v.op == 'adt' and v.args[1] == 'Ok'):
            raise Unsupported('written text not resolved')
        new = text[len(old):]
        consts = bools(v.args[2])
        if len(consts) != ncon:
            return fn, [('C13', f'{len(consts)} values are returned for {ncon} constants')]
        try:
            check_text(H, new, first, consts, ground_map(ip, st, mcell), rng, None)
        except Bad as b:
            return fn, [(b.pid, b.msg + (' (second write)' if rnd else ''))]
        if rnd and new != old:
            return fn, [('C13', 'a second write gives another file')]
        old = text
        wv = ip.readcell(st, wcell)
        fs = list(Tm.ADTS[wv.args[0]].values())[0]
        if 'c_ref' in fs and W.f(wv, 'c_ref') is not cref:
            return fn, [('C13', 'after writing the writer holds another circuit')]
    return fn, []


def wcurated(ks):
    """circuits aimed at the writer"""
    pre = [(0, 'input'), (0, 'output', 0), (0, 'input'), (0, 'constant', 0), (0, 'constant', 1)]          # ids 0..3
    # every operator below the outputs, each operand known or needed by the other
    for o in ('xor', 'and', 'or'):
        for q in ('xor', 'and', 'or'):
            if o != q:
                yield pre + [(0, q, 0, 1), (0, 'not', 4), (0, o, 5, 4), (0, 'not', 6), (0, 'output', 7)]
                yield pre + [(0, q, 0, 1), (0, 'not', 4), (0, o, 4, 5), (0, 'not', 6), (0, 'output', 7)]
                yield pre + [(0, q, 0, 2), (0, o, 4, 1), (0, q, 5, 3), (0, o, 4, 6), (0, 'output', 7), (0, 'output', 6)]
        yield pre + [(0, 'not', 0), (0, o, 4, 4), (0, 'not', 5), (0, 'output', 6)]
        yield pre + [(0, 'not', 0), (0, o, 4, 4), (0, 'output', 5), (0, 'output', 4)]
    # constants
    for n in (5, 6, 9) + tuple(k + 1 for k in ks):
        yield [(0, 'input')] + [(0, 'constant', (i * i + i // 2) % 2) for i in range(n)] + [(0, 'xor', 0, i + 1) for i in range(n)] + [(0, 'output', n + 1 + i) for i in range(n)]
        yield [(0, 'constant', (i // 2) % 2) for i in range(n)] + [(0, 'and', i, (i + 1) % n) for i in range(n)] + [(0, 'output', i) for i in (n, 2 * n - 1, 0, n - 1)]
    # inputs declared after outputs, in the called circuit as well
    for nin in (1, 2, 3, 4):
        sub = [(0, 'sub'), (1, 'constant', 1)]
        ids, last = 1, 0
        outs = 0
        for i in range(nin):
            sub += [(1, 'input'), (1, 'xor', ids, last), (1, 'output', ids + 1 - i % 2)]
            last = ids + 1
            ids += 2
            outs += 1
        sub += [(1, 'and', last, ids - 2), (1, 'output', ids)]
        outs += 1
        for sel in range(outs):
            for ops in ([0, 1, 2, 3], [3, 2, 0, 1], [1, 1, 0, 0], [2, 0, 0, 1]):
                b = 4
                two = [(0, 'module', 1, ops[:nin]), (0, 'and', b + sel, b), (0, 'not', b + outs), (0, 'module', 1, [b + outs + 1] * nin)]
                yield sub + pre + two + [(0, 'output', b + outs + 1), (0, 'output', b + outs + 2 + sel), (0, 'output', 1)]
                yield sub + pre + two + [(0, 'output', b + sel), (0, 'output', b + (sel + 1) % outs), (0, 'output', b + outs + 2 + (sel + 1) % outs)]
    for n in range(1, 6):
        s = []
        for i in range(n):
            s += [(0, 'input'), (0, 'output', i)] if i % 2 else [(0, 'input')]
        yield s + [(0, 'xor', i, n - 1 - i) for i in range(n)] + [(0, 'output', n + i) for i in range(n)] + [(0, 'input'), (0, 'and', 0, 2 * n), (0, 'output', 2 * n + 1)]
    # constants in called circuits, more of them than inputs; a call no output of which is used
    s2 = [(0, 'sub'), (0, 'sub'), (2, 'constant', 1), (2, 'input'), (2, 'xor', 0, 1), (2, 'constant', 0), (2, 'or', 2, 3), (2, 'output', 4), (2, 'output', 0),
          (1, 'constant', 0), (1, 'constant', 1), (1, 'input'), (1, 'module', 2, [2]), (1, 'module', 2, [1]), (1, 'xor', 3, 6), (1, 'output', 7), (1, 'output', 4), (1, 'output', 2), (1, 'output', 0)]
    o1 = [(0, 'input'), (0, 'constant', 1), (0, 'module', 1, [0]), (0, 'module', 1, [2]), (0, 'module', 2, [1])]        # ids 2-5, 6-9, 10-11
    for outs in ((6,), (7, 6), (8, 9), (4, 2), (10, 6, 0), (11,), (3, 7, 11, 1), (2,)):
        yield s2 + o1 + [(0, 'output', i) for i in outs]
        yield s2 + o1 + [(0, 'not', i) for i in outs] + [(0, 'output', 12 + i) for i in range(len(outs))]


def wrandom(rng):
    """random circuit in which most gates reach an output"""
    nsub = rng.choice((0, 1, 1, 2, 3))
    prog, io = [], {}

    def fill(ci, n, callable_):
        ids, unused, nin, nout = 0, [], 0, 0
        kin = rng.randrange(1, 5)
        for t in range(n):
            r = rng.random()
            pick = lambda: unused.pop(rng.randrange(len(unused))) if unused and rng.random() < 0.6 else rng.randrange(ids)
            if ids == 0 or r < 0.16 and nin < kin:
                prog.append((ci, 'input'))
                nin += 1
            elif r < 0.28:
                prog.append((ci, 'constant', rng.randrange(2)))
            elif r < 0.36:
                prog.append((ci, 'output', pick()))
                nout += 1
                continue
            elif r < 0.52 and callable_:
                s = rng.choice(callable_)
                prog.append((ci, 'module', s, [pick() for _ in range(io[s][0])]))
                unused += range(ids, ids + io[s][1])
                ids += io[s][1]
                continue
            elif r < 0.64:
                prog.append((ci, 'not', pick()))
            else:
                prog.append((ci, rng.choice(('xor', 'and', 'or', 'xor', 'and', 'or', 'equivalent', 'identity')), pick(), pick()))
                if prog[-1][1] == 'identity':
                    prog[-1] = prog[-1][:3]
            unused.append(ids)
            ids += 1
        rng.shuffle(unused)
        for g in unused[:rng.choice((2, 4, 50))]:
            prog.append((ci, 'output', g))
            nout += 1
        io[ci] = (nin, nout)
    for s in range(1, nsub + 1):
        prog.append((0, 'sub'))
    for s in range(nsub, 0, -1):
        fill(s, rng.randrange(1, 9), list(range(s + 1, nsub + 1)))
    fill(0, rng.randrange(6, 22), list(range(1, nsub + 1)))
    return prog


def programs(seed, n, ks):
    yield from wcurated([k for k in ks if k <= 66])
    yield from c_eval.sized([k for k in ks if k > 4])
    for w in range(n // 2):
        yield wrandom(random.Random(seed * 31337 + w))
    for p in c_eval.ground_programs([], seed, n):
        yield p
    for w in range(n):
        yield wrandom(random.Random(seed * 31337 + n + w))


def refute(c, own, secs):
    t0 = time.time()
    lit_ = c_eval.literals(c.J, ('bristol',), 600)
    ks = [k for k in lit_ if k <= 66][:4] + [k for k in lit_ if k > 66][:2]
    n = bad = 0
    if max(ks, default=0) > 66:
        secs += 200
    why = {}
    for prog in programs(c.seed, 1500 if c.thorough else 300, ks):
        if time.time() - t0 > secs:
            break
        rng = None
        if isinstance(prog, tuple):
            prog, rng = prog
        sz = loops.sizes(2 * len(prog) + 40, 40)
        sz.__enter__()
        H = Hist(c.J)
        r2 = random.Random(n * 31 + c.seed)
        try:
            for s in prog:
                R = H.step(*s)
                if R is not None and R.st.dead:
                    raise Unsupported('construction panics')
            m = len(H.cs[0]['ids'])
            if rng is not None:
                for _ in range(rng.randrange(1, 5)):
                    H.step(0, 'output', rng.randrange(m))
            n += 1
            fn, fs = try_write(H, r2)
            for p, msg in fs:
                if p == own:
                    c.count('circuits written', n)
                    return fn, f'{msg}; {H.desc()}'
        except Unsupported as e:
            bad += 1
            why[str(e)[:100]] = why.get(str(e)[:100], 0) + 1
        finally:
            sz.__exit__()
    c.count('circuits written', n)
    if bad:
        c.count('circuits not resolved', bad)
        c.why = why
    return None


# ----------------------------------------------------------------- checks
class Found(Exception):
    pass


def proof(c, pid):
    """run all symbolic cases; returns (open obligations, undecided); the first
    open one is tried against ground circuits at once"""
    import c_wproof as P
    op, und, done = [], [], 0
    fn = None
    tried = False
    t0 = time.time()
    groups = (('writing one gate', P.arms(), lambda a: lambda o: P.arm(c.J, a[0], a[1], a[2], o, a[3], a[4])),
              ('writing all gates', P.all_runs(), lambda a: lambda o: P.all_gates(c.J, a[0], a[1], sum(g[0] == 'Const' for g in a[1]), o)),
              ('write', P.drivers(), lambda a: lambda o: P.driver(c.J, a[0], a[1], a[2], o)))
    for label, gen, mk_ in groups:
        n = 0
        for a in gen:
            try:
                for W, fn in c_eval.cases(mk_(a)):
                    op += [(x, fn) for x in W.open]
                    done += W.done
                n += 1
            except Unsupported as x:
                und.append((label, str(x)))
                break
            if any(x[0][0] == pid for x in op):
                if not tried:
                    tried = True
                    w = refute(c, pid, 40)
                    if w:
                        raise Found(w)
                if time.time() - t0 > 150:
                    und.append((label, 'not all cases were tried'))
                    break
        c.count(f'symbolic cases: {label}', n)
    c.count('facts proved', done)
    return op, und, fn


def decide(c, pid):
    c.extra['explanation'] = ('Writing one gate (every kind, every aliasing pattern, every combination of operands already written), writing all gates of a circuit and `write` itself are each summarised from the '
                              'typed IR on an arbitrary circuit and writer state, calls between them replaced by their contracts; the text they append is compared token by token with the line the gate stands for. '
                              'An open case is reported only with a circuit for which the composed transfer functions write a definitely wrong file.')
    c.assumptions.append('circuit well-formed (C05, C06); symbolic cases: up to 3 operands and 3 outputs per module call, 3 inputs, constants and outputs of the written circuit; the map passed to write is empty')
    try:
        op, und, fn = proof(c, pid)
    except Found as x:
        w = x.args[0]
        c.bad('writer', w[1], loc_of(w[0]))
        return
    except Missing as x:
        c.bad('writer', f'public operation {x} is missing')
        return
    own = [x for x in op if x[0][0] == pid]
    lits = [k for k in c_eval.literals(c.J, ('bristol',), 600) if k > 4]
    if own or und or lits:
        try:
            w = refute(c, pid, 300 if c.thorough else 120)
        except Missing as x:
            c.bad('writer', f'public operation {x} is missing')
            return
        if w:
            c.bad('writer', w[1], loc_of(w[0]))
            return
    names = {}
    for (p, name, why, lv), f in own:
        names.setdefault(name, (why, f))
    for name, (why, f) in list(names.items())[:12]:
        c.und(name, why, loc_of(f))
    for name, why in und[:8]:
        c.und(name, 'not summarised: ' + why)
    if not own and not und:
        c.ok('writing one gate', 'every arm meets the contract', loc_of(fn))
        c.ok('writing all gates', 'every output is written, constants are placed', loc_of(fn))
        c.ok('write', 'header, inputs, constants, outputs and returned values as described', loc_of(fn))


@check('C12')
def c12(c):
    decide(c, 'C12')


@check('C13')
def c13(c):
    decide(c, 'C13')
