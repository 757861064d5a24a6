"""C01-C03: evaluation.  Proof: every arm of the recursive gate evaluation, and
the driver that seeds it, is summarised on an arbitrary circuit and memo state
under the contract of its recursive calls.  Refutation: transfer functions
composed over ground circuits with symbolic input bits."""
import itertools
import random
import time
from terms import *
import terms as Tm
import facts as Fx
import interp
import loops
from interp import Unsupported, St
from core import check, loc_of
from build import Missing
from c_circ import World, Hist, around, random_walk, find, idn, okv, consts_in, run_op, consistent, _with, patterns
from prove import equal, prove

EV = 'NXAOBoolEvaluator'
CT = 'BoolCircuit'


class EWorld(World):
    def __init__(self, J):
        super().__init__(J)
        self.open = []          # (property, name, why)
        self.done = 0
        self.root = None
        self.new = find(self, 'new', EV)
        self.eval_output = self.anyfn('eval_output', EV, 'BoolEvaluator')
        self.egate = recursive_eval(J)

    def hook(self, name, fn):
        for ad, tr in (('NXAOBoolCircuit', CT), ('NXAOBoolCircuit', None)):
            try:
                f = self.fn(name, ad, tr)
            except Missing:
                continue

            def h(ip, st, f_, args, ty, fn=fn):
                return fn(st, [ip.deref_val(st, a) if ip.isref(a) else a for a in args[1:]])
            self.ip.hooks[f['id']] = h

    def need(self, prop, name, st, goal, extra=()):
        lv = prove(tuple(st.pc) + tuple(extra), goal)
        if lv:
            self.open.append((prop, name, 'not implied: ' + show(lv[0][1])[:150], lv))
        else:
            self.done += 1

    def same(self, prop, name, st, a, b):
        lv = equal(tuple(st.pc), a, b)
        if lv:
            self.open.append((prop, name, f'{show(a)[:100]} differs from {show(b)[:100]}', lv))
        else:
            self.done += 1

    def obligations(self, prop, name, mark):
        for o in self.ip.obls[mark:]:
            if o['kind'] == 'overflow':
                continue
            self.need(prop, f"{name}: {o['kind']} cannot fail", St(pc=o['pc']), o['cond'])

    def evaluator(self, st):
        self.ccell = self.circuit(st)
        ev = self.call(st, self.new, self.cref(self.ccell))
        return self.refto(st, ev)


def recursive_eval(J):
    """the recursive evaluation function: (fn, positions of gate id, values, counts)"""
    fns = J['fns'].values() if isinstance(J['fns'], dict) else J['fns']
    for f in fns:
        if 'evaluator' not in f['path'] or '::test' in f['path']:
            continue
        pos = {}
        for i, p in enumerate(f['params']):
            t = p.get('t') or {}
            b = t.get('t', {}) if t.get('k') == 'ref' else t
            if b.get('k') == 'adt' and b['p'].endswith('GateId'):
                pos['g'] = i
            if t.get('k') == 'ref' and b.get('k') == 'adt' and b['p'].split('::')[-1] in ('HashMap', 'BTreeMap'):
                v = b['a'][1]
                pos['em' if v.get('k') == 'bool' else 'nm'] = i
        if set(pos) == {'g', 'em', 'nm'} and calls_itself(f, fns):
            return f, pos
    return None


def calls_itself(f, fns):
    ids = {g['id']: g for g in fns}
    seen, todo = set(), [f['id']]
    while todo:
        x = todo.pop()
        for y in callees(ids[x]['body']):
            if y == f['id']:
                return True
            if y in ids and y not in seen:
                seen.add(y)
                todo.append(y)
    return False


def callees(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            d = x.get('d') or x.get('def')
            if isinstance(d, str):
                yield d
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def val(g):
    return getfield(mget(sym('VAL'), g), 'Some', 0, '0')


def deps(g):
    return getfield(mget(sym('DEPS'), g), 'Some', 0, '0')


def opt(p, v):
    return ite(p, some(v), NONE)


class Oracle:
    """enumerates the cases a contract leaves open"""

    def __init__(self):
        self.bits, self.pos = [], 0

    def next(self):
        while self.bits and self.bits[-1]:
            self.bits.pop()
        if not self.bits:
            return False
        self.bits[-1] = True
        self.pos = 0
        return True


def cases(run):
    o = Oracle()
    while True:
        yield run(o)
        if not o.next():
            return


class Memo:
    """memo and use-count maps whose entries for the tracked gates are explicit"""

    def __init__(self, W, st, uses, oracle):
        self.W = W
        self.oracle = oracle
        self.uses = uses                  # gate -> uses still outstanding
        self.em, self.nm = {}, {}
        self.K = W.gid(sym('Kany', True))

    def choose(self):
        o = self.oracle
        if o.pos == len(o.bits):
            o.bits.append(False)
        o.pos += 1
        return o.bits[o.pos - 1]

    def build(self, d, base):
        m = base
        for k, v in d.items():
            m = mset(m, k, v)
        return m

    def maps(self):
        self.be, self.bn = fresh('EM'), fresh('NM')
        return self.build(self.em, self.be), self.build(self.nm, self.bn)

    def frame(self, st, em, nm, what):
        """entries of untracked gates are as at the last havoc"""
        W = self.W
        s = _with(st, [bnot(eq0(sub(idn(self.K), idn(g)))) for g in self.em])
        W.same('C01', f'{what}: other values untouched', s, mget(em, self.K, lambda c: Fx.decide(s.pc, c)), mget(self.be, self.K))
        W.same('C03', f'{what}: other counts untouched', s, mget(nm, self.K, lambda c: Fx.decide(s.pc, c)), mget(self.bn, self.K))
        for g in self.em:
            W.same('C01', f'{what}: tracked values untouched', s, mget(em, g, lambda c: Fx.decide(s.pc, c)), self.em[g])
            W.same('C03', f'{what}: tracked counts untouched', s, mget(nm, g, lambda c: Fx.decide(s.pc, c)), self.nm[g])

    def evaluate(self, st, x, frozen=()):
        """effect of evaluating x (contract of the recursion)"""
        for g in list(self.em):
            if g is x:
                c = fresh('cnt', True)
                st.assume(le(self.uses[g], c))
                self.em[g], self.nm[g] = some(val(g)), some(c)
            elif g in frozen:
                continue
            else:
                c = fresh('cnt', True)
                st.assume(le(self.uses[g], c))
                e = self.em[g]
                held = Fx.decide(st.pc, le(ONE, self.uses[g]))
                if e is NONE:
                    if held is not False and self.choose():      # evaluated on the way
                        self.em[g], self.nm[g] = some(val(g)), some(c)
                elif held is True:
                    self.nm[g] = some(c)
                elif self.choose():                              # last use on the way
                    self.em[g], self.nm[g] = NONE, NONE
                else:
                    self.nm[g] = some(c)


def install(W, S, circ):
    """observers of the circuit under evaluation; circ: dict of callables"""
    for name, fn in circ.items():
        W.hook(name, fn)


GATES = {'Const': 0, 'Not': 1, 'Xor': 2, 'And': 2, 'Or': 2}
SEM = {'Not': bnot, 'Xor': bxor, 'And': band, 'Or': bor}


def gate_value(W, kind, ops, value=None, **kw):
    d = {x: n for n, x in ()}
    ga = W.d['NXAOBoolGate']
    mod = ga.rsplit('::', 1)[0]
    name = {'Const': 'ConstGate', 'Not': 'NotGate', 'Xor': 'XorGate', 'And': 'AndGate', 'Or': 'OrGate', 'Module': 'ModuleGate'}[kind]
    b = mod + '::' + name
    fs = list(Tm.ADTS[b].values())[0]
    get = dict(kw)
    if kind == 'Const':
        get['value'] = value
    elif kind == 'Not':
        get['id'] = ops[0]
    elif kind != 'Module':
        get['left_id'], get['right_id'] = ops
    return Tm.adt(ga, kind, Tm.adt(b, name, *[get[f] for f in fs]))


def arm(J, kind, pat, present, seeded, nout, oi, oracle):
    """one arm of the gate evaluation; pat: operand classes, present: which
    operand classes are already known, seeded: the gate is (not) an output"""
    W = EWorld(J)
    if W.egate is None:
        raise Unsupported('no recursive evaluation function with a memo map and a count map')
    fn, pos = W.egate
    st = W.st.copy()
    st.force()
    cls = [W.gid(sym('o%d' % i, True)) for i in range(len(present))]
    ops = [cls[i] for i in pat]
    f0 = sym('u', True)
    outs = [W.gid(add(f0, I(i))) for i in range(nout)]
    u = outs[oi]
    for a, b in itertools.combinations(cls, 2):
        st.assume(bnot(eq0(sub(idn(a), idn(b)))))
    for a in cls:
        for b in outs:
            st.assume(bnot(eq0(sub(idn(a), idn(b)))))
    name = f'{kind} gate' + (f' operands {pat}' if len(set(pat)) < len(pat) or kind == 'Module' else '') + (f', output {oi} of {nout}' if kind == 'Module' else '')
    M = Memo(W, st, {c: I(sum(x is c for x in ops)) for c in cls}, oracle)
    M.uses.update({o: ZERO for o in outs})
    cnt = {}
    for c, p in zip(cls, present):
        n = fresh('cnt', True)
        st.assume(le(M.uses[c], n))
        M.em[c] = some(val(c)) if p else NONE
        M.nm[c] = some(n) if p else NONE
    for o in outs:
        q = fresh('seed', True)
        M.em[o] = NONE
        M.nm[o] = some(q) if seeded else NONE
    e0, n0 = M.maps()
    value = sym('value')
    mid = W.mid(sym('M', True))
    evr = W.evaluator(st)
    mcell = None
    kw = {}
    obits = [sym('out%d' % i) for i in range(nout)]
    if kind == 'Module':
        mcell = W.circuit(st, tag='m.')
        kw = dict(input_len=I(len(ops)), output_len=I(nout), input_ids=seq(*[el(o) for o in ops]), out_index=I(oi), module_id=mid)
    ga = gate_value(W, kind, ops, value, **kw)

    def get_gate(s, a):
        if a[0] is u:
            return ok(ga)
        return ok(getfield(mget(sym('GATES'), a[0]), 'Some', 0, '0'))

    def get_module(s, a):
        if a[0] is mid and mcell is not None:
            return ok(W.cref(mcell))
        raise Unsupported('unknown module looked up')
    install(W, st, {'get_gate': get_gate, 'get_depended_gates': lambda s, a: ok(deps(a[0])), 'get_module': get_module,
                    'input_len': lambda s, a: sym('NIN', True), 'output_len': lambda s, a: sym('NOUT', True)})
    ecell, ncell = W.ip.alloc(st, e0), W.ip.alloc(st, n0)
    rec = [0]

    def recursion(ip, s, f, args, ty):
        if f['id'] != fn['id']:
            raise Unsupported('recursion through ' + f['path'])
        x = ip.deref_val(s, args[pos['g']])
        if x not in cls:
            raise Unsupported('recursive evaluation of ' + show(x)[:60])
        em, nm = ip.deref_val(s, args[pos['em']]), ip.deref_val(s, args[pos['nm']])
        em, nm = Fx.prune(em, s.pc), Fx.prune(nm, s.pc)
        rec[0] += 1
        M.frame(s, em, nm, f'{name}: before an operand is evaluated')
        W.need('C03', f'{name}: operand evaluated only when its value is not known', s, bnot(isvar(mget(em, x, lambda c: Fx.decide(s.pc, c)), 'Some')))
        M.evaluate(s, x, frozen=outs)
        e1, n1 = M.maps()
        if not (args[pos['em']].op == 'ref' and args[pos['nm']].op == 'ref'):
            raise Unsupported('memo is not passed by reference')
        ip.writeref(s, args[pos['em']], e1)
        ip.writeref(s, args[pos['nm']], n1)
        return ok(UNIT)
    W.ip.on_recursion = recursion

    def sub_eval(ip, s, f, args, ty):
        ev = ip.deref_val(s, args[0])
        ins = as_seq(ip.deref_val(s, args[1]))
        cr = W.f(ev, 'circuit') if ev.op == 'adt' else None
        cell = getfield(cr, '', 0, '0') if cr is not None else None
        if mcell is None or cell is None or cell.op != 'rc':
            raise Unsupported('nested evaluation of an unknown circuit')
        W.need('C02', f'{name}: the called circuit is evaluated', s, B(cell.args[0] == mcell))
        W.same('C02', f'{name}: operand values in order', s, ins, seq(*[el(val(o)) for o in ops]))
        W.need('C03', f'{name}: as many values as inputs', s, eq0(sub(seq_len(ins), I(len(ops)))))
        return ok(seq(*[el(b) for b in obits]))
    W.ip.hooks[W.eval_output['id']] = sub_eval
    args = [None] * len(fn['params'])
    for i, p in enumerate(fn['params']):
        t = p.get('t') or {}
        b = t.get('t', {}) if t.get('k') == 'ref' else t
        if i == pos['g']:
            args[i] = W.refto(st, u) if t.get('k') == 'ref' else u
        elif i == pos['em']:
            args[i] = W.ip.ref(ecell)
        elif i == pos['nm']:
            args[i] = W.ip.ref(ncell)
        elif b.get('k') == 'adt' and b['p'].endswith(EV):
            args[i] = evr
        elif b.get('k') == 'adt' and b['p'].endswith('BoolCircuitRef'):
            args[i] = W.refto(st, W.cref(W.ccell)) if t.get('k') == 'ref' else W.cref(W.ccell)
        else:
            raise Unsupported('evaluation function takes an extra argument')
    mark = len(W.ip.obls)
    v = W.call(st, fn, *args)
    p1 = 'C02' if kind == 'Module' else 'C01'
    if st.dead:
        W.open.append(('C03', f'{name}: returns', 'never returns', None))
        return W, fn
    W.obligations('C03', name, mark)
    W.need('C03', f'{name}: succeeds', st, isvar(v, 'Ok'))
    em, nm = Fx.prune(W.ip.readref(st, W.ip.ref(ecell)), st.pc), Fx.prune(W.ip.readref(st, W.ip.ref(ncell)), st.pc)
    dec = lambda c: Fx.decide(st.pc, c)
    want = [value] if kind == 'Const' else obits if kind == 'Module' else [SEM[kind](*[val(o) for o in ops])]
    for i, (o, w) in enumerate(zip(outs, want)):
        W.same(p1, f'{name}: value recorded', st, mget(em, o, dec), some(w))
        n = mget(nm, o, dec)
        old = M.nm[o]
        base = getfield(old, 'Some', 0, '0') if old is not NONE else ZERO
        W.need('C03', f'{name}: all its uses are counted', st, band(isvar(n, 'Some'), le(add(base, seq_len(deps(o))), getfield(n, 'Some', 0, '0'))))
    for c in cls:
        e, n = mget(em, c, dec), mget(nm, c, dec)
        old = M.nm[c]
        if old is NONE:
            W.open.append((p1, f'{name}: operand evaluated', 'an operand was not evaluated', None))
            continue
        left = sub(getfield(old, 'Some', 0, '0'), M.uses[c])
        kept = band(isvar(e, 'Some'), beq(getfield(e, 'Some', 0, '0'), val(c)), isvar(n, 'Some'), le(left, getfield(n, 'Some', 0, '0')))
        W.need('C03', f'{name}: an operand is dropped only after its last use', st, bor(kept, band(isvar(e, 'None'), le(left, ZERO))))
    s = _with(st, [bnot(eq0(sub(idn(M.K), idn(g)))) for g in M.em])
    dk = lambda c: Fx.decide(s.pc, c)
    W.same('C01', f'{name}: other values untouched', s, mget(em, M.K, dk), mget(M.be, M.K))
    W.same('C03', f'{name}: other counts untouched', s, mget(nm, M.K, dk), mget(M.bn, M.K))
    return W, fn


def arms(lits=()):
    for s in (False, True):
        yield 'Const', (), (), s, 1, 0
        for p in (False, True):
            yield 'Not', (0,), (p,), s, 1, 0
        for k in ('Xor', 'And', 'Or'):
            for p in itertools.product((False, True), repeat=2):
                yield k, (0, 1), p, s, 1, 0
            for p in (False, True):
                yield k, (0, 0), (p,), s, 1, 0
    for ar in range(4):
        for pat in patterns(ar):
            for p in itertools.product((False, True), repeat=len(set(pat))):
                for no in range(1, 4):
                    for oi in range(no):
                        yield 'Module', pat, p, (no + oi) % 2 == 0, no, oi
    for ar in (4, 5):
        for pat in patterns(ar):
            n = len(set(pat))
            yield 'Module', pat, (True,) * n, ar == 4, 2, ar % 2
            if ar == 4:
                yield 'Module', pat, (True,) * (n - 1) + (False,), True, 1, 0
    for m in sorted({k + d for k in lits if k <= 40 for d in (0, 1, 2)} | {6, 9}):
        for pat in (tuple(range(m)), (0,) * m, tuple(range(m - 1)) + (0,), tuple(i % 3 for i in range(m)), tuple(range(m - 1)) + (m - 2,)):
            yield 'Module', pat, (True,) * len(set(pat)), False, 1, 0
        yield 'Module', tuple(range(m)), (True,) * m, True, 2, 1
        yield 'Module', (0,), (True,), False, m, m - 1
        yield 'Module', (0, 1), (True, True), True, m, 0


def driver(J, nin, outpat, oracle):
    """eval_output on a circuit with nin inputs and the given outputs: entries of
    outpat are ('i', k) for input k or ('g', k) for another gate"""
    W = EWorld(J)
    if W.egate is None:
        raise Unsupported('no recursive evaluation function with a memo map and a count map')
    fn, pos = W.egate
    st = W.st.copy()
    st.force()
    ins = [W.gid(sym('in%d' % i, True)) for i in range(nin)]
    gates = [W.gid(sym('g%d' % i, True)) for i in range(max([k for t, k in outpat if t == 'g'], default=-1) + 1)]
    outs = [ins[k] if t == 'i' else gates[k] for t, k in outpat]
    allg = ins + gates
    if len(allg) <= 12:
        for a, b in itertools.combinations(allg, 2):
            st.assume(bnot(eq0(sub(idn(a), idn(b)))))
    else:
        raise Unsupported('too many gates')
    bits = [val(i) for i in ins]
    evr = W.evaluator(st)
    name = f'eval_output with {nin} inputs and outputs {[t + str(k) for t, k in outpat]}'

    def in2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic input wire')
        return ok(some(ins[w])) if w < nin else err(sym('e'))

    def out2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic output wire')
        return ok(outs[w]) if w < len(outs) else err(sym('e'))
    install(W, st, {'get_depended_gates': lambda s, a: ok(deps(a[0])), 'input_len': lambda s, a: I(nin), 'output_len': lambda s, a: I(len(outs)),
                    'input_to_gate_id': in2g, 'output_to_gate_id': out2g})
    nuse = {g: I(sum(o is g for o in outs)) for g in allg}
    M = Memo(W, st, nuse, oracle)
    started = [False]

    def seeds(s, em, nm):
        dec = lambda c: Fx.decide(s.pc, c)
        for i, g in enumerate(ins):
            W.same('C01', f'{name}: inputs have their assigned bits', s, mget(em, g, dec), some(bits[i]))
        for g in gates:
            W.need('C01', f'{name}: nothing else is known at first', s, isvar(mget(em, g, dec), 'None'))
        sk = _with(s, [bnot(eq0(sub(idn(M.K), idn(g)))) for g in allg])
        W.need('C01', f'{name}: nothing else is known at first', sk, isvar(mget(em, M.K, lambda c: Fx.decide(sk.pc, c)), 'None'))
        for g in allg:
            n = mget(nm, g, dec)
            need = add(nuse[g], seq_len(deps(g)) if g in ins else ZERO)
            if need is ZERO:
                continue
            W.need('C03', f'{name}: every later use is counted', s, band(isvar(n, 'Some'), le(need, getfield(n, 'Some', 0, '0'))))

    def contract(ip, s, f, args, ty):
        x = ip.deref_val(s, args[pos['g']])
        em, nm = ip.deref_val(s, args[pos['em']]), ip.deref_val(s, args[pos['nm']])
        em, nm = Fx.prune(em, s.pc), Fx.prune(nm, s.pc)
        dec = lambda c: Fx.decide(s.pc, c)
        if x not in allg:
            raise Unsupported('evaluation of ' + show(x)[:60])
        if not started[0]:
            started[0] = True
            seeds(s, em, nm)
            for g in allg:
                M.em[g] = some(val(g)) if g in ins else NONE
                M.nm[g] = mget(nm, g, dec)
        else:
            M.frame(s, em, nm, f'{name}: between outputs')
        if x in ins:
            raise Unsupported('evaluation of an input')
        W.need('C03', f'{name}: evaluated only when not known', s, bnot(isvar(mget(em, x, dec), 'Some')))
        M.evaluate(s, x)
        e1, n1 = M.maps()
        ip.writeref(s, args[pos['em']], e1)
        ip.writeref(s, args[pos['nm']], n1)
        return ok(UNIT)
    W.ip.hooks[fn['id']] = contract
    mark = len(W.ip.obls)
    v = W.call(st, W.eval_output, evr, W.refto(st, seq(*[el(b) for b in bits])))
    if st.dead:
        W.open.append(('C03', f'{name}: returns', 'never returns', None))
        return W, W.eval_output
    W.obligations('C03', name, mark)
    W.need('C03', f'{name}: succeeds', st, isvar(v, 'Ok'))
    W.same('C01', f'{name}: values of the outputs in order', st, as_seq(Fx.prune(okv(v), st.pc)), seq(*[el(val(o)) for o in outs]))
    return W, W.eval_output


def idn_w(w):
    return getfield(w, 'WireId', 0, '0')


def drivers(lits):
    gs = [('g', 0), ('g', 1)]
    for nin in range(4):
        cand = gs + [('i', k) for k in range(nin)]
        for m in range(3):
            for pat in itertools.product(cand, repeat=m):
                yield nin, pat
    for pat in itertools.product(gs + [('g', 2), ('i', 0)], repeat=3):
        yield 1, pat


def driver_n(J, outpat, oracle):
    """eval_output on a circuit with any number of inputs, which are its first
    gates in order; outpat: 't'/'s' an arbitrary input, 'g' another gate"""
    W = EWorld(J)
    if W.egate is None:
        raise Unsupported('no recursive evaluation function with a memo map and a count map')
    fn, pos = W.egate
    st = W.st.copy()
    st.force()
    N, X = sym('N', True), sym('X')
    Tm.LENOF[X] = N
    st.assume(le(ONE, N))
    gate = {'g': W.gid(sym('g', True))}
    st.assume(le(N, idn(gate['g'])))
    idx = {}
    for t in 'ts':
        idx[t] = sym(t, True)
        st.assume(lt(idx[t], N))
        gate[t] = W.gid(idx[t])
    if 't' in outpat and 's' in outpat:
        st.assume(bnot(eq0(sub(idx['t'], idx['s']))))
    outs = [gate[t] for t in outpat]
    bit = lambda i: mk('at', X, i)
    evr = W.evaluator(st)
    name = f'eval_output with any number of inputs and outputs {outpat}'

    def in2g(s, a):
        w = idn_w(a[0])
        return ite(lt(w, N), ok(some(W.gid(w))), err(sym('e')))

    def out2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic output wire')
        return ok(outs[w]) if w < len(outs) else err(sym('e'))
    install(W, st, {'get_depended_gates': lambda s, a: ok(deps(a[0])), 'input_len': lambda s, a: N, 'output_len': lambda s, a: I(len(outs)),
                    'input_to_gate_id': in2g, 'output_to_gate_id': out2g})
    tracked = []
    for o in outs:
        if o not in tracked:
            tracked.append(o)
    nuse = {g: I(sum(o is g for o in outs)) for g in tracked}
    M = Memo(W, st, nuse, oracle)

    def contract(ip, s, f, args, ty):
        x = ip.deref_val(s, args[pos['g']])
        if x is not gate['g']:
            raise Unsupported('evaluation of ' + show(x)[:60])
        em, nm = ip.deref_val(s, args[pos['em']]), ip.deref_val(s, args[pos['nm']])
        dec = lambda c: Fx.decide(s.pc, c)
        W.need('C01', f'{name}: nothing else is known at first', s, isvar(mget(em, gate['g'], dec), 'None'))
        k = fresh('k', True)
        sk = _with(s, [lt(k, N)])
        dk = lambda c: Fx.decide(sk.pc, c)
        W.same('C01', f'{name}: inputs have their assigned bits', sk, mget(em, W.gid(k), dk), some(bit(k)))
        n = mget(nm, W.gid(k), dk)
        W.need('C03', f'{name}: every later use is counted', sk, band(isvar(n, 'Some'), le(seq_len(deps(W.gid(k))), getfield(n, 'Some', 0, '0'))))
        for g in tracked:
            M.em[g] = some(val(g)) if g is not gate['g'] else NONE
            M.nm[g] = mget(nm, g, dec)
        M.evaluate(s, x)
        M.em = {g: (some(bit(idn(g))) if e is not NONE and g is not gate['g'] else e) for g, e in M.em.items()}
        e1, n1 = M.maps()
        ip.writeref(s, args[pos['em']], e1)
        ip.writeref(s, args[pos['nm']], n1)
        return ok(UNIT)
    W.ip.hooks[fn['id']] = contract
    mark = len(W.ip.obls)
    v = W.call(st, W.eval_output, evr, W.refto(st, X))
    W.driver = (N, idx, X, outpat)
    if st.dead:
        W.open.append(('C03', f'{name}: returns', 'never returns', None))
        return W, W.eval_output
    W.obligations('C03', name, mark)
    W.need('C03', f'{name}: succeeds', st, isvar(v, 'Ok'))
    got = as_seq(Fx.prune(okv(v), st.pc))
    W.same('C01', f'{name}: values of the outputs in order', st, got, seq(*[el(val(o) if o is gate['g'] else bit(idn(o))) for o in outs]))
    W.result = (st, v)
    return W, W.eval_output


def witness_n(W, pid):
    """ground instances of driver_n: circuits that only have inputs"""
    N, idx, X, outpat = W.driver
    if 'g' in outpat:
        return None
    st, v = W.result
    ks = sorted({k + d for k in consts_in([v] + list(st.pc)) if k < 2 ** 20 for d in (-1, 0, 1)} | {0, 1, 2, 3})
    for n in [k + 1 for k in ks] + [max(ks) + 3]:
        if n < 1:
            continue
        for t in ks:
            for s in (ks if 's' in outpat else (0,)):
                if t >= n or s >= n or len(set(outpat)) > 1 and s == t:
                    continue
                m = {N: I(n), idx['t']: I(t), idx['s']: I(s)}
                for b in (TRUE, FALSE):
                    r = subst(v, m)
                    r = subst(r, {mk('at', X, I(i)): b for i in {t, s}})
                    r = Fx.prune(rewrite(r, lambda x: b if x.op == 'at' and x.args[0] is X else None), ())
                    desc = f"circuit with {n} inputs whose outputs are inputs {', '.join(str(t if c == 't' else s) for c in outpat)}, all inputs {str(b).lower() if isinstance(b, bool) else b is TRUE}"
                    if r.op != 'adt':
                        continue
                    if r.args[1] == 'Err':
                        if pid == 'C03':
                            return f'evaluation fails; {desc}'
                        continue
                    got = as_seq(okv(r))
                    if got.op == 'seq' and all(x.op == 'el' and x.args[0] in (TRUE, FALSE) for x in got.args):
                        if [x.args[0] for x in got.args] != [b] * len(outpat) and pid == 'C01':
                            return f'outputs are {[x.args[0] is TRUE for x in got.args]}; {desc}'
    return None


# -------------------------------------------------------------- refutation
def denote(H, ci, ins):
    """values of all gates of circuit ci on the given input values"""
    vals, outs = [], []
    k = 0
    for x in H.log:
        if x[0] != ci or x[1] == 'sub':
            continue
        op, a = x[1], x[2:]
        n = 1
        if len(a) and isinstance(a[-1], str) and a[-1].startswith('repeated'):
            raise Unsupported('repeated steps')
        if op == 'input':
            vals.append(ins[k])
            k += 1
        elif op == 'constant':
            vals.append(TRUE if a[0] else FALSE)
        elif op == 'output':
            if a[0] < len(vals):
                outs.append(vals[a[0]])
        elif op == 'module':
            vals += denote(H, a[0], [vals[i] for i in a[1]])[1]
        else:
            y = [vals[i] for i in a]
            vals.append({'not': bnot, 'identity': lambda p: p, 'xor': bxor, 'and': band, 'or': bor, 'equivalent': beq}[op](*y))
    return vals, outs


def try_circuit(H, tag=''):
    """evaluate the outer circuit twice; (property, message) of a definite failure"""
    W, st = H.W, H.st
    W.ip.inline_rec = True
    nin = H.cs[0]['nin']
    ev = W.refto(st, W.call(st, find(W, 'new', EV), W.cref(H.cs[0]['cell'])))
    fn = W.anyfn('eval_output', EV, 'BoolEvaluator')
    mods = any(x[1] == 'module' for x in H.log)
    pv = 'C02' if mods else 'C01'
    for rnd in range(2):
        xs = [sym(f'x{rnd}.{i}') for i in range(nin)]
        mark = len(W.ip.obls)
        v = W.call(st, fn, ev, W.refto(st, seq(*[el(x) for x in xs])))
        for o in W.ip.obls[mark:]:
            if o['cond'] is FALSE and all(p is TRUE for p in o['pc']):
                return 'C03', f"evaluation panics ({o['kind']}); {H.desc()}", fn
        if st.dead:
            return 'C03', f'evaluation panics; {H.desc()}', fn
        if v.op == 'adt' and v.args[1] == 'Err':
            return 'C03', f'evaluation fails with {show(v)[:100]}; {H.desc()}', fn
        want = denote(H, 0, xs)[1]
        got = as_seq(Fx.prune(okv(v), st.pc))
        gl = isint(seq_len(got))
        if gl is not None and gl != len(want):
            return pv, f'{gl} output values instead of {len(want)}; {H.desc()}', fn
        if gl is None or any(s.op != 'el' for s in got.args):
            raise Unsupported('outputs not resolved')
        for i, (g, w) in enumerate(zip(got.args, want)):
            if g.args[0] is not w:
                a = differ(g.args[0], w, xs)
                if a is not None:
                    return pv, f"output {i} is wrong on inputs {''.join(str(int(b)) for b in a)}{' (second evaluation)' if rnd else ''}; {H.desc()}", fn
    return None


def differ(a, b, xs):
    rng = random.Random(7)
    n = len(xs)
    asgs = list(itertools.product((0, 1), repeat=n)) if n <= 6 else [[rng.randrange(2) for _ in xs] for _ in range(64)]
    for s in asgs:
        m = {x: (TRUE if v else FALSE) for x, v in zip(xs, s)}
        p, q = subst(a, m), subst(b, m)
        if {p, q} == {TRUE, FALSE}:
            return s
    return None


def big(k):
    """ground circuits with something of size k"""
    pre = [(0, 'input'), (0, 'input'), (0, 'constant', 1)]
    yield pre + [(0, 'not', 0)] * k + [(0, 'output', 0), (0, 'output', 3), (0, 'output', k + 2)]
    yield pre + [(0, 'not', i % 2) for i in range(k)] + [(0, 'output', i) for i in range(3, k + 3)]
    yield pre + [(0, 'output', 0)] * k + [(0, 'xor', 0, 1), (0, 'output', 3)]
    yield pre + [(0, 'not', i + 2) for i in range(k)] + [(0, 'output', k + 2), (0, 'output', 2)]
    yield pre + [(0, 'input')] * k + [(0, 'output', 2 + k), (0, 'output', 3), (0, 'xor', k + 2, k + 1), (0, 'output', 3 + k)]
    yield pre + [(0, 'constant', i % 2) for i in range(k)] + [(0, 'and', 0, k + 2), (0, 'xor', 3 + k, k + 1), (0, 'output', k + 4), (0, 'output', k + 1)]
    sub = [(0, 'sub'), (1, 'input'), (1, 'not', 0)]
    yield sub + [(1, 'output', i % 2) for i in range(k)] + pre + [(0, 'module', 1, [1])] + [(0, 'output', i + 3) for i in range(k)]
    yield sub + [(1, 'output', 1)] + pre + [(0, 'module', 1, [2 if i == 0 else i + 2]) for i in range(k)] + [(0, 'output', k + 2)]
    yield [(0, 'sub')] + [(1, 'input')] * k + [(1, 'xor', 0, k - 1), (1, 'output', k), (1, 'output', k - 1)] + pre + [(0, 'module', 1, [i % 3 for i in range(k - 1)] + [1]), (0, 'output', 3), (0, 'output', 4)]
    yield [(0, 'sub')] + [(1, 'input')] * k + [(1, 'xor', 0, k - 1), (1, 'output', k), (1, 'output', k - 1), (1, 'output', k // 2), (1, 'output', k - 2)] + \
        pre + [(0, 'module', 1, [(i * i + i // 2) % 3 for i in range(k - 1)] + [1]), (0, 'output', 6), (0, 'output', 5), (0, 'output', 4), (0, 'output', 3)]
    yield [(0, 'sub')] + [(1, 'input')] * k + [(1, 'output', i) for i in range(k)] + [(0, 'input')] * k + [(0, 'module', 1, list(range(k)))] + [(0, 'output', 2 * k - 1 - i) for i in range(k)]
    yield sub + [(1, 'output', (i + (i > k // 2)) % 2) for i in range(k)] + pre + [(0, 'module', 1, [1]), (0, 'output', k + 2), (0, 'output', 3)]
    # nesting depth k
    if k <= 70:
        yield [(0, 'sub')] * k + [x for i in range(k, 0, -1) for x in ([(i, 'input')] + ([(i, 'not', 0), (i, 'output', 1)] if i == k else [(i, 'module', i + 1, [0]), (i, 'output', 1)]))] + pre + [(0, 'module', 1, [1]), (0, 'output', 3)]


def curated():
    pre = [(0, 'input'), (0, 'input'), (0, 'constant', 0), (0, 'constant', 1)]
    two = [(0, 'sub'), (1, 'input'), (1, 'input'), (1, 'constant', 1), (1, 'xor', 0, 1), (1, 'and', 0, 2), (1, 'output', 3), (1, 'output', 1), (1, 'output', 4), (1, 'output', 3)]
    for o in ('xor', 'and', 'or', 'equivalent'):
        for a in range(4):
            for b in range(4):
                yield pre + [(0, o, a, b), (0, 'output', 4)]
                yield pre + [(0, o, a, b), (0, 'not', 4), (0, o, 4, 5), (0, 'output', 5), (0, 'output', 4), (0, 'output', a), (0, 'output', 6), (0, 'output', 4)]
    for a in range(4):
        for b in range(4):
            yield two + pre + [(0, 'module', 1, [a, b])] + [(0, 'output', i) for i in (7, 5, 4, 6, a, b)]
            yield two + pre + [(0, 'not', 0), (0, 'module', 1, [a, 4]), (0, 'module', 1, [5, 8]), (0, 'module', 1, [4, b])] + [(0, 'output', i) for i in (12, 4, 16, 15, 5, 9, 10, 11)]
    # nested: circuit 1 calls 2 twice with swapped operands
    yield [(0, 'sub'), (0, 'sub'), (2, 'input'), (2, 'input'), (2, 'not', 1), (2, 'and', 0, 2), (2, 'output', 3),
           (1, 'input'), (1, 'input'), (1, 'module', 2, [0, 1]), (1, 'module', 2, [1, 0]), (1, 'or', 2, 3), (1, 'output', 4), (1, 'output', 2), (1, 'output', 3)] + \
        pre + [(0, 'module', 1, [0, 1]), (0, 'module', 2, [4, 0])] + [(0, 'output', i) for i in range(8)]


def rich():
    """calls of sub-circuits of every small shape: pass-through, constant and
    computed outputs, repeated and rotated operands, all outputs observed"""
    pre = [(0, 'input'), (0, 'input'), (0, 'input'), (0, 'constant', 1)]
    for nin in range(6):
        for nout in range(1, 5):
            sub = [(0, 'sub')] + [(1, 'input')] * nin + [(1, 'constant', 1)]
            vals = list(range(nin + 1))
            for j in range(max(2, nout)):
                sub.append((1, ('xor', 'and', 'or')[j % 3], (j * 2 + 1) % len(vals), (len(vals) - 1 - j) % len(vals)))
                vals.append(len(vals))
            for rot in range(2):
                outs = [(1, 'output', (rot * 2 + len(vals) - 1 - j * 3) % len(vals)) for j in range(nout)]
                for pat in range(5):
                    ops = [[i % 3, 2 - i % 3, 1, (i * 2 + (i == 3)) % 4, 4 + (i > 1)][pat] for i in range(nin)]
                    calls = [(0, 'not', 1), (0, 'xor', 0, 2), (0, 'module', 1, ops), (0, 'module', 1, [ops[-1 - i] if i % 2 else ops[i] for i in range(nin)])]
                    n = 6 + 2 * nout
                    yield sub + outs + pre + calls + [(0, 'output', n - 1 - i) for i in range(n)] + [(0, 'output', 6)]


def sized(ks):
    """compositions of the sizes in the source: just beyond each first, deep
    nestings last"""
    late = []
    for d in (1, 0, -1):
        for k in ks:
            if k <= 66 or d == 1:
                ps = list(big(max(2, k + d)))
                if k <= 70:
                    late.append(ps.pop())
                yield from ps
    yield from late


def ground_programs(ks, seed, n):
    yield from curated()
    yield from sized(ks)
    yield from rich()
    for w in range(n):
        rng = random.Random(seed * 7919 + w)
        prog = [s[:-1] for s in random_walk(rng, 14 + w % 4 * 8)]
        prog = [s for s in prog if s[1:] != ('output', 99)]
        yield (prog, rng)


def fold(x):
    """value of a literal integer expression, or None"""
    if not isinstance(x, dict):
        return None
    if x.get('k') == 'lit' and x.get('lk') == 'int':
        try:
            return int(x['v'])
        except (TypeError, ValueError):
            return None
    for key in ('e', 'x'):
        if x.get('k') in ('cast', 'use', 'scope', 'block') and isinstance(x.get(key), dict):
            return fold(x[key])
    if x.get('k') == 'bin':
        l, r = fold(x.get('l')), fold(x.get('r'))
        if l is None or r is None:
            return None
        o = x.get('op')
        if o == 'Shl' and r < 64:
            return l << r
        return {'Mul': l * r, 'Add': l + r, 'Sub': l - r}.get(o)
    return None


WORDS = ({'k': 'int', 'n': 'u16'}, {'k': 'int', 'n': 'i16'})
BYTES = ({'k': 'int', 'n': 'u8'}, {'k': 'int', 'n': 'i8'})


def literals(J, names=('evaluator', 'bool_circuit'), hi=66):
    """integer literals in the functions under analysis (a cast to a byte
    counting as 256): sizes worth composing"""
    out = set()
    fns = J['fns'].values() if isinstance(J['fns'], dict) else J['fns']
    for f in fns:
        if '::test' in f['path'] or not any(n in f['path'] for n in names):
            continue
        st = [f['body']]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                v = fold(x)
                if v is not None:
                    out.add(abs(v))
                if x.get('k') == 'cast' and x.get('t') in BYTES:
                    out.add(256)
                if x.get('k') == 'cast' and x.get('t') in WORDS:
                    out.add(65536)
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
    return sorted(k for k in out if 4 <= k <= hi)


_hits = {}


def refute(c, own, only=None):
    ks = literals(c.J)[:4] + [k for k in literals(c.J, hi=600) if k > 66][:3]
    t0 = time.time()
    n = 0
    hits = {}
    lim = (400 if c.thorough else 150) + (200 if max(ks, default=0) > 40 else 0)
    for prog in ground_programs(ks, c.seed, 1500 if c.thorough else 400):
        if time.time() - t0 > lim:
            break
        rng = None
        if isinstance(prog, tuple):
            prog, rng = prog
        sz = loops.sizes(len(prog) + 20, 40)
        sz.__enter__()
        H = Hist(c.J)
        try:
            for s in prog:
                R = H.step(*s)
                if R is not None and R.st.dead:
                    raise Unsupported('construction panics')
            if rng is not None:
                m = len(H.cs[0]['ids'])
                for _ in range(rng.randrange(1, 5)):
                    H.step(0, 'output', rng.randrange(m))
            n += 1
            r = try_circuit(H)
            if r and r[0] == 'C03' and own and only == ('C02' if any(x[1] == 'module' for x in H.log) else 'C01'):
                r = (only,) + r[1:]       # the value this property promises is never delivered
            if r and r[0] not in hits:
                hits[r[0]] = r
                if only in hits or only is None:
                    break
        except Unsupported:
            continue
        finally:
            sz.__exit__()
    c.count('ground circuits composed', n)
    return hits


def analyse(c):
    """all arms and drivers; returns (open obligations, number proved, undecided labels)"""
    J = c.J
    op, und = [], []
    done = 0
    fn = None
    for a in arms(literals(J, ('evaluator',))):
        try:
            for W, fn in cases(lambda o: arm(J, *a, o)):
                op += [(x, W.egate[0]) for x in W.open]
                done += W.done
                c.count('evaluation arms')
        except Unsupported as x:
            und.append((a[0] + ' arm', str(x)))
        except Missing as x:
            c.bad('evaluator', f'public operation {x} is missing')
            return op, done, und
        if len(und) > 6:
            break
    for nin, pat in drivers([]):
        try:
            for W, f2 in cases(lambda o: driver(J, nin, pat, o)):
                op += [(x, f2) for x in W.open]
                done += W.done
                c.count('evaluation drivers')
        except Unsupported as x:
            und.append(('eval_output', str(x)))
        except Missing as x:
            c.bad('evaluator', f'public operation {x} is missing')
            return op, done, und
        if len(und) > 12:
            break
    return op, done, und


def siblings(c):
    """the evaluation finds the sibling outputs of a call by id: they are
    consecutive in output order, and each knows its position"""
    out, done = [], 0
    for kw in [{}] + [dict(arity=i, nout=o) for i in range(3) for o in range(1, 4)]:
        W = World(c.J)
        R = run_op(W, 'module', **kw)
        st, r = R.st, okv(R.v)
        if R.cout is None:
            k = fresh('k', True)
            ps = [(k, (isvar(R.v, 'Ok'), lt(k, R.nout)))]
        else:
            ps = [(I(i), (isvar(R.v, 'Ok'),)) for i in range(R.cout)]
        for k, pc in ps:
            lv = prove(tuple(st.pc) + pc, eq0(sub(sub(idn(seq_at(r, k)), idn(seq_at(r, ZERO))), k)))
            if lv:
                out.append((('C02', 'ids of the outputs of a call are consecutive', show(lv[0][1])[:150], lv), R.fn))
            else:
                done += 1
    return out, done


def decide(c, pid):
    op, done, und = analyse(c)
    if pid == 'C02':
        try:
            o, d = siblings(c)
            op += o
            done += d
        except Unsupported as x:
            und.append(('ids of the outputs of a call', str(x)))
        except Missing:
            pass
    for pat in ('t', 'tt', 'ts', 'tst', 'g', 'gt', 'tg', 'gtg'):
        try:
            for W, f2 in cases(lambda o: driver_n(c.J, pat, o)):
                mine = [x for x in W.open if x[0] == pid]
                w = witness_n(W, pid) if mine and hasattr(W, 'result') else None
                if w:
                    c.bad('evaluation', w, loc_of(f2))
                    return
                op += [(x, f2) for x in W.open]
                done += W.done
                c.count('evaluation drivers')
        except Unsupported as x:
            und.append(('eval_output with any number of inputs', str(x)))
        except Missing:
            break
    lits = literals(c.J, ('evaluator',), 600)
    if pid == 'C02':
        own = [x for x in op if x[0][0] == 'C02']
    else:
        own = [x for x in op if x[0][0] == pid]
    c.count('facts proved', done)
    hits = {}
    if own or und or lits or (pid == 'C03' and op):
        hits = refute(c, own, only=pid)
    if pid in hits:
        _, msg, fn = hits[pid]
        c.bad('evaluation', msg, loc_of(fn))
        return
    names = {}
    for (p, name, why, lv), fn in own:
        names.setdefault(name, (why, fn))
    for name, (why, fn) in list(names.items())[:12]:
        c.und(name, why, loc_of(fn))
    for name, why in und[:8]:
        c.und(name, 'not summarised: ' + why)
    if not own and not und:
        c.ok('gate evaluation', 'every arm meets the contract for every circuit and memo state')
        c.ok('eval_output', 'seeds and outputs meet the contract')


EXPL = ('Each arm of the recursive gate evaluation and the driver are summarised from the typed IR on an arbitrary circuit and memo state, with recursive calls replaced by their '
        'contract (value recorded, outstanding uses not below the count, entries still needed kept); the post-state is proved to meet the same contract. An unproved arm is '
        'reported only with a circuit on which the composed transfer functions definitely give a wrong value, an error or a panic.')


def notes(c):
    c.extra['explanation'] = EXPL
    c.assumptions.append('circuit well-formed: acyclic by construction (C05), dependents count every use (C06), sub-circuits called with as many operands as inputs')
    c.assumptions.append('driver: up to 3 inputs and 3 outputs symbolically; module arm up to 3 operands and 3 outputs, all aliasing patterns')


@check('C01')
def c01(c):
    notes(c)
    decide(c, 'C01')


@check('C02')
def c02(c):
    notes(c)
    decide(c, 'C02')


@check('C03')
def c03(c):
    notes(c)
    decide(c, 'C03')
