"""C12, C13 (proof): the arms of the recursive gate writing, the writing of all
gates of a circuit and the driver, each on an arbitrary circuit and writer
state, with the calls between them replaced by their contracts:

  write one gate x     needs x not on a wire; afterwards x is on a wire, every gate
                       that was on a wire still is on the same one, k >= 0 lines
                       were appended, both counters grew by k
  write all gates      of the circuit the writer holds: afterwards every output is
                       on a wire, its constants took the next constant wires
"""
import itertools
from terms import *
import terms as Tm
import facts as Fx
from interp import Unsupported, St
from build import Missing, find_fn
from c_circ import World, idn, patterns
from c_eval import EWorld, gate_value, calls_itself, cases, GATES, idn_w, val
from c_write import WR, Sink, new_writer, ARITY
import models

OPNAME = {'Not': ('INV', 'NOT'), 'Xor': ('XOR',), 'And': ('AND',), 'Or': ('OR',)}
MUT = ('num_wire', 'last_const_wire', 'gate_lines', 'num_gate_line')


def base(t):
    return t.get('t', {}) if t.get('k') == 'ref' else t


def role(t):
    b = base(t)
    if b.get('k') != 'adt':
        return None
    n = b['p'].split('::')[-1]
    if n in ('HashMap', 'BTreeMap'):
        return 'wm' if base(b['a'][0]).get('p', '').endswith('GateId') else 'cm' if b['a'][1].get('k') == 'bool' else None
    return {'GateId': 'id', 'NXAOBoolGate': 'gate', WR: 'self'}.get(n)


def recursive_write(J):
    """(write one gate, write all gates): the recursive methods of the writer"""
    one = all_ = None
    fns = list(J['fns'].values() if isinstance(J['fns'], dict) else J['fns'])
    for f in fns:
        if WR not in f['path'] or '::test' in f['path']:
            continue
        rs = [role(p.get('t') or {}) for p in f['params']]
        if None in rs or 'self' not in rs or 'wm' not in rs or not calls_itself(f, fns):
            continue
        if 'id' in rs and 'gate' in rs:
            one = (f, rs)
        elif 'id' not in rs and 'gate' not in rs:
            all_ = (f, rs)
    if not one or not all_:
        raise Unsupported('no pair of recursive writing functions')
    return one, all_


class PW(World):
    need, same, obligations, hook = EWorld.need, EWorld.same, EWorld.obligations, EWorld.hook

    def __init__(self, J, oracle):
        super().__init__(J)
        self.open, self.done = [], 0
        self.one, self.all = recursive_write(J)
        self.oracle = oracle
        self.nblk = 0
        self.K = self.gid(sym('Kany', True))
        self.wd = [d for d in self.ip.adts if d.split('::')[-1] == WR][0]
        self.wfs = [f[0] for f in self.ip.adts[self.wd]['vs'][0]['fs']]
        if any(n not in self.wfs for n in MUT) or 'c_ref' not in self.wfs:
            raise Unsupported('fields of the writer')

    def blk(self):
        self.nblk += 1
        return mk('disp', mk('blk', self.nblk))

    def writer(self, st, cref, **over):
        self.w0 = dict(num_wire=sym('nw', True), last_const_wire=sym('lc', True), gate_lines=mk('str', self.blk()), num_gate_line=sym('nl', True))
        self.w0.update(over)
        v = {**self.w0, 'c_ref': cref}
        self.lc = self.w0['last_const_wire']
        self.cmb = fresh('CM')
        fs = []
        for n in self.wfs:
            fs.append(v.get(n) or mk('adt', 'Sink', ''))
        self.wcell = self.ip.alloc(st, mk('adt', self.wd, WR, *fs))

    def wf(self, st, n):
        return self.f(self.ip.readcell(st, self.wcell), n)

    def setw(self, st, **kw):
        v = self.ip.readcell(st, self.wcell)
        st.cells[self.wcell] = mk('adt', self.wd, WR, *[kw.get(n) if n in kw else self.f(v, n) for n in self.wfs])

    def choose(self):
        o = self.oracle
        if o.pos == len(o.bits):
            o.bits.append(False)
        o.pos += 1
        return o.bits[o.pos - 1]

    def newmap(self):
        self.bm = fresh('WM')
        m = self.bm
        for g, w in self.wm.items():
            m = mset(m, g, w)
        return m

    def frame(self, st, m, what):
        s = St(pc=tuple(st.pc) + tuple(bnot(eq0(sub(idn(self.K), idn(g)))) for g in self.wm))
        self.same('C12', f'{what}: other gates keep their wires', s, mget(m, self.K, lambda c: Fx.decide(s.pc, c)), mget(self.bm, self.K))
        for g, w in self.wm.items():
            self.same('C12', f'{what}: known gates keep their wires', st, mget(m, g, lambda c: Fx.decide(st.pc, c)), w)

    def grow(self, st, consts=ZERO):
        """effect of writing some lines"""
        k = fresh('k', True)
        self.setw(st, num_wire=add(self.wf(st, 'num_wire'), k), num_gate_line=add(self.wf(st, 'num_gate_line'), k),
                  gate_lines=strcat(mk('str'), models.astext(self.wf(st, 'gate_lines')), self.blk()), last_const_wire=add(self.wf(st, 'last_const_wire'), consts))
        self.lc = self.wf(st, 'last_const_wire')
        return k

    def consts_kept(self, s, cm, what):
        """the values of constants recorded so far, and their wires, are as the last callee left them"""
        self.need('C13', f'{what}: recorded constants are kept', s, B(Fx.prune(cm, s.pc) is self.cmb))
        self.same('C13', f'{what}: constant wires are counted', s, self.wf(s, 'last_const_wire'), self.lc)

    def args(w_, f, roles, st, **v):
        out = []
        for p, r in zip(f['params'], roles):
            x = v[r]
            ref = (p.get('t') or {}).get('k') == 'ref'
            out.append(x if not ref or x.op == 'ref' else w_.refto(st, x))
        return out

    def contract_one(self, frozen=(), inner=None):
        """hook for the writing of one gate"""
        f, roles = self.one
        pos = {r: i for i, r in enumerate(roles)}

        def h(ip, s, f_, args, ty):
            x, g = ip.deref_val(s, args[pos['id']]), ip.deref_val(s, args[pos['gate']])
            m = Fx.prune(ip.deref_val(s, args[pos['wm']]), s.pc)
            what = self.name + ': before an operand is written'
            if x not in self.wm:
                raise Unsupported('writing of ' + show(x)[:60])
            if ip.readref(s, args[pos['self']]).op != 'adt' or args[pos['wm']].op != 'ref':
                raise Unsupported('writer or map is not passed by reference')
            self.frame(s, m, what)
            self.same('C12', f'{what}: the gate belongs to the id', s, g, self.gate_of(x))
            self.same('C13', f'{what}: the writer is on the circuit of the gate', s, self.f(ip.readref(s, args[pos['self']]), 'c_ref'), self.cur)
            self.need('C12', f'{what}: the gate is not yet on a wire', s, isvar(mget(m, x, lambda c: Fx.decide(s.pc, c)), 'None'))
            if 'cm' in pos:
                self.consts_kept(s, ip.deref_val(s, args[pos['cm']]), what)
            self.grow(s, fresh('cc', True))
            nw = self.wf(s, 'num_wire')
            for y in list(self.wm):
                if self.wm[y] is NONE and y not in frozen and (y is x or self.choose()):
                    w = fresh('w', True)
                    s.assume(lt(w, nw))
                    self.wm[y] = some(w)
            ip.writeref(s, args[pos['wm']], self.newmap())
            self.cmb = fresh('CM')
            if 'cm' in pos:
                ip.writeref(s, args[pos['cm']], self.cmb)
            return ok(UNIT)
        return f['id'], h

    def tokens(self, v):
        """lines of the text written last, each a list of tokens (strings or numbers)"""
        parts = list(v.args) if v.op == 'str' else [v]
        last = -1
        for i, p in enumerate(parts):
            if type(p) is not str and p.op == 'disp' and p.args[0].op == 'blk':
                last = i
        lines, cur, glue = [], [], False
        for p in parts[last + 1:]:
            if type(p) is str:
                for j, l in enumerate(p.split('\n')):
                    if j:
                        lines.append(cur)
                        cur, glue = [], False
                    ws = l.split()
                    if ws and glue and l[:1] not in (' ', '\t'):
                        raise Unsupported('number and text are not separated')
                    cur += ws
                    if l:
                        glue = not l[-1:].isspace()
            else:
                if p.op != 'disp' or glue:
                    raise Unsupported('text of a line')
                cur.append(p.args[0])
                glue = True
        return parts[:last + 1], lines, cur


def diff_classes(st, xs):
    for a, b in itertools.combinations(xs, 2):
        st.assume(bnot(eq0(sub(idn(a), idn(b)))))


def arm(J, kind, pat, present, oracle, nout=1, oi=0):
    """writing one gate"""
    W = PW(J, oracle)
    st = W.st.copy()
    st.force()
    cls = [W.gid(sym('o%d' % i, True)) for i in range(len(present))]
    ops = [cls[i] for i in pat]
    f0 = sym('u', True)
    outs = [W.gid(add(f0, I(i))) for i in range(nout)]
    u = outs[oi]
    diff_classes(st, cls)
    for a in cls:
        for b in outs:
            st.assume(bnot(eq0(sub(idn(a), idn(b)))))
    W.name = name = f'{kind} gate' + (f' operands {pat}' if len(set(pat)) < len(pat) or kind == 'Module' else '') + f' known {[int(p) for p in present]}' + (f', output {oi} of {nout}' if kind == 'Module' else '')
    W.ccell = W.circuit(st)
    W.cur = W.cref(W.ccell)
    W.writer(st, W.cur)
    nw0, nl0 = W.w0['num_wire'], W.w0['num_gate_line']
    W.wm = {}
    for i, (x, p) in enumerate(zip(cls, present)):
        w = sym('w%d' % i, True)
        if p:
            st.assume(lt(w, nw0))
        W.wm[x] = some(w) if p else NONE
    for o in outs:
        W.wm[o] = NONE
    kw = {}
    mid = W.mid(sym('M', True))
    mcell = None
    if kind == 'Module':
        mcell = W.circuit(st, tag='m.')
        kw = dict(input_len=I(len(ops)), output_len=I(nout), input_ids=seq(*[el(o) for o in ops]), out_index=I(oi), module_id=mid)
    ga = gate_value(W, kind, ops, None, **kw)
    W.gate_of = lambda x: getfield(mget(sym('GATES'), x), 'Some', 0, '0')
    inner_in = [W.gid(sym('a%d' % i, True)) for i in range(len(ops))]
    inner_out = [W.gid(sym('b%d' % i, True)) for i in range(nout)]

    def get_module(s, a):
        if a[0] is mid and mcell is not None:
            return ok(W.cref(mcell))
        raise Unsupported('unknown module looked up')

    def in2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic input wire')
        # the wires of the inputs may be separated by wires of outputs
        if w in layout:
            return ok(some(inner_in[layout.index(w)]))
        return ok(NONE) if w < (layout[-1] if layout else 0) + 2 else err(sym('e'))

    def out2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic output wire')
        return ok(inner_out[w]) if w < nout else err(sym('e'))
    layout = [i + (i > 0) for i in range(len(ops))]
    for n, h in {'get_gate': lambda s, a: ok(ga) if a[0] is u else ok(W.gate_of(a[0])), 'get_module': get_module,
                 'input_to_gate_id': in2g, 'output_to_gate_id': out2g, 'input_len': lambda s, a: I(len(ops)), 'output_len': lambda s, a: I(nout)}.items():
        W.hook(n, h)
    if kind == 'Module':
        diff_classes(st, inner_in)
    mcell_map = W.ip.alloc(st, W.newmap())
    ccell_map = W.ip.alloc(st, W.cmb)
    f1, r1 = W.one
    fid, h1 = W.contract_one(frozen=outs)
    W.ip.on_recursion = lambda ip, s, f, args, ty: h1(ip, s, f, args, ty) if f['id'] == fid else NotImplemented
    fa, ra = W.all
    pos = {r: i for i, r in enumerate(ra)}
    calls = []

    def hall(ip, s, f, args, ty):
        m = Fx.prune(ip.deref_val(s, args[pos['wm']]), s.pc)
        wv = ip.readref(s, args[pos['self']])
        W.same('C12', f'{name}: the called circuit is written', s, W.f(wv, 'c_ref'), W.cref(mcell) if mcell is not None else UNIT)
        if not all(W.wm[o] is not NONE for o in ops):
            raise Unsupported('module written before its operands')
        for a, o in zip(inner_in, ops):
            W.same('C12', f'{name}: operands are connected in order', s, mget(m, a, lambda c: Fx.decide(s.pc, c)), W.wm[o])
        calls.append(1)
        if 'cm' in pos:
            W.consts_kept(s, ip.deref_val(s, args[pos['cm']]), f'{name}: before the called circuit is written')
        W.grow(s, fresh('cc', True))
        nw = W.wf(s, 'num_wire')
        m2 = fresh('IM')
        W.ow = []
        for b in inner_out:
            w = fresh('ow', True)
            s.assume(lt(w, nw))
            W.ow.append(w)
            s.assume(isvar(mget(m2, b), 'Some'))
            s.assume(eq0(sub(getfield(mget(m2, b), 'Some', 0, '0'), w)))
        W.im = m2
        ip.writeref(s, args[pos['wm']], m2)
        W.cmb = fresh('CM')
        if 'cm' in pos:
            ip.writeref(s, args[pos['cm']], W.cmb)
        return ok(UNIT)
    W.ip.hooks[fa['id']] = hall
    mark = len(W.ip.obls)
    v = W.call(st, f1, *W.args(f1, r1, st, self=W.ip.ref(W.wcell), id=u, gate=ga, wm=W.ip.ref(mcell_map), cm=W.ip.ref(ccell_map)))
    if st.dead:
        W.open.append(('C12', f'{name}: returns', 'never returns', None))
        return W, f1
    W.obligations('C12', name, mark)
    W.need('C12', f'{name}: succeeds', st, isvar(v, 'Ok'))
    W.same('C13', f'{name}: the writer is back on its circuit', st, W.wf(st, 'c_ref'), W.cur)
    m = Fx.prune(W.ip.readcell(st, mcell_map), st.pc)
    dec = lambda c: Fx.decide(st.pc, c)
    nw, nl = W.wf(st, 'num_wire'), W.wf(st, 'num_gate_line')
    W.same('C13', f'{name}: as many wires as lines', st, sub(nw, nw0), sub(nl, nl0))
    W.consts_kept(st, W.ip.readcell(st, ccell_map), name)
    before, lines, rest = W.tokens(models.astext(Fx.prune(W.wf(st, 'gate_lines'), st.pc)))
    W.need('C12', f'{name}: complete lines', st, B(not rest))
    W.need('C12', f'{name}: earlier lines are kept', st, B([p.args[0].args[0] for p in before] == list(range(1, W.nblk + 1))))
    if any(W.wm[o] is NONE for o in ops):
        W.open.append(('C12', f'{name}: operands are written first', 'an operand was not written', None))
        return W, f1
    if kind == 'Module':
        W.need('C12', f'{name}: written by the called circuit', st, B(not lines and calls == [1]))
        for o, b in zip(outs, inner_out):
            W.same('C12', f'{name}: outputs of the call', st, mget(m, o, dec), mget(W.im, b))
    else:
        if len(lines) != 1:
            W.open.append(('C12', f'{name}: one line', f'{len(lines)} lines', None))
            return W, f1
        t = lines[0]
        k = len(ops)
        n = mget(m, u, dec)
        good = len(t) == k + 4 and t[0] == str(k) and t[1] == '1' and t[-1] in OPNAME[kind] and all(isinstance(x, T) for x in t[2:-1])
        W.need('C12', f'{name}: form of the line', st, B(good))
        if good:
            want = [getfield(W.wm[o], 'Some', 0, '0') for o in ops]
            a = band(*[eq0(sub(x, y)) for x, y in zip(t[2:], want)])
            if k == 2:
                a = bor(a, band(*[eq0(sub(x, y)) for x, y in zip(t[2:], want[::-1])]))
            W.need('C12', f'{name}: operand wires', st, a)
            out = t[2 + k]
            W.same('C12', f'{name}: the gate is on the wire of its line', st, n, some(out))
            W.need('C12', f'{name}: the wire is fresh', st, band(eq0(sub(out, sub(nw, ONE)))))
    s = St(pc=tuple(st.pc) + tuple(bnot(eq0(sub(idn(W.K), idn(g)))) for g in W.wm))
    W.same('C12', f'{name}: other gates keep their wires', s, mget(m, W.K, lambda c: Fx.decide(s.pc, c)), mget(W.bm, W.K))
    for o in cls:
        W.same('C12', f'{name}: operands keep their wires', st, mget(m, o, dec), W.wm[o])
    return W, f1


def arms():
    for p in (False, True):
        yield 'Not', (0,), (p,), 1, 0
    for k in ('Xor', 'And', 'Or'):
        for p in itertools.product((False, True), repeat=2):
            yield k, (0, 1), p, 1, 0
        for p in (False, True):
            yield k, (0, 0), (p,), 1, 0
    for ar in range(4):
        for pat in patterns(ar):
            for p in itertools.product((False, True), repeat=len(set(pat))):
                for no in range(1, 4):
                    for oi in range(no):
                        yield 'Module', pat, p, no, oi


# --------------------------------------------------------------- all gates
def all_gates(J, outs, gates, nconst, oracle):
    """writing all gates of a circuit; outs: classes of its outputs, gates: for
    each class ('in' | 'const i' | kind, operand classes, known)"""
    W = PW(J, oracle)
    st = W.st.copy()
    st.force()
    ids = [W.gid(sym('g%d' % i, True)) for i in range(len(gates))]
    diff_classes(st, ids)
    W.ccell = W.circuit(st)
    W.cur = W.cref(W.ccell)
    W.writer(st, W.cur)
    W.name = name = 'all gates, ' + ', '.join(f'g{i}={g[0]}{list(g[1])}{"" if g[2] else "?"}' for i, g in enumerate(gates)) + f'; outputs {list(outs)}'
    nw0, nl0, lc0 = W.w0['num_wire'], W.w0['num_gate_line'], W.w0['last_const_wire']
    W.wm = {}
    gv = {}
    values = [sym('v%d' % i) for i in range(nconst)]
    consts = [x for x, g in zip(ids, gates) if g[0] == 'Const']
    for i, (x, g) in enumerate(zip(ids, gates)):
        known = g[2] or g[0] == 'Input'
        w = sym('w%d' % i, True)
        if known and g[0] != 'Const':
            st.assume(lt(w, nw0))
            W.wm[x] = some(w)
        else:
            W.wm[x] = NONE
        if g[0] in ('Input', 'Leaf'):
            gv[x] = getfield(mget(sym('GATES'), x), 'Some', 0, '0')
        elif g[0] == 'Const':
            gv[x] = gate_value(W, 'Const', (), values[consts.index(x)])
        elif g[0] == 'Module':
            gv[x] = gate_value(W, 'Module', (), None, input_len=I(len(g[1])), output_len=sym('mo', True), input_ids=seq(*[el(ids[k]) for k in g[1]]), out_index=sym('oi', True), module_id=W.mid(sym('M', True)))
        else:
            gv[x] = gate_value(W, g[0], [ids[k] for k in g[1]])
    W.gate_of = lambda x: gv.get(x)
    ga = W.d['NXAOBoolGate']
    inp = ga.rsplit('::', 1)[0] + '::InputGate'
    for x, g in zip(ids, gates):
        if g[0] == 'Input':
            gv[x] = Tm.adt(ga, 'Input', Tm.adt(inp, 'InputGate', W.wid(sym('iw', True))))
        elif g[0] == 'Leaf':
            d = W.gid(sym('deep%d' % ids.index(x), True))
            for y in ids:
                st.assume(bnot(eq0(sub(idn(d), idn(y)))))
            gv[x] = gate_value(W, 'Not', [d])
            if ids.index(x) in outs:
                gv[d] = getfield(mget(sym('GATES'), d), 'Some', 0, '0')
                W.wm[d] = NONE

    def get_gate(s, a):
        if a[0] in gv:
            return ok(gv[a[0]])
        raise Unsupported('gate ' + show(a[0])[:40])

    def out2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic output wire')
        return ok(ids[outs[w]]) if w < len(outs) else err(sym('e'))
    for n, h in {'get_gate': get_gate, 'output_to_gate_id': out2g, 'output_len': lambda s, a: I(len(outs)), 'get_const_gates': lambda s, a: seq(*[el(x) for x in consts]),
                 'num_const': lambda s, a: I(nconst)}.items():
        W.hook(n, h)
    mcell = W.ip.alloc(st, W.newmap())
    cm0 = W.cmb
    ccell = W.ip.alloc(st, cm0)
    fid, h1 = W.contract_one()
    started = [False]
    deps = {x: [ids[k] for k in g[1]] for x, g in zip(ids, gates)}

    def const_state(s):
        cm = Fx.prune(W.ip.readcell(s, ccell), s.pc)
        dec = lambda c: Fx.decide(s.pc, c)
        for i in range(nconst):
            W.same('C13', f'{name}: values of the constants', s, mget(cm, add(lc0, I(i)), dec), some(values[i]))
        kc = sym('anywire', True)
        q = St(pc=tuple(s.pc) + tuple(bnot(eq0(sub(kc, add(lc0, I(i))))) for i in range(nconst)))
        W.same('C13', f'{name}: recorded constants are kept', q, mget(cm, kc, lambda c: Fx.decide(q.pc, c)), mget(cm0, kc))
        W.need('C13', f'{name}: constant wires are counted', s, eq0(sub(W.wf(s, 'last_const_wire'), add(lc0, I(nconst)))))

    def one(ip, s, f, args, ty):
        if not started[0]:
            started[0] = True
            const_state(s)
            W.cmb = fresh('CM')
            ip.writeref(s, ip.ref(ccell), W.cmb)
            W.lc = W.wf(s, 'last_const_wire')
            m = Fx.prune(ip.readcell(s, mcell), s.pc)
            dec = lambda c: Fx.decide(s.pc, c)
            for x in consts:
                w = mget(m, x, dec)
                W.need('C12', f'{name}: constants are on wires before any gate is written', s, isvar(w, 'Some'))
                W.wm[x] = w
            W.bm = fresh('WM')
            bm = W.bm
            # entries outside the tracked gates must be untouched so far
            W.first = m
            ip.writeref(s, ip.ref(mcell), W.newmap())
        return h1(ip, s, f, args, ty)
    W.ip.hooks[fid] = one
    fa, ra = W.all
    mark = len(W.ip.obls)
    v = W.call(st, fa, *W.args(fa, ra, st, self=W.ip.ref(W.wcell), wm=W.ip.ref(mcell), cm=W.ip.ref(ccell)))
    if st.dead:
        W.open.append(('C12', f'{name}: returns', 'never returns', None))
        return W, fa
    W.obligations('C12', name, mark)
    W.need('C12', f'{name}: succeeds', st, isvar(v, 'Ok'))
    W.same('C13', f'{name}: the writer stays on its circuit', st, W.wf(st, 'c_ref'), W.cur)
    m = Fx.prune(W.ip.readcell(st, mcell), st.pc)
    dec = lambda c: Fx.decide(st.pc, c)
    W.same('C13', f'{name}: as many wires as lines', st, sub(W.wf(st, 'num_wire'), nw0), sub(W.wf(st, 'num_gate_line'), nl0))
    for o in outs:
        w = mget(m, ids[o], dec)
        W.need('C12', f'{name}: every output is on a wire', st, isvar(w, 'Some'))
        if W.wm[ids[o]] is not NONE and started[0]:
            W.same('C12', f'{name}: gates keep their wires', st, w, W.wm[ids[o]])
    for i, x in enumerate(consts):
        W.same('C13', f'{name}: constants take the next constant wires', st, mget(m, x, dec), some(add(lc0, I(i))))
    if not started[0]:
        const_state(st)
    else:
        W.consts_kept(st, W.ip.readcell(st, ccell), name)
    before, lines, rest = W.tokens(models.astext(Fx.prune(W.wf(st, 'gate_lines'), st.pc)))
    W.need('C12', f'{name}: earlier lines are kept', st, B([p.args[0].args[0] for p in before] == list(range(1, W.nblk + 1)) and not lines and not rest))
    return W, fa


def all_runs():
    L = ('Leaf', (), False)
    Lk = ('Leaf', (), True)
    Ig = ('Input', (), True)
    Cg = ('Const', (), False)
    for k in ('Xor', 'And', 'Or'):
        for a in (L, Lk, Ig, Cg):
            for b in (L, Lk, Ig, Cg):
                yield (2,), (a, b, (k, (0, 1), False))
        yield (1,), (L, (k, (0, 0), False))
        yield (1, 0), (L, (k, (0, 0), False))
        yield (0, 1), (L, (k, (0, 0), False))
    for a in (L, Lk, Ig, Cg):
        yield (1,), (a, ('Not', (0,), False))
        yield (0, 1), (a, ('Not', (0,), False))
        yield (0,), (a,)
        yield (0, 0), (a,)
        for n in (1, 2, 3):
            yield (1,), (a, ('Module', (0,) * n, False))
        yield (2, 0, 2), (a, L, ('Module', (1, 0, 1), False))
    yield (), ()
    yield (), (Cg,)
    yield (1,), (Cg, Cg)
    yield (2, 1, 0), (Cg, Cg, Ig)
    yield (0,), (('Module', (), False),)
    yield (2, 3), (L, Cg, ('Xor', (0, 1), False), ('Not', (2,), False))
    yield (3, 2), (L, Cg, ('And', (0, 1), False), ('Not', (2,), False))
    yield (3, 2, 3), (L, Ig, ('Or', (0, 1), False), ('Module', (2, 0), False))


# ------------------------------------------------------------------ driver
def driver(J, nin, ncon, outpat, oracle):
    """write: outpat lists the gates of the outputs, ('i', k) input, ('c', k) constant, ('g', k) other"""
    W = PW(J, oracle)
    st = W.st.copy()
    st.force()
    ins = [W.gid(sym('in%d' % i, True)) for i in range(nin)]
    con = [W.gid(sym('c%d' % i, True)) for i in range(ncon)]
    gs = [W.gid(sym('g%d' % i, True)) for i in range(max([k for t, k in outpat if t == 'g'], default=-1) + 1)]
    outs = [{'i': ins, 'c': con, 'g': gs}[t][k] for t, k in outpat]
    diff_classes(st, ins + con + gs)
    W.ccell = W.circuit(st)
    W.cur = W.cref(W.ccell)
    W.writer(st, W.cur)
    W.name = name = f'write with {nin} inputs, {ncon} constants, outputs {[t + str(k) for t, k in outpat]}'
    layout = [i + (i > 0) for i in range(nin)]
    ga = W.d['NXAOBoolGate']
    inp = ga.rsplit('::', 1)[0] + '::InputGate'

    def in2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic input wire')
        if w in layout:
            return ok(some(ins[layout.index(w)]))
        return ok(NONE) if w < (layout[-1] if layout else 0) + 2 else err(sym('e'))

    def out2g(s, a):
        w = isint(idn_w(a[0]))
        if w is None:
            raise Unsupported('symbolic output wire')
        return ok(outs[w]) if w < len(outs) else err(sym('e'))

    def get_gate(s, a):
        if a[0] in ins:
            return ok(Tm.adt(ga, 'Input', Tm.adt(inp, 'InputGate', W.wid(I(layout[ins.index(a[0])])))))
        raise Unsupported('gate ' + show(a[0])[:40])
    for n, h in {'get_gate': get_gate, 'input_to_gate_id': in2g, 'output_to_gate_id': out2g, 'input_len': lambda s, a: I(nin), 'output_len': lambda s, a: I(len(outs)), 'num_const': lambda s, a: I(ncon)}.items():
        W.hook(n, h)
    sink = Sink(W.ip, st)
    values = [sym('v%d' % i) for i in range(ncon)]
    W.wm = {}
    fa, ra = W.all
    pos = {r: i for i, r in enumerate(ra)}
    ncalls = []

    def hall(ip, s, f, args, ty):
        m = Fx.prune(ip.deref_val(s, args[pos['wm']]), s.pc)
        dec = lambda c: Fx.decide(s.pc, c)
        ncalls.append(1)
        W.same('C13', f'{name}: the writer is on its circuit', s, W.f(ip.readref(s, args[pos['self']]), 'c_ref'), W.cur)
        for i, x in enumerate(ins):
            W.same('C13', f'{name}: inputs are the first wires', s, mget(m, x, dec), some(I(i)))
        for x in con + gs:
            W.need('C12', f'{name}: no gate is on a wire before it is written', s, isvar(mget(m, x, dec), 'None'))
        W.same('C13', f'{name}: constants follow the inputs', s, W.wf(s, 'last_const_wire'), I(nin))
        W.same('C13', f'{name}: gates follow the constants', s, W.wf(s, 'num_wire'), I(nin + ncon))
        W.same('C13', f'{name}: no line is counted yet', s, W.wf(s, 'num_gate_line'), ZERO)
        W.need('C13', f'{name}: no line is kept from before', s, B(models.astext(Fx.prune(W.wf(s, 'gate_lines'), s.pc)) in (mk('str'), seq())))
        W.k = W.grow(s, I(ncon))
        nw = W.wf(s, 'num_wire')
        m2 = fresh('WM')
        cm2 = fresh('CM')
        W.wm = {x: some(I(i)) for i, x in enumerate(ins)}
        for i, x in enumerate(con):
            W.wm[x] = some(I(nin + i))
        for x in gs:
            w = fresh('w', True)
            s.assume(lt(w, nw))
            W.wm[x] = some(w)
        for x, w in W.wm.items():
            m2 = mset(m2, x, w)
        for i in range(ncon):
            cm2 = mset(cm2, I(nin + i), some(values[i]))
        ip.writeref(s, args[pos['wm']], m2)
        ip.writeref(s, args[pos['cm']], cm2)
        return ok(UNIT)
    W.ip.hooks[fa['id']] = hall
    fn = find_fn(W.J, 'write', WR)
    first = sym('first', True)
    st.assume(le(first, I(nin + ncon)))
    mcell = W.ip.alloc(st, EMAP)
    from c_write import write
    mark = len(W.ip.obls)
    fn, v = write(W, st, W.wcell, first, mcell)
    if st.dead:
        W.open.append(('C13', f'{name}: returns', 'never returns', None))
        return W, fn
    W.obligations('C13', name, mark)
    W.need('C13', f'{name}: succeeds', st, isvar(v, 'Ok'))
    W.need('C13', f'{name}: all gates are written once', st, B(len(ncalls) == 1))
    W.same('C13', f'{name}: values of the constants in wire order', st, as_seq(Fx.prune(getfield(v, 'Ok', 0, '0'), st.pc)), seq(*[el(x) for x in values]))
    W.same('C13', f'{name}: the writer stays on its circuit', st, W.wf(st, 'c_ref'), W.cur)
    ws = [getfield(W.wm[o], 'Some', 0, '0') for o in outs]
    k = W.k
    io = W.ip.readcell(st, sink.cell)
    text = Fx.prune(io.args[2], st.pc)
    W.same("C11", f"{name}: everything is flushed", st, text, Fx.prune(io.args[3], st.pc))
    base_ = I(nin + ncon)
    for pc, t in leaves(tuple(st.pc), text):
        s = St(pc=pc)
        before, lines, rest = W.tokens(t)
        # the header stands before the gate lines
        head = mk('str', *before[:-1]) if before else mk('str')
        _, hl, hr = W.tokens(head)
        one = len(before) >= 1 and type(before[-1]) is not str and before[-1].op == 'disp' and before[-1].args[0].op == 'blk'
        W.need('C13', f'{name}: header of four lines, then the gate lines', s, B(one and len(hl) == 4 and not hr and not rest and hl[3] == []))
        if not one or len(hl) != 4 or any(len(l) != n for l, n in zip(hl, (2, 3, 2, 0))):
            W.open.append(('C13', f'{name}: form of the header', 'not of the form described', None))
            continue
        num = lambda x: I(int(x)) if isinstance(x, str) and x.isdigit() else x
        h = [[num(x) for x in l] for l in hl]
        if not all(isinstance(x, T) for l in h for x in l) or not all(len(l) == 5 and l[0] == l[1] == '1' and l[-1] == 'EQW' for l in lines):
            W.open.append(('C13', f'{name}: form of the lines', 'not of the form described', None))
            continue
        nl = add(k, I(len(lines)))
        W.need('C13', f'{name}: number of gate lines', s, eq0(sub(h[0][0], nl)))
        W.need('C13', f'{name}: number of wires', s, eq0(sub(h[0][1], add(base_, nl))))
        W.need('C13', f'{name}: input header', s, band(eq0(sub(h[1][0], I(2))), eq0(sub(h[1][1], first)), eq0(sub(add(h[1][1], h[1][2]), base_))))
        W.need('C13', f'{name}: output header', s, band(eq0(sub(h[2][0], ONE)), eq0(sub(h[2][1], I(len(outs))))))
        total = add(base_, nl)
        val_ = {}
        for i, l in enumerate(lines):
            a, o = num(l[2]), num(l[3])
            W.need('C12', f'{name}: a copy uses a wire with a value', s, lt(a, add(base_, k)))
            W.need('C12', f'{name}: a copy has a fresh wire', s, eq0(sub(o, add(base_, k, I(i)))))
            val_[i] = a
        for j, w in enumerate(ws):
            at = sub(add(total, I(j)), I(len(outs)))       # the wire of output j
            i = isint(sub(at, add(base_, k)))
            if i is not None and i in val_:
                W.need('C13', f'{name}: the last wires are the outputs in order', s, eq0(sub(val_[i], w)))
            else:
                W.need('C13', f'{name}: the last wires are the outputs in order', s, eq0(sub(at, w)))
    m = Fx.prune(W.ip.readcell(st, mcell), st.pc)
    dec = lambda c: Fx.decide(st.pc, c)
    for x, w in W.wm.items():
        W.same('C12', f'{name}: gates keep their wires', st, mget(m, x, dec), w)
    return W, fn


def leaves(pc, t, n=0):
    """split a value on the conditions it holds"""
    t = Fx.prune(t, pc)
    c = next((x.args[0] for x in subterms(t, set()) if x.op == 'ite'), None)
    if c is None or n > 12:
        if c is not None:
            raise Unsupported('conditional text')
        yield pc, t
        return
    for x in (c, bnot(c)):
        q = St(pc=pc)
        q.assume(x)
        if FALSE in q.pc:
            continue
        yield from leaves(tuple(q.pc), t, n + 1)


def drivers():
    cand = [('g', 0), ('g', 1)]
    for nin in range(3):
        for ncon in range(3):
            c = cand + [('i', k) for k in range(nin)] + [('c', k) for k in range(ncon)]
            for m in range(3):
                if m == 2 and nin + ncon == 4:
                    continue
                for p in itertools.product(c, repeat=m):
                    yield nin, ncon, p
    for p in itertools.product(cand, repeat=3):
        yield 3, 3, p
