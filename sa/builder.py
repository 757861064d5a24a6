"""Abstract BoolCircuit: what a generic builder sees.  A circuit under
construction is a heap cell adt('Circ','', cid, nin, outs); every gate id is a
tagged boolean function adt('GB','', cid, value) of the circuit's inputs."""
from terms import *
import terms as Tm
from interp import Interp, Unsupported
import models
import loops

CR = 'circuit_converters::bool_circuit::BoolCircuitRef'
GID = 'circuit_converters::gates::GateId'


def inp(cid, i):
    return mk('in', I(cid) if isinstance(cid, int) else cid, i)


def gb(cid, v):
    return mk('adt', 'GB', '', cid, v)


def find_adt(ip, name):
    ds = [d for d in ip.adts if d.split('::')[-1] == name]
    return ds[0] if ds else None


def ret_parts(t, f):
    if t.get('k') == 'tuple':
        n = len(t.get('a') or t.get('ts') or [])
        return mk('adt', 'tuple', '', *[f(i) for i in range(n)])
    return f(None)


class Session:
    def __init__(self, J):
        self.ip = ip = Interp(J)
        self.mods = {}          # mid int -> heap cell
        self.cellmid = {}
        self.contracts = {}
        self.ncid = 0
        self.st = None
        ip.trait_model = self.trait
        self.d_ref = find_adt(ip, 'BoolCircuitRef')
        self.d_mid = find_adt(ip, 'ModuleId')
        self.d_wire = find_adt(ip, 'WireId')
        self.foreign = []
        self.usum = {}
        ip.on_recursion = self.recursion
        self.modcalls = []

    # ---- recursive pure functions become uninterpreted applications whose
    # definition is summarised once
    def recursion(self, ip, st, fn, args, ty):
        vals = [ip.deref_val(st, a) for a in args]
        return ret_parts(fn['ret'], lambda i: mk('ucall', fn['id'], i, *vals))

    def udef(self, fid):
        r = self.usum.get(fid)
        if r is None:
            fn = self.ip.fns[fid]
            ps = [fresh('arg') for _ in fn['params']]
            sub = Interp(self.ip.J)
            sub.on_recursion = self.recursion
            from interp import St
            s = St()
            v = sub.call_fn(s, fn, ps, {})
            r = self.usum[fid] = (ps, v)
        return r

    def opaque(self, ev, t, env):
        import inst
        if t.op == 'ucall':
            fid, i = t.args[:2]
            vals = tuple(ev.ev(a, env) for a in t.args[2:])
            memo = ev.shared.setdefault('uc', {})
            key = (fid, vals)
            if key not in memo:
                ps, v = self.udef(fid)
                e2 = inst.Ev(ev.w, dict(zip(ps, vals)), {}, {}, ev.shared, self.opaque)
                memo[key] = e2.ev(v)
            r = memo[key]
            return r if i is None else r[3 + i]
        if t.op in ('val', 'cidof'):
            v = ev.ev(t.args[0], env)
            if type(v) is tuple and v[:2] == ('adt', 'GB'):
                return v[4 if t.op == 'val' else 3]
        raise inst.Stuck('opaque ' + t.op)

    def circ(self, st, cid=None):
        """fresh empty circuit; returns its heap cell"""
        if cid is None:
            self.ncid += 1
            cid = self.ncid
        c = self.ip.alloc(st, mk('adt', 'Circ', '', I(cid), ZERO, seq()))
        return c

    def cref(self, cell):
        return mk('adt', self.d_ref, 'BoolCircuitRef', mk('rc', cell), UNIT)

    def gate(self, g):
        """(cid, value) of a gate id term"""
        if g.op == 'adt' and g.args[0] == 'GB':
            return g.args[2], g.args[3]
        if g.op == 'ite':
            a, x = self.gate(g.args[1])
            b, y = self.gate(g.args[2])
            return (a if a is b else ite(g.args[0], a, b)), ite(g.args[0], x, y)
        return mk('cidof', g), mk('val', g)

    def trait(self, ip, st, tr, name, args, selfty, e):
        t = tr.split('::')[-1]
        if t != 'BoolCircuit':
            if t == 'Clone':
                return ip.deref_val(st, args[0])
            if t == 'Default':
                return NotImplemented
            return NotImplemented
        r = args[0]
        for _ in range(3):
            v = ip.readref(st, r)
            if v.op == 'adt' and v.args[0] == 'Circ':
                break
            r = v
        if v.op != 'adt' or v.args[0] != 'Circ':
            raise Unsupported('abstract circuit ' + show(v)[:80])
        cid, nin, outs = v.args[2:5]

        def val(x):
            x = ip.deref_val(st, x)
            c, b = self.gate(x)
            ip.obl('foreign-gate', st, mkeq(c, cid), e.get('sp'), (c, cid))
            return b

        def put(nin, outs):
            ip.writeref(st, r, mk('adt', 'Circ', '', cid, nin, outs))
        if name == 'input':
            put(add(nin, ONE), outs)
            return ok(gb(cid, inp(cid, nin)))
        if name == 'output':
            x = ip.deref_val(st, args[1])
            b = val(x)
            n = seq_len(outs)
            put(nin, seq_cat(outs, seq(el(b))))
            return ok(Tm.adt(self.d_wire, 'WireId', add(nin, n)))
        if name == 'constant':
            return ok(gb(cid, ip.deref_val(st, args[1])))
        if name in ('not', 'identity'):
            b = val(args[1])
            return ok(gb(cid, bnot(b) if name == 'not' else b))
        if name in ('xor', 'and', 'or', 'equivalent'):
            a, b = val(args[1]), val(args[2])
            f = {'xor': bxor, 'and': band, 'or': bor, 'equivalent': beq}[name]
            return ok(gb(cid, f(a, b)))
        if name == 'input_len':
            return nin
        if name == 'output_len':
            return seq_len(outs)
        if name == 'sub_circuit':
            c = self.circ(st)
            mid = len(self.mods)
            self.mods[mid] = c
            return mk('adt', 'tuple', '', self.mid(I(mid)), self.cref(c))
        if name == 'register_module':
            x = ip.deref_val(st, args[1])
            rc = getfield(x, '', 0, '0')
            if rc.op != 'rc':
                raise Unsupported('register opaque module')
            mid = len(self.mods)
            self.mods[mid] = rc.args[0]
            return self.mid(I(mid))
        if name == 'module':
            m = getfield(ip.deref_val(st, args[1]), '', 0, '0')
            ids = ip.deref_val(st, args[2])
            return self.module(st, cid, m, ids, e)
        if name == 'to_ref':
            raise Unsupported('to_ref on abstract circuit')
        raise Unsupported('abstract circuit method ' + name)

    def mid(self, k):
        return Tm.adt(self.d_mid, 'ModuleId', k)

    def values(self, st, cid, ids, e):
        """sequence of gate ids -> sequence of boolean values"""
        ids = as_seq(ids)
        out = []
        for g in ids.args:
            if g.op == 'el':
                c, b = self.gate(g.args[0])
                self.ip.obl('foreign-gate', st, mkeq(c, cid), e.get('sp'), (c, cid))
                out.append(el(b))
            else:
                k = fresh('k', True)
                c, b = self.gate(comp_at(g, k))
                self.ip.obl('foreign-gate', st, mkeq(c, cid), e.get('sp'), (c, cid))
                out.append(comp(g.args[1], k, b))
        return seq(*out)

    def module(self, st, cid, m, ids, e):
        vals = self.values(st, cid, ids, e)
        n, val = self.called(st, cid, m, vals, e, TRUE)
        k = fresh('k', True)
        return ok(seq(comp(n, k, gb(cid, val(k)))))

    def called(self, st, cid, m, vals, e, under):
        """(number of outputs, index -> value) of a call of module m; the id may depend on a condition"""
        ip = self.ip
        if m.op == 'ite':
            c, x, y = m.args
            n1, f1 = self.called(st, cid, x, vals, e, band(under, c))
            n2, f2 = self.called(st, cid, y, vals, e, band(under, bnot(c)))
            return ite(c, n1, n2), lambda k: ite(c, f1(k), f2(k))
        mi = isint(m)
        if mi is None:
            raise Unsupported('symbolic module id')
        cell = self.mods.get(mi)
        if cell is None:
            raise Unsupported('unknown module id')
        mc = ip.readcell(st, cell)
        if mc.op != 'adt' or mc.args[0] != 'Circ':
            raise Unsupported('module shape')
        mcid, nin, outs = mc.args[2:5]
        ip.obl('module-arity', st, bor(bnot(under), eq0(sub(seq_len(vals), nin))), e.get('sp'), (seq_len(vals), nin))
        self.modcalls.append((mi, vals, self.ip.stack[-1] if self.ip.stack else None))
        self.defs[mi] = (mcid, nin, outs)
        return seq_len(outs), lambda k: mk('mo', mi, k, vals)

    defs = None


def expand_mo(defs, mi, idx, vals):
    """value of output idx of module mi on inputs vals"""
    mcid, nin, outs = defs[mi]
    o = seq_at(outs, idx)

    def fn(t):
        if t.op == 'in' and t.args[0] is mcid:
            return seq_at(vals, rewrite(t.args[1], fn))
        return None
    return rewrite(o, fn)
