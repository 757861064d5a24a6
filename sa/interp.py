"""Abstract interpreter over the extracted THIR.

Joins instead of path enumeration: a state maps abstract cells to terms, every
two-way branch is joined with `ite` (lazily, so that an immediately following
test of the same condition recovers the branch states), loops are summarised
by solving the recurrence of every modified leaf.  Nothing is executed.
"""
import json, sys, time
from terms import *
import terms as Tm
import facts as Fx

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


_NOREFS = frozenset()
_isref = {}
DEADLINE = [None]     # wall-clock end of the present composition


class St:
    __slots__ = ('cells', 'pc', 'pend', 'dead', '_blk')

    def __init__(self, cells=None, pc=()):
        self.cells = cells if cells is not None else {}
        self.pc = pc
        self.pend = None
        self.dead = False

    def copy(self):
        s = St(self.cells if self.pend else dict(self.cells), self.pc)
        s.pend = self.pend
        s.dead = self.dead
        return s

    def become(self, o):
        self.cells, self.pc, self.pend, self.dead = o.cells, o.pc, o.pend, o.dead

    def assume(self, c):
        if c is not TRUE and c not in self.pc:
            self.pc = self.pc + (c,)

    def force(self):
        if not self.pend:
            return self
        c, A, B = self.pend
        A, B = A.copy(), B.copy()
        A.force()
        B.force()
        cells = dict(A.cells)
        for k, v in B.cells.items():
            a = cells.get(k)
            if a is None:
                cells[k] = v
            elif a is not v:
                cells[k] = ite(c, a, v)
        self.cells = cells
        self.pend = None
        return self

    def join(self, c, A, B):
        """become the join of A (under c) and B"""
        i = 0
        while i < len(A.pc) and i < len(B.pc) and A.pc[i] is B.pc[i]:
            i += 1
        common = A.pc[:i]
        ea, eb = A.pc[i:], B.pc[i:]
        d = TRUE
        if len(ea) + len(eb) <= 12:
            d = bor(band(*ea), band(*eb))
        pc = common
        if d is not TRUE and d is not FALSE and d not in pc:
            pc = pc + (d,)
        if not A.pend and not B.pend and not any(A.cells.get(k) is not v for k, v in B.cells.items() if k in A.cells):
            cells = dict(A.cells)
            cells.update(B.cells)
            self.cells, self.pc, self.pend, self.dead = cells, pc, None, False
            return
        self.cells, self.pc, self.pend, self.dead = None, pc, (c, A, B), False


class Frame:
    def __init__(self, fn, ty, env=None):
        self.fn = fn
        self.ty = ty
        self.env = env if env is not None else {}
        self.rets = []
        self.loops = []
        self.subst = {}


def tkey(t):
    return json.dumps(t, sort_keys=True)


def cellid_of(ref):
    a = ref.args[0]
    return a


def runs(m):
    """runs of ones of a mask: (lowest bit, length)"""
    out, i = [], 0
    while m >> i:
        if m >> i & 1:
            j = i
            while m >> j & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def addn(*xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


class Interp:
    def __init__(self, J):
        self.J = J
        self.fns = {f['id']: f for f in J['fns']}
        for a in J['adts']:
            Tm.ADTS[a['d']] = {v['n']: [x[0] for x in v['fs']] for v in a['vs']}
        self.adts = {a['d']: a for a in J['adts']}
        for d, vs in STD_ADTS.items():
            Tm.ADTS[d] = vs
        self.impls = {}
        for f in J['fns']:
            if f.get('trait') and f.get('self_ty'):
                self.impls.setdefault((f['trait'], f['name']), []).append(f)
        self.hooks = {}          # fn id or name key -> callable
        self.obls = []
        self.quiet = 0
        self.stack = []
        self.ncell = 0
        self.visited = {}
        self.closenv = {}
        self._refs = {}
        self.ptrs = {}
        self.on_recursion = None
        self.inline_rec = False   # ground programs: recursion is bounded by the data
        self.trait_model = None   # abstract BoolCircuit implementor
        self.writer_hook = None
        self.notes = []
        self.loopcount = 0
        self.fuel = 3000000

    # ------------------------------------------------------------ cells
    def alloc(self, st, v):
        st.force()
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def ref(self, cell, *path):
        return mk('ref', cell, *path)

    def readcell(self, st, cid):
        st.force()
        v = st.cells.get(cid)
        if v is None:
            p = self.ptrs.get(cid)
            if p is None:
                raise Unsupported(f'dangling cell {cid}')
            v = mk('pointee', p)
            st.cells[cid] = v
        return v

    def ptrcell(self, p):
        """cell behind an opaque shared pointer"""
        cid = ('p', p)
        self.ptrs[cid] = p
        return cid

    def dec(self, st):
        pc = st.pc
        return lambda c: Fx.decide(pc, c)

    def getpath(self, st, v, path):
        for pe in path:
            v = self.project(st, v, pe)
        return v

    def project(self, st, v, pe):
        op = pe.op
        if op == 'pf':
            vn, idx, name = pe.args[:3]
            return getfield(v, vn, idx, name)
        if op == 'pi':
            return seq_at(v, pe.args[0], self.dec(st))
        if op == 'pk':
            return getfield(mget(v, pe.args[0], self.dec(st)), 'Some', 0, '0')
        if op == 'psl':
            return seq_slice(v, pe.args[0], pe.args[1], self.dec(st))
        if op == 'pdrf':
            return self.deref_val(st, v)
        raise Unsupported('path ' + op)

    def setpath(self, st, v, path, new):
        if not path:
            return new
        pe = path[0]
        op = pe.op
        if op == 'pf':
            vn, idx, name, d = pe.args[:4]
            old = getfield(v, vn, idx, name)
            nv = self.setpath(st, old, path[1:], new)
            if nv is old:
                return v
            vs = Tm.ADTS.get(d)
            names = vs[vn or list(vs)[0]] if vs else None
            if names is None and v.op != 'adt' and v.op != 'ite':
                raise Unsupported('write to field of opaque ' + str(d))
            return setfield(v, vn, idx, name, nv, d, names)
        if op == 'pi':
            old = seq_at(v, pe.args[0], self.dec(st)) if len(path) > 1 else None
            return seq_store(v, pe.args[0], self.setpath(st, old, path[1:], new), self.dec(st))
        if op == 'pk':
            old = getfield(mget(v, pe.args[0], self.dec(st)), 'Some', 0, '0') if len(path) > 1 else None
            return mset(v, pe.args[0], some(self.setpath(st, old, path[1:], new)))
        raise Unsupported('store path ' + op)

    def readref(self, st, r):
        if r.op == 'ite':
            return ite(r.args[0], self.readref(st, r.args[1]), self.readref(st, r.args[2]))
        if r.op == 'ref':
            st.force()
            cid = r.args[0]
            path = r.args[1:]
            # a pointer in the middle of the path
            return self.getpath(st, self.readcell(st, cid), path)
        return r

    def writeref(self, st, r, new, cond=None):
        if r.op == 'ite':
            self.writeref(st, r.args[1], new, band(cond or TRUE, r.args[0]))
            self.writeref(st, r.args[2], new, band(cond or TRUE, bnot(r.args[0])))
            return
        if r.op != 'ref':
            raise Unsupported('store through non-reference ' + show(r)[:80])
        st.force()
        cid = r.args[0]
        if cond is not None and cond is not TRUE:
            old = self.readref(st, r)
            new = ite(cond, new, old)
        v = self.setpath(st, self.readcell(st, cid), r.args[1:], new)
        st.cells[cid] = v

    def extend(self, r, pe):
        if r.op == 'ite':
            return ite(r.args[0], self.extend(r.args[1], pe), self.extend(r.args[2], pe))
        return mk('ref', *r.args, pe)

    def deref_val(self, st, v):
        """value behind any pointer-like value"""
        if v.op == 'ref' or (v.op == 'ite' and self.isref(v)):
            return self.readref(st, v)
        return v

    def isref(self, v):
        if v.op != 'ite':
            return v.op == 'ref'
        r = _isref.get(v)
        if r is None:
            r = _isref[v] = self.isref(v.args[1]) or self.isref(v.args[2])
        return r

    # ------------------------------------------------------------ types
    def ty(self, t, fr):
        """instantiate type parameters"""
        k = t.get('k')
        if k == 'param':
            return fr.ty.get(t['n'], t)
        if not fr.ty:
            return t
        if k == 'adt':
            a = [self.ty(x, fr) for x in t.get('a', [])]
            if a != t.get('a'):
                t = dict(t)
                t['a'] = a
            return t
        if k in ('ref', 'slice', 'array') and 't' in t and isinstance(t['t'], dict):
            x = self.ty(t['t'], fr)
            if x is not t['t']:
                t = dict(t)
                t['t'] = x
            return t
        return t

    def stripref(self, t):
        while t.get('k') == 'ref':
            t = t['t']
        return t

    def unify(self, p, a, m):
        if p.get('k') == 'param':
            m.setdefault(p['n'], a)
            return True
        if p.get('k') != a.get('k'):
            return False
        if p['k'] == 'adt':
            if p['d'] != a['d']:
                return False
            for x, y in zip(p.get('a', []), a.get('a', [])):
                if not self.unify(x, y, m):
                    return False
            return True
        if p['k'] in ('ref', 'slice', 'array'):
            return self.unify(p['t'], a['t'], m)
        if p['k'] == 'int':
            return p['n'] == a['n']
        return True

    def find_impl(self, trait, name, selfty, targs=None):
        for f in self.impls.get((trait, name), []):
            m = {}
            if self.unify(f['self_ty'], selfty, m):
                ta = f.get('trait_args') or []
                if targs is not None and ta:
                    m2 = dict(m)
                    if not all(self.unify(x, y, m2) for x, y in zip(ta, targs)):
                        continue
                    m = m2
                return f, m
        return None, None

    # ------------------------------------------------------- obligations
    def obl(self, kind, st, cond, sp, info=None):
        """cond must hold whenever this point is reached"""
        if self.quiet or cond is TRUE or st.dead:
            return
        if Fx.decide(st.pc, cond) is True:
            return
        self.obls.append({'kind': kind, 'pc': st.pc, 'cond': cond, 'sp': sp, 'info': info,
                          'fn': self.stack[-1] if self.stack else None})

    # ---------------------------------------------------------- control
    def branch(self, st, c, fa, fb):
        if st.dead:
            return UNDEF
        if c is UNDEF:
            c = fresh('undef_cond')
        d = Fx.decide(st.pc, c)
        if d is None and c.op == 'and':
            # drop conjuncts already known
            c = band(*[x for x in c.args if Fx.decide(st.pc, x) is not True])
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        if st.pend and st.pend[0] is c:
            A, B = st.pend[1].copy(), st.pend[2].copy()
        elif st.pend and st.pend[0] is bnot(c):
            A, B = st.pend[2].copy(), st.pend[1].copy()
        else:
            st.force()
            A, B = st.copy(), st.copy()
        A.assume(c)
        B.assume(bnot(c))
        va = fa(A)
        vb = fb(B)
        if A.dead and B.dead:
            st.dead = True
            return UNDEF
        if A.dead:
            st.become(B)
            return vb
        if B.dead:
            st.become(A)
            return va
        st.join(c, A, B)
        return ite(c, va, vb)

    def fold(self, outs, base):
        """join chronological exits [(st,val)] that all started from pc `base`"""
        if not outs:
            return None, UNDEF
        n = len(base)

        def conds(st):
            return band(*st.pc[n:])
        tags = []
        for s, v in outs:
            tags.append(v.args[1] if v.op == 'adt' and v.args[0] in (RES, OPT, CF) else None)
        val = outs[-1][1]
        for s, v in reversed(outs[:-1]):
            val = ite(conds(s), v, val)

        def group(xs):
            st = xs[-1][0].copy()
            for s, v in reversed(xs[:-1]):
                j = St()
                j.join(conds(s), s.copy(), st)
                st = j
            return st
        uniq = []
        for t in tags:
            if t not in uniq:
                uniq.append(t)
        if None in uniq or len(uniq) == 1:
            return group(outs), val
        gs = [(t, [o for o, tt in zip(outs, tags) if tt == t]) for t in uniq]
        # make the success group last
        st = group(gs[-1][1])
        for t, xs in reversed(gs[:-1]):
            j = St()
            j.join(isvar(val, t), group(xs), st)
            st = j
        return st, val

    # -------------------------------------------------------------- call
    def call_fn(self, st, fn, args, ty, sp=None):
        """inline a local function on evaluated args; returns its value"""
        if st.dead:
            return UNDEF
        fid = fn['id']
        h = self.hooks.get(fid)
        if h is not None:
            r = h(self, st, fn, args, ty)
            if r is not NotImplemented:
                return r
        if fid in self.stack and not self.inline_rec:
            if self.on_recursion:
                r = self.on_recursion(self, st, fn, args, ty)
                if r is not NotImplemented:
                    return r
            raise Unsupported('recursion into ' + fn['path'])
        if len(self.stack) > (1500 if self.inline_rec else 60):
            raise Unsupported('call depth')
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            raise Unsupported('time limit')
        self.visited[fid] = self.visited.get(fid, 0) + 1
        self.stack.append(fid)
        fr = Frame(fn, ty)
        try:
            return self.run_body(st, fr, fn, args)
        finally:
            self.stack.pop()

    def run_body(self, st, fr, fn, args):
        base = st.pc
        for p, a in zip(fn['params'], args):
            if p['pat'] is not None:
                self.bind(st, fr, p['pat'], ('v', a))
        n0 = self.ncell
        v = self.eval(fn['body'], st, fr)
        if not st.dead and not fr.rets:
            if self.inline_rec:
                self.collect(st, v, n0)
            return v
        if not st.dead:
            fr.rets.append((st.copy(), v))
        if not fr.rets:
            st.dead = True
            return UNDEF
        if len(fr.rets) == 1:
            s, val = fr.rets[0]
        else:
            s, val = self.fold(fr.rets, base)
        st.become(s)
        if self.inline_rec:
            self.collect(st, val, n0)
        return val

    def collect(self, st, val, n0):
        """forget the cells of a finished call that nothing refers to"""
        if st.pend or self.ncell - n0 < 16 + len(st.cells) // 4:
            return
        new, live = [], [val]
        for k, v in st.cells.items():
            if isinstance(k, int) and k > n0:
                new.append(k)
            else:
                live.append(v)
        if not new:
            return
        keep = set()
        while live:
            for k in self.cellrefs(live.pop()):
                if k not in keep:
                    keep.add(k)
                    if isinstance(k, int) and k > n0 and k in st.cells:
                        live.append(st.cells[k])
        for k in new:
            if k not in keep:
                del st.cells[k]

    def cellrefs(self, t):
        """cells a value refers to"""
        r = self._refs.get(t)
        if r is None:
            if t.op == 'clos':
                r = frozenset(self.closenv[t.args[1]][0].values())
            else:
                r = frozenset(t.args[:1]) if t.op in ('ref', 'rc') and t.args and not isinstance(t.args[0], T) else _NOREFS
                for x in t.args:
                    if isinstance(x, T):
                        y = self.cellrefs(x)
                        if y:
                            r = r | y
            self._refs[t] = r
        return r

    def call_closure(self, st, clo, args):
        """clo: closure value term or function item"""
        if st.dead:
            return UNDEF
        if clo.op == 'ref':
            clo = self.readref(st, clo)
        if clo.op == 'clos':
            d, eid, tyid = clo.args
            fn = self.fns[d]
            env, ty = self.closenv[eid]
            if len(self.stack) > (1500 if self.inline_rec else 60):
                raise Unsupported('call depth')
            self.visited[d] = self.visited.get(d, 0) + 1
            self.stack.append(d)
            fr = Frame(fn, ty, dict(env))
            try:
                return self.run_body(st, fr, fn, [UNIT] + list(args))
            finally:
                self.stack.pop()
        if clo.op == 'fnitem':
            f = self.fnitems[clo.args[0]]
            fake = Frame(None, {})
            return self.call_def(st, fake, f, list(args), {'t': {'k': 'other'}, 'sp': None})
        raise Unsupported('call of ' + show(clo)[:60])

    fnitems = {}

    # ----------------------------------------------------------- patterns
    def pread(self, st, pl):
        if pl[0] == 'v':
            return pl[1]
        return self.readref(st, pl[1])

    def pext(self, st, pl, pe):
        if pl[0] == 'v':
            return ('v', self.project(st, pl[1], pe))
        return ('r', self.extend(pl[1], pe))

    def pderef(self, st, pl):
        v = self.pread(st, pl)
        if self.isref(v):
            return ('r', v)
        return ('v', v)

    def patcond(self, st, p, pl):
        """condition for the pattern to match"""
        k = p['k']
        if k in ('wild',):
            return TRUE
        if k == 'bind':
            return self.patcond(st, p['sub'], pl) if p.get('sub') else TRUE
        if k == 'deref':
            return self.patcond(st, p['sub'], self.pderef(st, pl))
        if k == 'variant':
            v = self.pread(st, pl)
            c = isvar(v, p['vn'])
            d = Fx.decide(st.pc, c)
            if d is not None:
                c = B(d)
            if c is FALSE:
                return FALSE
            cs = [c]
            for n, s in p['fs']:
                cs.append(self.patcond(st, s, self.pext(st, pl, self.pfield(p['d'], p['vn'], n))))
            return band(*cs)
        if k == 'leaf':
            cs = []
            for n, s in p['fs']:
                cs.append(self.patcond(st, s, self.pext(st, pl, self.pfield('tuple', '', n, leaf=True, v=self.pread(st, pl)))))
            return band(*cs)
        if k == 'const':
            v = self.pread(st, pl)
            return self.eqconst(v, p)
        if k == 'or':
            return bor(*[self.patcond(st, x, pl) for x in p['ps']])
        if k == 'range':
            v = self.pread(st, pl)
            raise Unsupported('range pattern')
        if k == 'slice':
            v = self.pread(st, pl)
            n = len(p.get('pre') or []) + len(p.get('suf') or [])
            ln = seq_len(v)
            c = [eq0(sub(ln, I(n))) if not p.get('mid') else le(I(n), ln)]
            for i, s in enumerate(p.get('pre') or []):
                c.append(self.patcond(st, s, self.pext(st, pl, mk('pi', I(i)))))
            for i, s in enumerate(p.get('suf') or []):
                c.append(self.patcond(st, s, self.pext(st, pl, mk('pi', add(ln, I(i - len(p['suf'])))))))
            return band(*c)
        raise Unsupported('pattern ' + k)

    def eqconst(self, v, p):
        lv = p.get('v')
        if isinstance(lv, bool):
            return v if lv else bnot(v)
        if isinstance(lv, str):
            t = p.get('t') or {}
            if p.get('lk') == 'str' or self.stripref(t).get('k') == 'str':
                return mkeq(v, mk('str', lv))
            if lv in ('true', 'false'):
                return v if lv == 'true' else bnot(v)
            try:
                return eq0(sub(v, I(int(lv))))
            except ValueError:
                return mkeq(v, mk('str', lv))
        if isinstance(lv, int):
            return eq0(sub(v, I(lv)))
        if isinstance(lv, dict) and 'int' in lv:
            return eq0(sub(v, I(int(lv['int']))))
        if isinstance(lv, dict) and lv.get('raw', '').startswith('Value { ty: str, valtree: Branch(['):
            raw = lv['raw'][lv['raw'].index('[') + 1:lv['raw'].rindex(']')]
            bs = bytes(int(x.strip().split('_')[0]) for x in raw.split(',') if x.strip())
            return mkeq(v, mk('str', bs.decode('utf-8', 'replace')) if bs else mk('str'))
        raise Unsupported('const pattern ' + json.dumps(p)[:100])

    def pfield(self, d, vn, n, leaf=False, v=None):
        if leaf:
            if n.isdigit():
                return mk('pf', '', int(n), n, 'tuple')
            d, vn = self.adt_of_field(v, n)
        vs = Tm.ADTS.get(d)
        if vs is None:
            if n.isdigit():
                return mk('pf', vn, int(n), n, d)
            raise Unsupported('field of unknown adt ' + d)
        names = vs[vn]
        return mk('pf', vn if len(vs) > 1 else '', names.index(n), n, d)

    def adt_of_field(self, v, n):
        if v is not None and v.op == 'adt':
            return v.args[0], v.args[1]
        raise Unsupported('struct pattern on opaque')

    def bind(self, st, fr, p, pl):
        k = p['k']
        if k == 'wild' or k == 'const' or k == 'range':
            return
        if k == 'bind':
            by = p.get('by', 'val')
            if by == 'val' or by == 'ref':
                v = self.pread(st, pl)
            else:
                v = pl[1] if pl[0] == 'r' else pl[1]
            fr.env[p['v']] = self.alloc(st, v)
            if p.get('sub'):
                self.bind(st, fr, p['sub'], pl)
            return
        if k == 'deref':
            return self.bind(st, fr, p['sub'], self.pderef(st, pl))
        if k == 'variant':
            for n, s in p['fs']:
                if s['k'] != 'wild':
                    self.bind(st, fr, s, self.pext(st, pl, self.pfield(p['d'], p['vn'], n)))
            return
        if k == 'leaf':
            for n, s in p['fs']:
                if s['k'] == 'wild':
                    continue
                if n.isdigit():
                    pe = mk('pf', '', int(n), n, 'tuple')
                else:
                    t = self.stripref(p.get('t') or {})
                    d = t.get('d') or p.get('d')
                    if d is None:
                        v = self.pread(st, pl)
                        d = v.args[0] if v.op == 'adt' else None
                    if d is None or d not in Tm.ADTS:
                        raise Unsupported('struct pattern')
                    vs = Tm.ADTS[d]
                    names = list(vs.values())[0]
                    pe = mk('pf', '', names.index(n), n, d)
                self.bind(st, fr, s, self.pext(st, pl, pe))
            return
        if k == 'or':
            vs = [q for q in p['ps']]
            # only or-patterns without bindings
            return
        if k == 'slice':
            ln = seq_len(self.pread(st, pl))
            for i, s in enumerate(p.get('pre') or []):
                self.bind(st, fr, s, self.pext(st, pl, mk('pi', I(i))))
            for i, s in enumerate(p.get('suf') or []):
                self.bind(st, fr, s, self.pext(st, pl, mk('pi', add(ln, I(i - len(p['suf']))))))
            if p.get('mid'):
                a, b = I(len(p.get('pre') or [])), sub(ln, I(len(p.get('suf') or [])))
                v = self.pread(st, pl)
                self.bind(st, fr, p['mid'], ('v', seq_slice(v, a, b, self.dec(st))))
            return
        raise Unsupported('bind pattern ' + k)

    # -------------------------------------------------------------- places
    def place(self, e, st, fr):
        """('r', ref) or ('v', value)"""
        k = e['k']
        if k in ('var', 'upvar'):
            cid = fr.env.get(e['v'])
            if cid is None:
                raise Unsupported('unbound ' + str(e.get('n')))
            return ('r', mk('ref', cid))
        if k == 'deref':
            pl = self.place(e['a'], st, fr)
            if st.dead:
                return ('v', UNDEF)
            return self.pderef(st, pl)
        if k == 'field':
            pl = self.place(e['a'], st, fr)
            if st.dead:
                return ('v', UNDEF)
            t = self.stripref(self.ty(e['a']['t'], fr))
            n = e['n']
            if t.get('k') == 'tuple':
                pe = mk('pf', '', int(n), n, 'tuple')
            else:
                d = t.get('d')
                vs = Tm.ADTS.get(d)
                if vs is None:
                    if str(n).isdigit():
                        pe = mk('pf', '', int(n), str(n), d or '?')
                    else:
                        raise Unsupported('field of ' + str(d))
                else:
                    names = list(vs.values())[0]
                    pe = mk('pf', '', names.index(n), n, d)
            return self.pext(st, pl, pe)
        if k == 'index':
            pl = self.place(e['a'], st, fr)
            i = self.eval(e['i'], st, fr)
            if st.dead:
                return ('v', UNDEF)
            v = self.pread(st, pl)
            self.obl('index', st, lt(i, seq_len(v)), e.get('sp'))
            return self.pext(st, pl, mk('pi', i))
        if k == 'scope':
            return self.place(e['e'], st, fr)
        return ('v', self.eval(e, st, fr))

    # -------------------------------------------------------------- eval
    def eval(self, e, st, fr):
        if st.dead or e is None:
            return UNDEF if st.dead else UNIT
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('fuel')
        v = getattr(self, 'e_' + e['k'], self.e_unknown)(e, st, fr)
        t = e.get('t')
        if t is not None and t.get('k') == 'int' and t['n'][0] == 'u' and v.op != 'poly':
            NAT.add(v)
        return v

    def e_unknown(self, e, st, fr):
        raise Unsupported('expr ' + e['k'] + ' ' + str(e.get('n', '')))

    def e_block(self, e, st, fr):
        for s in e['st']:
            if st.dead:
                return UNDEF
            if s['k'] == 'let':
                if s.get('init') is None:
                    self.declare(st, fr, s['pat'])
                    continue
                pl = self.place(s['init'], st, fr) if self.needs_place(s['pat']) else ('v', self.eval(s['init'], st, fr))
                if st.dead:
                    return UNDEF
                if s.get('els') is not None:
                    c = self.patcond(st, s['pat'], pl)

                    def other(x):
                        self.eval(s['els'], x, fr)
                        return UNDEF
                    self.branch(st, c, lambda x: UNDEF, other)
                    if st.dead:
                        return UNDEF
                self.bind(st, fr, s['pat'], pl)
            else:
                self.eval(s['e'], st, fr)
        if st.dead:
            return UNDEF
        if e.get('e') is not None:
            return self.eval(e['e'], st, fr)
        return UNIT

    def declare(self, st, fr, p):
        if p['k'] == 'bind':
            fr.env[p['v']] = self.alloc(st, UNDEF)
        for s in p.get('fs') or []:
            self.declare(st, fr, s[1])

    def needs_place(self, p):
        k = p['k']
        if k == 'bind':
            return 'ref' in p.get('by', 'val')
        if k in ('variant', 'leaf'):
            return any(self.needs_place(s) for _, s in p['fs'])
        if k == 'deref':
            return self.needs_place(p['sub'])
        if k == 'slice':
            return any(self.needs_place(s) for s in (p.get('pre') or []) + (p.get('suf') or []) + ([p['mid']] if p.get('mid') else []))
        return False

    def cond(self, e, st, fr):
        """evaluate a condition; returns (cond term, binder list) for `if let` chains"""
        return self.eval(e, st, fr)

    def e_if(self, e, st, fr):
        return self.if_cond(e['c'], st, fr,
                            lambda s: self.eval(e['th'], s, fr),
                            lambda s: self.eval(e['el'], s, fr) if e.get('el') else UNIT)

    def if_cond(self, c, st, fr, th, el):
        k = c['k']
        if k == 'scope':
            return self.if_cond(c['e'], st, fr, th, el)
        if k == 'logic' and c['op'] == 'And' and self.has_let(c):
            def inner(s):
                return self.if_cond(c['r'], s, fr, th, el)
            return self.if_cond(c['l'], st, fr, inner, el)
        if k == 'let':
            pl = self.place(c['e'], st, fr)
            if st.dead:
                return UNDEF
            if pl[0] == 'r' and not self.needs_place(c['pat']):
                pl = ('v', self.pread(st, pl))
            cc = self.patcond(st, c['pat'], pl)

            def yes(s):
                self.bind(s, fr, c['pat'], pl)
                return th(s)
            return self.branch(st, cc, yes, el)
        v = self.eval(c, st, fr)
        if st.dead:
            return UNDEF
        return self.branch(st, v, th, el)

    def has_let(self, c):
        if c['k'] == 'let':
            return True
        if c['k'] == 'scope':
            return self.has_let(c['e'])
        if c['k'] == 'logic':
            return self.has_let(c['l']) or self.has_let(c['r'])
        return False

    def e_let(self, e, st, fr):
        pl = self.place(e['e'], st, fr)
        if st.dead:
            return UNDEF
        c = self.patcond(st, e['pat'], pl)
        return c

    def e_logic(self, e, st, fr):
        a = self.eval(e['l'], st, fr)
        if st.dead:
            return UNDEF
        if e['op'] == 'And':
            return self.branch(st, a, lambda s: self.eval(e['r'], s, fr), lambda s: FALSE)
        return self.branch(st, a, lambda s: TRUE, lambda s: self.eval(e['r'], s, fr))

    def e_match(self, e, st, fr):
        sc = e['e']
        np = any(self.needs_place(a['pat']) for a in e['arms'])
        pl = self.place(sc, st, fr) if sc['k'] in ('var', 'upvar', 'deref', 'field', 'index') else ('v', self.eval(sc, st, fr))
        if st.dead:
            return UNDEF
        if not np:
            pl = ('v', self.pread(st, pl))
        arms = e['arms']

        def go(i, s):
            if s.dead:
                return UNDEF
            a = arms[i]
            c = self.patcond(s, a['pat'], pl)
            if i == len(arms) - 1 and a.get('guard') is None:
                d = Fx.decide(s.pc, c)
                if d is not False:
                    s.assume(c)
                c = TRUE

            def body(x):
                self.bind(x, fr, a['pat'], pl)
                if a.get('guard') is not None:
                    return self.if_cond(a['guard'], x, fr,
                                        lambda y: self.eval(a['b'], y, fr),
                                        lambda y: go(i + 1, y) if i + 1 < len(arms) else UNDEF)
                return self.eval(a['b'], x, fr)
            if c is TRUE:
                return body(s)
            return self.branch(s, c, body, lambda x: go(i + 1, x))
        return go(0, st)

    def e_var(self, e, st, fr):
        return self.pread(st, self.place(e, st, fr))

    e_upvar = e_var
    e_deref = e_var
    e_field = e_var
    e_index = e_var

    def e_scope(self, e, st, fr):
        return self.eval(e['e'], st, fr)

    def e_borrow(self, e, st, fr):
        if e['a']['k'] in ('var', 'upvar', 'deref', 'field', 'index', 'scope'):
            pl = self.place(e['a'], st, fr)
            if st.dead:
                return UNDEF
            if e['m']:
                if pl[0] == 'r':
                    return pl[1]
                return mk('ref', self.alloc(st, pl[1]))
            return self.pread(st, pl)
        v = self.eval(e['a'], st, fr)
        if e['m'] and not st.dead and not self.isref(v):
            return mk('ref', self.alloc(st, v))
        return v

    def e_assign(self, e, st, fr):
        v = self.eval(e['r'], st, fr)
        if st.dead:
            return UNDEF
        if e['l']['k'] == 'var' and e['l'].get('n') == '_':
            return UNIT
        pl = self.place(e['l'], st, fr)
        if st.dead:
            return UNDEF
        if pl[0] != 'r':
            raise Unsupported('assignment target')
        self.writeref(st, pl[1], v)
        return UNIT

    def e_assignop(self, e, st, fr):
        r = self.eval(e['r'], st, fr)
        if st.dead:
            return UNDEF
        pl = self.place(e['l'], st, fr)
        if st.dead:
            return UNDEF
        old = self.pread(st, pl)
        v = self.arith(e['op'].replace('Assign', ''), old, r, e['l'].get('t') or {}, st, e.get('sp'))
        if pl[0] != 'r':
            raise Unsupported('assignop target')
        self.writeref(st, pl[1], v)
        return UNIT

    def e_bin(self, e, st, fr):
        a = self.eval(e['l'], st, fr)
        b = self.eval(e['r'], st, fr)
        if st.dead:
            return UNDEF
        return self.arith(e['op'], a, b, e['l'].get('t') or {}, st, e.get('sp'))

    BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}

    def arith(self, op, a, b, t, st, sp):
        k = self.stripref(t).get('k')
        if UNDEF in (a, b):
            return UNDEF
        if k == 'bool':
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('BitXor', 'Ne'):
                return bxor(a, b)
            if op == 'Eq':
                return beq(a, b)
            raise Unsupported('bool op ' + op)
        if op == 'Eq':
            return self.eqval(a, b)
        if op == 'Ne':
            return bnot(self.eqval(a, b))
        n = self.stripref(t).get('n', '')
        uns = n[:1] == 'u'
        if op == 'Add':
            if uns:
                self.obl('overflow', st, fits(add(a, b), n), sp)
            return add(a, b)
        if op == 'Sub':
            if uns:
                self.obl('underflow', st, le(b, a), sp)
            return sub(a, b)
        if op == 'Mul':
            if uns:
                self.obl('overflow', st, fits(mul(a, b), n), sp)
            return mul(a, b)
        if op == 'Div':
            self.obl('div0', st, bnot(eq0(b)), sp)
            return idiv(a, b)
        if op == 'Rem':
            self.obl('div0', st, bnot(eq0(b)), sp)
            return imod(a, b)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op in ('Shl', 'Shr') and n in Tm.WIDTH:
            self.obl('overflow', st, lt(b, I(Tm.WIDTH[n])), sp)
        if op == 'Shl':
            r = mul(a, pow2(b))
            if n in Tm.WIDTH and isint(a) not in (0, 1) and not Fx.interval(poly_dict(sub(ONE, a))) \
                    and Fx.decide(tuple(st.pc), fits(r, n)) is not True:
                r = imod(r, I(1 << Tm.WIDTH[n]))      # bits shifted out are lost
            return r
        if op == 'Shr':
            return idiv(a, pow2(b))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            ai, bi = isint(a), isint(b)
            if ai is not None and bi is not None:
                return I({'BitAnd': ai & bi, 'BitOr': ai | bi, 'BitXor': ai ^ bi}[op])
            if op == 'BitAnd':
                for x, y in ((a, b), (b, a)):
                    yi = isint(y)
                    if yi is not None and yi >= 0 and (yi & (yi + 1)) == 0:
                        return imod(x, I(yi + 1))
                    if yi is not None and yi > 0 and (uns or isnat(x)):
                        rs = runs(yi)
                        if len(rs) <= 4:
                            return addn(*[scale(imod(idiv(x, I(1 << lo)), I(1 << ln)), 1 << lo) for lo, ln in rs])
            elif uns:
                for x, y in ((a, b), (b, a)):
                    yi = isint(y)
                    if yi is not None and yi >= 0 and len(runs(yi)) <= 4:
                        s = self.arith('BitAnd', x, y, t, st, sp)
                        return sub(add(x, y), s if op == 'BitOr' else scale(s, 2))
            if a.uid > b.uid:
                a, b = b, a
            return mk({'BitAnd': 'iand', 'BitOr': 'ior', 'BitXor': 'ixor'}[op], a, b)
        raise Unsupported('op ' + op)

    def eqval(self, a, b):
        return mkeq(a, b)

    def e_un(self, e, st, fr):
        a = self.eval(e['a'], st, fr)
        if st.dead:
            return UNDEF
        t = e.get('t') or {}
        if e['op'] == 'Not':
            if t.get('k') == 'bool':
                return bnot(a)
            n = t.get('n', '')
            if n in self.BITS:
                return sub(I((1 << self.BITS[n]) - 1), a)
        if e['op'] == 'Neg':
            return scale(a, -1)
        raise Unsupported('unary ' + e['op'])

    def e_cast(self, e, st, fr):
        a = self.eval(e['a'], st, fr)
        if st.dead:
            return UNDEF
        t = self.ty(e['a'].get('t') or {}, fr)
        to = e.get('t') or {}
        if t.get('k') == 'bool':
            return b2i(a)
        if t.get('k') == 'int' and to.get('k') == 'int':
            f, g = self.BITS.get(t['n']), self.BITS.get(to['n'])
            if f and g and g < f:
                n = isint(a)
                if n is not None:
                    return I(n % (1 << g))
                return imod(a, I(1 << g))
        return a

    def e_coerce(self, e, st, fr):
        return self.eval(e['a'], st, fr)

    def e_lit(self, e, st, fr):
        lk = e.get('lk')
        if lk == 'int':
            return I(int(e['v']))
        if lk == 'bool':
            return B(e['v'] in (True, 'true'))
        if lk in ('str', 'bytes'):
            if e.get('file'):
                return mk('strfile', e['file'])
            v = e['v']
            if lk == 'bytes':
                try:
                    v = bytes(v).decode('latin1') if isinstance(v, list) else v
                except Exception:
                    raise Unsupported('byte literal')
            return mk('str', v) if v != '' else mk('str')
        if lk == 'char':
            return mk('str', e['v'])
        raise Unsupported('literal ' + str(lk))

    def e_tuple(self, e, st, fr):
        vs = [self.eval(x, st, fr) for x in e['es']]
        return UNDEF if st.dead else mk('adt', 'tuple', '', *vs)

    def e_array(self, e, st, fr):
        vs = [self.eval(x, st, fr) for x in e['es']]
        return UNDEF if st.dead else mk('seq', *[el(v) for v in vs])

    def e_repeat(self, e, st, fr):
        v = self.eval(e['e'], st, fr)
        c = e['c']
        n = I(int(c)) if str(c).isdigit() else self.constparam(str(c), fr)
        return seq(comp(n, fresh('k'), v))

    def constparam(self, n, fr):
        s = fr.ty.get(('c', n))
        if s is not None:
            return s
        return sym(n, True)

    def e_cparam(self, e, st, fr):
        return self.constparam(e['n'], fr)

    def e_adt(self, e, st, fr):
        d, vn = e['d'], e['vn']
        vs = Tm.ADTS.get(d)
        given = {}
        for n, x in e['fs']:
            given[n] = self.eval(x, st, fr)
        if st.dead:
            return UNDEF
        if vs is None or vn not in vs:
            return mk('adt', d, vn, *[given[n] for n in sorted(given)])
        base = self.eval(e['base'], st, fr) if e.get('base') else None
        out = []
        for i, n in enumerate(vs[vn]):
            if n in given:
                out.append(given[n])
            elif base is not None:
                out.append(getfield(base, vn if len(vs) > 1 else '', i, n))
            else:
                raise Unsupported('missing field')
        return Tm.adt(d, vn, *out)

    def e_zst(self, e, st, fr):
        f = e.get('f')
        if f:
            key = f['d'] + '|' + json.dumps(f.get('ta'))
            g = dict(f)
            g['ta'] = [self.ty(t, fr) for t in f.get('ta', [])]
            Interp.fnitems[key] = g
            return mk('fnitem', key)
        return UNIT

    def e_const(self, e, st, fr):
        f = self.fns.get(e['d'])
        if f is not None and f.get('body'):
            return self.eval(f['body'], st, Frame(f, {}))
        return mk('const', e['d'])

    def e_closure(self, e, st, fr):
        env = {}
        for v, c in fr.env.items():
            env[v] = c
        key = (e['d'], tuple(sorted((str(k), str(v)) for k, v in env.items())))
        eid = hash(key)
        self.closenv[eid] = (env, fr.ty)
        return mk('clos', e['d'], eid, 0)

    def e_return(self, e, st, fr):
        v = self.eval(e['e'], st, fr) if e.get('e') else UNIT
        if not st.dead:
            fr.rets.append((st.copy(), v))
            st.dead = True
        return UNDEF

    def e_break(self, e, st, fr):
        v = self.eval(e['e'], st, fr) if e.get('e') else UNIT
        if not st.dead:
            for lp in reversed(fr.loops):
                if lp['scope'] == e['l']:
                    lp['breaks'].append((st.copy(), v))
                    break
            else:
                raise Unsupported('break target')
            st.dead = True
        return UNDEF

    def e_continue(self, e, st, fr):
        for lp in reversed(fr.loops):
            if lp['scope'] == e['l']:
                lp['conts'].append((st.copy(), UNIT))
                break
        else:
            raise Unsupported('continue target')
        st.dead = True
        return UNDEF

    def e_loop(self, e, st, fr):
        scope = e.get('scope')

        def body(s, lp):
            lp['scope'] = scope
            fr.loops.append(lp)
            self.eval(e['b'], s, fr)
            fr.loops.pop()
        return self.run_loop(st, body, fr, e.get('sp'))

    def run_loop(self, st, body, fr, sp=None):
        import loops
        return loops.run(self, st, body, fr, sp)

    # ------------------------------------------------------------- calls
    def e_call(self, e, st, fr):
        f = e.get('f')
        if f is None:
            callee = self.eval(e['fe'], st, fr)
            args = [self.eval(a, st, fr) for a in e['args']]
            if st.dead:
                return UNDEF
            return self.call_closure(st, callee, args)
        args = []
        for a in e['args']:
            args.append(self.eval(a, st, fr))
            if st.dead:
                return UNDEF
        return self.call_def(st, fr, f, args, e)

    def gen_map(self, fn, f, fr):
        m = {}
        ta = [self.ty(t, fr) for t in f.get('ta', [])]
        for n, t in zip(fn.get('gt', []), ta):
            m[n] = t
        for n, c in zip(fn.get('gc', []), f.get('ca', [])):
            c = str(c)
            m[('c', n)] = I(int(c)) if c.isdigit() else self.constparam(c, fr)
        return m

    def call_def(self, st, fr, f, args, e):
        if st.dead:
            return UNDEF
        d = f['d']
        fn = self.fns.get(d)
        sp = e.get('sp')
        if fn is not None and not f.get('tr'):
            return self.call_fn(st, fn, args, self.gen_map(fn, f, fr), sp)
        tr = f.get('tr')
        if tr:
            name = f['nm']
            ta = [self.ty(t, fr) for t in f.get('ta', [])]
            selfty = ta[0] if ta else {}
            # abstract circuit
            if selfty.get('k') == 'param' and self.trait_model is not None:
                r = self.trait_model(self, st, tr, name, args, selfty, e)
                if r is not NotImplemented:
                    return r
            g, m = self.find_impl(tr, name, selfty, ta[1:])
            if g is None and selfty.get('k') == 'ref':
                g2, m2 = self.find_impl(tr, name, self.stripref(selfty), ta[1:])
                if g2 is not None and tr.startswith('circuit_converters'):
                    g, m = g2, m2
            if g is not None:
                tn = tr.split('::')[-1]
                if g.get('derived') and tn in DERIVED:
                    return self.derived(st, tn, name, args, selfty)
                m = dict(m)
                for n in g.get('gc', []):
                    m.setdefault(('c', n), self.const_from(selfty, n, fr))
                return self.call_fn(st, g, args, m, sp)
            if fn is not None and fn.get('body'):
                m = {'Self': selfty}
                m.update(self.gen_map(fn, f, fr))
                return self.call_fn(st, fn, args, m, sp)
            if tr.startswith('circuit_converters') and self.trait_model is not None:
                r = self.trait_model(self, st, tr, name, args, selfty, e)
                if r is not NotImplemented:
                    return r
        import models
        return models.call(self, st, fr, f, args, e)

    def const_from(self, selfty, n, fr):
        t = self.stripref(selfty)
        cs = t.get('c') or []
        if cs:
            c = str(cs[0])
            return I(int(c)) if c.isdigit() else self.constparam(c, fr)
        return self.constparam(n, fr)

    def default_of(self, t):
        """the default value of a type"""
        import models
        v = models.default_of(t)
        if v is not None:
            return v
        if t.get('k') == 'tuple':
            return mk('adt', 'tuple', '', *[self.default_of(x) for x in t.get('ts') or t.get('a') or []])
        a = self.adts.get(t.get('d'))
        g, _ = self.find_impl('core::default::Default', 'default', t)
        if a and g is not None and g.get('derived') and len(a['vs']) == 1 and not t.get('a'):
            return mk('adt', a['d'], a['vs'][0].get('n', ''), *[self.default_of(f[1]) for f in a['vs'][0]['fs']])
        raise Unsupported('default')

    def derived(self, st, tn, name, args, selfty=None):
        if tn == 'Default' and selfty is not None:
            return self.default_of(selfty)
        if tn == 'Clone':
            return self.deref_val(st, args[0])
        if tn == 'PartialEq':
            r = self.eqval(self.deref_val(st, args[0]), self.deref_val(st, args[1]))
            return bnot(r) if name == 'ne' else r
        raise Unsupported('derived ' + tn)


DERIVED = ('Clone', 'PartialEq', 'Debug', 'Hash', 'Eq', 'PartialOrd', 'Ord', 'Default')
CF = 'core::ops::control_flow::ControlFlow'
RANGE = 'core::ops::range::Range'
STD_ADTS = {
    OPT: {'None': [], 'Some': ['0']},
    RES: {'Ok': ['0'], 'Err': ['0']},
    CF: {'Continue': ['0'], 'Break': ['0']},
    RANGE: {'Range': ['start', 'end']},
    'core::ops::range::RangeFrom': {'RangeFrom': ['start']},
    'core::ops::range::RangeTo': {'RangeTo': ['end']},
    'core::ops::range::RangeFull': {'RangeFull': []},
    'core::ops::range::RangeToInclusive': {'RangeToInclusive': ['end']},
    'core::ops::range::RangeInclusive': {'RangeInclusive': ['start', 'end', 'exhausted']},
}
