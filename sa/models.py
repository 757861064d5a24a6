"""Models (effect + value) of the standard-library and num-bigint callees."""
from terms import *
import terms as Tm
import facts as Fx
import json
from interp import Unsupported, CF, RANGE

INF = sym('INF', True)
IT = 'It'


def kind_of(f):
    im = f.get('im')
    if im:
        if im['k'] == 'adt':
            return im['d'].split('::')[-1]
        if im['k'] == 'int':
            return 'int'
        return im['k']
    return None


def call(ip, st, fr, f, args, e):
    k = kind_of(f)
    nm = f['nm']
    c = C(ip, st, fr, f, args, e)
    if f.get('tr'):
        t = f['tr'].split('::')[-1]
        h = globals().get(f'T_{t}_{nm}')
        if h is None and t in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
            h = globals().get(f'T_Iterator_{nm}')
        if h is None and t in ('Read', 'Write', 'BufRead'):
            h = globals().get(f'T_Write_{nm}')
        if h is None and t in ('BitAnd', 'BitOr', 'BitXor', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr'):
            h = T_binop
    elif k:
        h = globals().get(f'M_{k}_{nm}')
        if h is None and k in ('Vec', 'slice', 'array'):
            h = globals().get(f'M_seq_{nm}')
        if h is None and k in ('String', 'str'):
            h = globals().get(f'M_str_{nm}')
        if h is None and k in ('Entry', 'OccupiedEntry', 'VacantEntry'):
            h = globals().get(f'M_Entry_{nm}')
    else:
        h = globals().get(f'F_{nm}')
    if h is None:
        h2 = ip.extern.get(f['p']) if hasattr(ip, 'extern') else None
        if h2:
            return h2(c)
        raise Unsupported('callee ' + f['p'])
    return h(c)


class C:
    """call context"""

    def __init__(self, ip, st, fr, f, args, e):
        self.ip, self.st, self.fr, self.f, self.args, self.e = ip, st, fr, f, args, e
        self.sp = e.get('sp')

    def v(self, i):
        return self.ip.deref_val(self.st, self.args[i])

    def dv(self, i):
        """fully dereferenced value"""
        x = self.args[i]
        for _ in range(4):
            y = self.ip.deref_val(self.st, x)
            if y is x:
                break
            x = y
        return x

    def self_ty(self):
        ta = self.f.get('ta') or []
        return self.ip.ty(ta[0], self.fr) if ta else {}

    def ret_ty(self):
        return self.ip.ty(self.e.get('t') or {}, self.fr)

    def put(self, v):
        self.ip.writeref(self.st, self.args[0], v)

    def dec(self):
        return self.ip.dec(self.st)

    def obl(self, kind, cond, info=None):
        self.ip.obl(kind, self.st, cond, self.sp, info)

    def br(self, c, a, b):
        return self.ip.branch(self.st, c, a, b)

    def clo(self, i, *xs, st=None):
        return self.ip.call_closure(st or self.st, self.args[i], xs)


def diverge(c, kind, cond=FALSE):
    c.obl('panic:' + kind, cond)
    c.st.dead = True
    return UNDEF


# ------------------------------------------------------------------ misc
def ident(c):
    return c.args[0]


F_must_use = ident
M_Rc_new = M_Arc_new = M_Box_new = ident
F_box_assume_init_into_vec_unsafe = ident


def F_write_box_via_move(c):
    return c.args[1]


def M_Box_new_uninit(c):
    return UNIT


def F_panic(c):
    return diverge(c, 'panic')


F_panic_fmt = F_panic_display = F_panic_explicit = F_unreachable_display = F_panic_str_2015 = F_panic


def F_assert_failed(c):
    return diverge(c, 'assert')


def F_drop(c):
    return UNIT


def F_swap(c):
    a, b = c.v(0), c.v(1)
    c.ip.writeref(c.st, c.args[0], b)
    c.ip.writeref(c.st, c.args[1], a)
    return UNIT


def F_replace(c):
    a = c.v(0)
    c.put(c.args[1])
    return a


def F_take(c):
    a = c.v(0)
    t = c.ret_ty()
    n = t.get('d', '').split('::')[-1]
    if n == 'Vec':
        c.put(seq())
    elif n == 'HashMap':
        c.put(EMAP)
    elif n == 'Option':
        c.put(NONE)
    elif n == 'String':
        c.put(mk('str'))
    else:
        raise Unsupported('mem::take')
    return a


def F_min(c):
    return imin(c.dv(0), c.dv(1))


def F_max(c):
    a, b = c.dv(0), c.dv(1)
    return ite(le(a, b), b, a)


T_Ord_min, T_Ord_max = F_min, F_max


def M_RefCell_new(c):
    cid = c.ip.alloc(c.st, c.args[0])
    return mk('rc', cid)


def rc_ref(c, v):
    if v.op == 'ite':
        return ite(v.args[0], rc_ref(c, v.args[1]), rc_ref(c, v.args[2]))
    if v.op == 'rc':
        return mk('ref', v.args[0])
    return mk('ref', c.ip.ptrcell(v))


def M_RefCell_borrow(c):
    return rc_ref(c, c.dv(0))


M_RefCell_borrow_mut = M_RefCell_borrow


def M_RefCell_replace(c):
    r = rc_ref(c, c.dv(0))
    old = c.ip.readref(c.st, r)
    c.ip.writeref(c.st, r, c.args[1])
    return old


def M_RefCell_into_inner(c):
    return c.ip.readref(c.st, rc_ref(c, c.dv(0)))


def M_Rc_clone(c):
    return c.dv(0)


M_Rc_as_ref = M_Rc_clone


def T_Clone_clone(c):
    return c.dv(0)


T_Clone_clone_from = None
T_ToOwned_to_owned = T_Clone_clone


def T_Deref_deref(c):
    return c.args[0]


T_DerefMut_deref_mut = T_Deref_deref
T_AsRef_as_ref = T_Deref_deref
T_Borrow_borrow = T_Deref_deref
T_BorrowMut_borrow_mut = T_Deref_deref
T_AsMut_as_mut = T_Deref_deref


def M_Rc_ptr_eq(c):
    a, b = c.dv(0), c.dv(1)
    if a.op == 'rc' and b.op == 'rc':
        return B(a is b)
    if a is b:
        return TRUE
    return mkeq(a, b)


def isbig(t):
    return t.get('k') == 'adt' and t['d'].split('::')[-1] in ('BigInt', 'BigUint')


def T_PartialEq_eq(c):
    if numeric(c):
        a, b = c.dv(0), c.dv(1)
        if a.op in ('sym', 'tdiv') or b.op in ('sym', 'tdiv'):
            return eq0(sub(a, b))
    return c.ip.eqval(c.dv(0), c.dv(1))


def T_PartialEq_ne(c):
    return bnot(T_PartialEq_eq(c))


def numeric(c):
    t = c.ip.stripref(c.self_ty())
    return isbig(t) or t.get('k') == 'int'


def lexless(c, t, a, b):
    """a < b in the derived order of numbers, options and tuples"""
    t = c.ip.stripref(t)
    a, b = c.ip.deref_val(c.st, a), c.ip.deref_val(c.st, b)
    k = t.get('k')
    if k == 'int' or isbig(t):
        return lt(a, b)
    if k == 'bool':
        return band(bnot(a), b)
    if k == 'adt' and t['d'] == OPT:
        x, y = (getfield(v, 'Some', 0, '0') for v in (a, b))
        return band(isvar(b, 'Some'), bor(isvar(a, 'None'), lexless(c, t['a'][0], x, y)))
    if k == 'tuple':
        out, same = FALSE, TRUE
        for i, u in enumerate(t['a'] if 'a' in t else t['ts']):
            x, y = getfield(a, '', i), getfield(b, '', i)
            out = bor(out, band(same, lexless(c, u, x, y)))
            same = band(same, c.ip.eqval(x, y))
        return out
    raise Unsupported('comparison of ' + json.dumps(t)[:80])


def cmpop(fn):
    def h(c):
        if not numeric(c):
            t = c.self_ty()
            if fn is lt:
                return lexless(c, t, c.dv(0), c.dv(1))
            if fn is le:
                return bnot(lexless(c, t, c.dv(1), c.dv(0)))
            if fn is GT:
                return lexless(c, t, c.dv(1), c.dv(0))
            if fn is GE:
                return bnot(lexless(c, t, c.dv(0), c.dv(1)))
            raise Unsupported('comparison of ' + json.dumps(c.self_ty())[:80])
        return fn(c.dv(0), c.dv(1))
    return h


T_PartialOrd_lt = cmpop(lt)
T_PartialOrd_le = cmpop(le)


def GT(a, b):
    return lt(b, a)


def GE(a, b):
    return le(b, a)


T_PartialOrd_gt = cmpop(GT)
T_PartialOrd_ge = cmpop(GE)


def T_Zero_zero(c):
    return ZERO


def T_One_one(c):
    return ONE


def T_Zero_is_zero(c):
    return eq0(c.dv(0))


def T_One_is_one(c):
    return eq0(sub(c.dv(0), ONE))


def T_binop(c):
    t = c.ip.stripref(c.self_ty())
    nm = c.f['tr'].split('::')[-1]
    a, b = c.dv(0), c.dv(1)
    if t.get('d', '').endswith('String') and nm == 'Add':
        return strcat(a, b)
    if isbig(t):
        uns = t['d'].endswith('BigUint')
        if nm == 'Add':
            return add(a, b)
        if nm == 'Sub':
            if uns:
                c.obl('biguint-underflow', le(b, a))
            return sub(a, b)
        if nm == 'Mul':
            return mul(a, b)
        if nm == 'Shl':
            return mul(a, pow2(b))
        if nm == 'Shr':
            return idiv(a, pow2(b))
        if nm in ('Div', 'Rem'):
            c.obl('div0', bnot(eq0(b)))
            if uns:
                return idiv(a, b) if nm == 'Div' else imod(a, b)
            q = Tm.tdiv(a, b)        # truncated division
            return q if nm == 'Div' else sub(a, mul(q, b))
    if t.get('k') in ('int', 'bool'):
        return c.ip.arith(nm, a, b, t, c.st, c.sp)
    raise Unsupported('operator on ' + json.dumps(t)[:100])


def T_Neg_neg(c):
    if numeric(c):
        return scale(c.dv(0), -1)
    raise Unsupported('neg')


def T_Not_not(c):
    t = c.ip.stripref(c.self_ty())
    if t.get('k') == 'bool':
        return bnot(c.dv(0))
    raise Unsupported('not')


def opassign(op):
    def h(c):
        t = c.ip.stripref(c.self_ty())
        old = c.v(0)
        b = c.dv(1)
        if t.get('d', '').endswith('String') and op == 'Add':
            c.put(strcat(old, b))
            return UNIT
        if isbig(t):
            c2 = C(c.ip, c.st, c.fr, dict(c.f, tr='core::ops::' + op), [old, b], c.e)
            c.put(T_binop(c2))
            return UNIT
        if t.get('k') in ('int', 'bool'):
            c.put(c.ip.arith(op, old, b, t, c.st, c.sp))
            return UNIT
        raise Unsupported(op + 'Assign')
    return h


T_AddAssign_add_assign = opassign('Add')
T_SubAssign_sub_assign = opassign('Sub')
T_MulAssign_mul_assign = opassign('Mul')
T_RemAssign_rem_assign = opassign('Rem')
T_DivAssign_div_assign = opassign('Div')
T_BitXorAssign_bitxor_assign = opassign('BitXor')
T_BitAndAssign_bitand_assign = opassign('BitAnd')
T_BitOrAssign_bitor_assign = opassign('BitOr')
T_ShlAssign_shl_assign = opassign('Shl')


def conv(c, v, dst, src):
    dst, src = c.ip.stripref(dst), c.ip.stripref(src)
    if dst == src:
        return v
    if (isbig(dst) or dst.get('k') == 'int') and (isbig(src) or src.get('k') == 'int'):
        return v
    if dst.get('k') == 'int' and src.get('k') == 'bool':
        return b2i(v)
    dn = dst.get('d', '').split('::')[-1]
    if dn in ('String', 'Vec', 'Box', 'Rc', 'Cow'):
        return v
    if dn == 'Option':
        return some(v)
    if dn.endswith('Error'):
        return mk('conv', dn, v)
    raise Unsupported('From ' + json.dumps(dst)[:60])


def T_From_from(c):
    ta = [c.ip.ty(t, c.fr) for t in c.f['ta']]
    return conv(c, c.dv(0), ta[0], ta[1])


def T_Into_into(c):
    ta = [c.ip.ty(t, c.fr) for t in c.f['ta']]
    return into(c, c.args[0], ta[1], ta[0])


def into(c, v, dst, src):
    if dst == src:
        return v
    g, m = c.ip.find_impl('core::convert::From', 'from', dst, [src])
    if g is not None:
        return c.ip.call_fn(c.st, g, [v], m, c.sp)
    return conv(c, c.ip.deref_val(c.st, v), dst, src)


def T_TryFrom_try_from(c):
    ta = [c.ip.ty(t, c.fr) for t in c.f['ta']]
    v = c.dv(0)
    cond = fits(v, ta[0].get('n', '?'))
    return ite(cond, ok(v), err(mk('tryfromerr', v)))


def T_TryInto_try_into(c):
    ta = [c.ip.ty(t, c.fr) for t in c.f['ta']]
    v = c.dv(0)
    cond = fits(v, ta[1].get('n', '?'))
    return ite(cond, ok(v), err(mk('tryfromerr', v)))


def default_of(t):
    n = t.get('d', '').split('::')[-1]
    if n in ('Vec', 'VecDeque'):
        return seq()
    if n in ('HashMap', 'BTreeMap'):
        return EMAP
    if n == 'Option':
        return NONE
    if n == 'String':
        return mk('str')
    if t.get('k') == 'bool':
        return FALSE
    if t.get('k') == 'int' or isbig(t):
        return ZERO
    return None


def T_Default_default(c):
    return c.ip.default_of(c.ret_ty())


# --------------------------------------------------------------- ? operator
def T_Try_branch(c):
    v = c.args[0]

    def go(v):
        if v.op == 'ite':
            return ite(v.args[0], go(v.args[1]), go(v.args[2]))
        if v.op == 'adt' and v.args[0] in (RES, OPT):
            if v.args[1] in ('Ok', 'Some'):
                return mk('adt', CF, 'Continue', v.args[2])
            return mk('adt', CF, 'Break', v)
        t = c.self_ty()
        if t.get('d') == RES:
            s = isvar(v, 'Ok')
            return ite(s, mk('adt', CF, 'Continue', getfield(v, 'Ok', 0, '0')),
                       mk('adt', CF, 'Break', err(getfield(v, 'Err', 0, '0'))))
        s = isvar(v, 'Some')
        return ite(s, mk('adt', CF, 'Continue', getfield(v, 'Some', 0, '0')), mk('adt', CF, 'Break', NONE))
    return go(v)


def T_FromResidual_from_residual(c):
    v = c.args[0]
    ta = [c.ip.ty(t, c.fr) for t in c.f['ta']]
    dst, src = ta[0], ta[1]
    if src.get('d') == OPT:
        return NONE
    d_e, s_e = dst['a'][1], src['a'][1]
    x = getfield(v, 'Err', 0, '0')
    return err(into(c, x, d_e, s_e))


# ------------------------------------------------------------ Option/Result
def S(v):
    return isvar(v, 'Some')


def K_(v):
    return isvar(v, 'Ok')


def pay(v, vn):
    return getfield(v, vn, 0, '0')


def M_Option_is_none(c):
    return bnot(S(c.dv(0)))


def M_Option_is_some(c):
    return S(c.dv(0))


def M_Result_is_ok(c):
    return K_(c.dv(0))


def M_Result_is_err(c):
    return bnot(K_(c.dv(0)))


def M_Option_ok_or(c):
    v = c.args[0]
    return ite(S(v), ok(pay(v, 'Some')), err(c.args[1]))


def sel(c, v, vn, fa, fb):
    return c.br(isvar(v, vn), fa, fb)


def M_Option_ok_or_else(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: ok(pay(v, 'Some')), lambda s: err(c.clo(1, st=s)))


def M_Option_map(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: some(c.clo(1, pay(v, 'Some'), st=s)), lambda s: NONE)


def M_Option_and_then(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: c.clo(1, pay(v, 'Some'), st=s), lambda s: NONE)


def M_Option_unwrap_or(c):
    v = c.args[0]
    return ite(S(v), pay(v, 'Some'), c.args[1])


def M_Option_unwrap_or_default(c):
    v = c.args[0]
    return ite(S(v), pay(v, 'Some'), T_Default_default(c))


def M_Option_unwrap_or_else(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: pay(v, 'Some'), lambda s: c.clo(1, st=s))


def M_Option_map_or(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: c.clo(2, pay(v, 'Some'), st=s), lambda s: c.args[1])


def M_Option_map_or_else(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: c.clo(2, pay(v, 'Some'), st=s), lambda s: c.clo(1, st=s))


def M_Option_or(c):
    v = c.args[0]
    return ite(S(v), v, c.args[1])


def M_Option_or_else(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: v, lambda s: c.clo(1, st=s))


def M_Option_is_some_and(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: c.clo(1, pay(v, 'Some'), st=s), lambda s: FALSE)


def M_Option_filter(c):
    v = c.args[0]
    return sel(c, v, 'Some', lambda s: ite(c.clo(1, pay(v, 'Some'), st=s), v, NONE), lambda s: NONE)


def M_Option_copied(c):
    v = c.args[0]
    if v.op == 'ite':
        return mapite(v, lambda x: copied1(c, x))
    return copied1(c, v)


def mapite(v, fn):
    if v.op == 'ite':
        return ite(v.args[0], mapite(v.args[1], fn), mapite(v.args[2], fn))
    return fn(v)


def copied1(c, v):
    if v.op == 'adt' and v.args[1] == 'Some':
        return some(c.ip.deref_val(c.st, v.args[2]))
    return v


M_Option_cloned = M_Option_copied


def M_Option_unwrap(c):
    v = c.args[0]
    c.obl('panic:unwrap', S(v))
    c.st.assume(S(v))
    return pay(v, 'Some')


M_Option_expect = M_Option_unwrap


def M_Result_unwrap(c):
    v = c.args[0]
    c.obl('panic:unwrap', K_(v))
    c.st.assume(K_(v))
    return pay(v, 'Ok')


M_Result_expect = M_Result_unwrap


def M_Result_ok(c):
    v = c.args[0]
    return ite(K_(v), some(pay(v, 'Ok')), NONE)


def M_Result_and_then(c):
    v = c.args[0]
    return sel(c, v, 'Ok', lambda s: c.clo(1, pay(v, 'Ok'), st=s), lambda s: err(pay(v, 'Err')))


def M_Result_map(c):
    v = c.args[0]
    return sel(c, v, 'Ok', lambda s: ok(c.clo(1, pay(v, 'Ok'), st=s)), lambda s: err(pay(v, 'Err')))


def M_Result_map_err(c):
    v = c.args[0]
    return sel(c, v, 'Ok', lambda s: ok(pay(v, 'Ok')), lambda s: err(c.clo(1, pay(v, 'Err'), st=s)))


def M_Result_unwrap_or(c):
    v = c.args[0]
    return ite(K_(v), pay(v, 'Ok'), c.args[1])


def M_Result_unwrap_or_else(c):
    v = c.args[0]
    return sel(c, v, 'Ok', lambda s: pay(v, 'Ok'), lambda s: c.clo(1, pay(v, 'Err'), st=s))


def M_Result_unwrap_or_default(c):
    v = c.args[0]
    return ite(K_(v), pay(v, 'Ok'), T_Default_default(c))


def M_Result_map_or(c):
    v = c.args[0]
    return sel(c, v, 'Ok', lambda s: c.clo(2, pay(v, 'Ok'), st=s), lambda s: c.args[1])


def M_Option_take(c):
    v = c.v(0)
    c.put(NONE)
    return v


def M_Option_as_ref(c):
    return c.dv(0)


M_Option_as_deref = M_Option_as_ref
M_Result_as_ref = M_Option_as_ref


def M_Option_as_mut(c):
    v = c.v(0)
    r = c.args[0]
    return ite(S(v), some(c.ip.extend(r, mk('pf', 'Some', 0, '0', OPT))), NONE)


M_Option_as_deref_mut = M_Option_as_mut


def M_Option_insert(c):
    c.put(some(c.args[1]))
    return c.ip.extend(c.args[0], mk('pf', 'Some', 0, '0', OPT))


def M_Option_get_or_insert_with(c):
    v = c.v(0)
    nv = sel(c, v, 'Some', lambda s: v, lambda s: some(c.clo(1, st=s)))
    c.put(nv)
    return c.ip.extend(c.args[0], mk('pf', 'Some', 0, '0', OPT))


def M_Option_get_or_insert(c):
    v = c.v(0)
    c.put(ite(S(v), v, some(c.args[1])))
    return c.ip.extend(c.args[0], mk('pf', 'Some', 0, '0', OPT))


def M_bool_then_some(c):
    return ite(c.args[0], some(c.args[1]), NONE)


def M_bool_then(c):
    return c.br(c.args[0], lambda s: some(c.clo(1, st=s)), lambda s: NONE)


# -------------------------------------------------------------------- ints
def M_int_checked_sub(c):
    a, b = c.args
    return ite(le(b, a), some(sub(a, b)), NONE)


def M_int_checked_add(c):
    a, b = c.args
    n = c.f['im'].get('n', 'usize')
    return ite(fits(add(a, b), n), some(add(a, b)), NONE)


def M_int_checked_mul(c):
    a, b = c.args
    n = c.f['im'].get('n', 'usize')
    return ite(fits(mul(a, b), n), some(mul(a, b)), NONE)


def M_int_saturating_sub(c):
    return max0(sub(c.args[0], c.args[1]))


def M_int_saturating_add(c):
    return add(c.args[0], c.args[1])


def wrapped(c, op, r):
    """modulo 2^width; a 64-bit sum is the sum (the overflow condition is recorded)"""
    n = c.f['im'].get('n', 'usize')
    w = Tm.WIDTH.get(n)
    if w is None:
        raise Unsupported('wrapping ' + n)
    if isint(r) is not None:
        return I(isint(r) % (1 << w))
    if w >= 64:
        return c.ip.arith(op, c.args[0], c.args[1], c.f['im'], c.st, c.sp)
    return ite(fits(r, n), r, imod(r, I(1 << w)))


def M_int_wrapping_add(c):
    return wrapped(c, 'Add', add(c.args[0], c.args[1]))


def M_int_wrapping_mul(c):
    return wrapped(c, 'Mul', mul(c.args[0], c.args[1]))


def M_int_wrapping_sub(c):
    a, b = c.args
    n = c.f['im'].get('n', 'usize')
    w = Tm.WIDTH.get(n)
    if w is None:
        raise Unsupported('wrapping ' + n)
    return ite(le(b, a), sub(a, b), add(sub(a, b), I(1 << w)))


def M_int_wrapping_neg(c):
    a = c.args[0]
    w = Tm.WIDTH.get(c.f['im'].get('n', 'usize'))
    if w is None:
        raise Unsupported('wrapping_neg')
    return ite(eq0(a), ZERO, sub(I(1 << w), a))


def bitcount(c, f):
    a = isint(c.args[0])
    w = Tm.WIDTH.get(c.f['im'].get('n', 'usize'))
    if a is None or w is None:
        raise Unsupported('bit count')
    return I(f(a, w))


def M_int_leading_zeros(c):
    return bitcount(c, lambda a, w: w - a.bit_length())


def M_int_trailing_zeros(c):
    return bitcount(c, lambda a, w: (a & -a).bit_length() - 1 if a else w)


def M_int_count_ones(c):
    return bitcount(c, lambda a, w: bin(a).count('1'))


def M_int_rotate_left(c):
    k = isint(c.args[1])
    if k is None:
        raise Unsupported('rotate')
    return bitcount(c, lambda a, w: ((a << k % w) | (a >> (w - k % w))) & ((1 << w) - 1))


def M_int_rotate_right(c):
    k = isint(c.args[1])
    if k is None:
        raise Unsupported('rotate')
    return bitcount(c, lambda a, w: ((a >> k % w) | (a << (w - k % w))) & ((1 << w) - 1))


def M_int_reverse_bits(c):
    return bitcount(c, lambda a, w: int(bin(a)[2:].zfill(w)[::-1], 2))


def M_int_swap_bytes(c):
    return bitcount(c, lambda a, w: int.from_bytes(a.to_bytes(w // 8, 'big'), 'little'))


def M_int_pow(c):
    b, n = isint(c.args[0]), isint(c.args[1])
    if b == 2:
        return pow2(c.args[1])
    if n is not None and n < 64:
        r = ONE
        for _ in range(n):
            r = mul(r, c.args[0])
        return r
    raise Unsupported('pow')


def M_int_min_value(c):
    return ZERO


def M_int_is_power_of_two(c):
    return mk('ispow2', c.args[0])


def M_int_div_ceil(c):
    return idiv(add(c.args[0], sub(c.args[1], ONE)), c.args[1])


def M_int_abs_diff(c):
    a, b = c.args
    return ite(le(b, a), sub(a, b), sub(b, a))


def M_int_is_multiple_of(c):
    return eq0(imod(c.args[0], c.args[1]))


# ------------------------------------------------------------------ strings
def T_ToString_to_string(c):
    v = c.dv(0)
    t = c.ip.stripref(c.self_ty())
    if t.get('k') == 'str' or t.get('d', '').endswith('String'):
        return v
    return disp(c, v, t)


def disp(c, v, t):
    t = c.ip.stripref(t)
    if t.get('k') == 'str' or t.get('d', '').endswith('String'):
        return v
    if t.get('k') == 'int' or isbig(t):
        n = isint(v)
        return mk('str', str(n)) if n is not None else mk('disp', v)
    if t.get('k') == 'bool':
        return ite(v, mk('str', 'true'), mk('str', 'false'))
    if t.get('k') == 'adt' and t['d'].startswith('circuit_converters'):
        # newtype Display: inline the local impl when it prints one field
        g, m = c.ip.find_impl('core::fmt::Display', 'fmt', t)
        if g is not None and not g.get('derived'):
            fmtc = mk('ref', c.ip.alloc(c.st, mk('str')))
            c.ip.call_fn(c.st, g, [v, fmtc], m, c.sp)
            return c.ip.readref(c.st, fmtc)
    return mk('disp', v)


def M_Argument_new_display(c):
    return mk('fmtarg', disp(c, c.dv(0), c.ip.ty(c.f['ta'][0], c.fr)))


def M_Argument_new_debug(c):
    return mk('fmtarg', mk('dbg', c.dv(0)))


def template(c):
    tv = c.args[0]
    if tv.op == 'ref':
        tv = c.ip.deref_val(c.st, tv)
    if tv.op == 'str':
        return tv
    return tv


def M_Arguments_new(c):
    tv = c.dv(0)
    av = c.dv(1)
    bs = None
    if tv.op == 'str':
        bs = [ord(x) for x in (tv.args[0] if tv.args else '')]
    elif tv.op == 'seq':
        bs = []
        for g in tv.args:
            if g.op == 'comp' or isint(g.args[0]) is None:
                raise Unsupported('format template')
            bs.append(isint(g.args[0]))
    if bs is None:
        raise Unsupported('format template')
    out = []
    i = n = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 128:
            out.append(bytes(bs[i:i + b]).decode('utf8', 'replace'))
            i += b
        elif b == 192:
            x = seq_at(av, I(n), c.dec())
            n += 1
            out.append(x.args[0] if x.op == 'fmtarg' else mk('disp', x))
        else:
            raise Unsupported('format spec')
    return strcat(*out)


def M_Arguments_from_str(c):
    return c.dv(0)


M_Arguments_new_const = M_Arguments_from_str
M_Arguments_from_str_nonconst = M_Arguments_from_str


def F_format(c):
    return c.args[0]


def M_Formatter_write_fmt(c):
    c.put(strcat(c.v(0), c.dv(1)))
    return ok(UNIT)


M_Formatter_write_str = M_Formatter_write_fmt


def M_str_as_str(c):
    return c.dv(0)


M_str_as_bytes = M_str_into_bytes = M_str_to_owned = M_str_to_string = M_str_into_string = M_str_as_str
M_str_as_mut_str = M_str_into_boxed_str = M_str_as_str


def M_str_new(c):
    return mk('str')


def M_str_with_capacity(c):
    capacity(c, c.args[0])
    return mk('str')


def M_str_push_str(c):
    c.put(strcat(c.v(0), c.dv(1)))
    return UNIT


M_str_push = M_str_push_str


def pystr(v):
    """the text of a ground string"""
    if v.op == 'str' and all(type(x) is str for x in v.args):
        return ''.join(v.args)
    return None


def lit(s):
    return mk('str', s) if s else mk('str')


# A line of a text in canonical form (single blanks, nothing at the ends) is
# mk('line', seq of tokens); mk('tok', n) is the decimal text of a number.
def M_str_len(c):
    v = c.dv(0)
    if v.op == 'line':
        n = isint(seq_len(v.args[0]))
        if n == 0:
            return ZERO
        if n is not None:
            return add(ONE, sizeof_(v))
    if v.op == 'tok':
        return add(ONE, sizeof_(v))
    return seq_len(v)


def sizeof_(v):
    x = mk('extralen', v)
    NAT.add(x)
    return x


def M_str_is_empty(c):
    return eq0(M_str_len(c))


INTRANGE = {'u8': (0, 2 ** 8 - 1), 'u16': (0, 2 ** 16 - 1), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1), 'usize': (0, 2 ** 64 - 1), 'u128': (0, 2 ** 128 - 1),
            'i8': (-2 ** 7, 2 ** 7 - 1), 'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1)}


def M_str_parse(c):
    v = c.dv(0)
    t = c.ip.ty((c.f.get('ta') or [{}])[-1], c.fr)
    if c.f.get('tr'):
        t = c.self_ty()
    return parse_as(v, t)


def parse_as(v, t):
    if v.op == 'ite':
        return ite(v.args[0], parse_as(v.args[1], t), parse_as(v.args[2], t))
    s = pystr(v)
    n = t.get('n', '') or t.get('k', '')
    if s is not None:
        if n in INTRANGE:
            body = s[1:] if s[:1] == '+' or (s[:1] == '-' and n[0] == 'i') else s
            if body.isascii() and body.isdigit():
                x = int(body) * (-1 if s[:1] == '-' else 1)
                lo, hi = INTRANGE[n]
                if lo <= x <= hi:
                    return ok(I(x))
            return err(mk('parseerr', v))
        if t.get('k') == 'bool':
            return ok(B(s == 'true')) if s in ('true', 'false') else err(mk('parseerr', v))
    if v.op == 'tok' and n in ('usize', 'u64'):
        return ok(v.args[0])
    if n not in INTRANGE:
        raise Unsupported('parse')
    x = mk('parse', v)
    if n[:1] == 'u':
        NAT.add(x)
        # the type is not part of the term: keep the widest seen
        Tm.UPPER[x] = max(INTRANGE[n][1], Tm.UPPER.get(x, 0))
    return ite(mk('parses', v), ok(x), err(mk('parseerr', v)))


T_FromStr_from_str = M_str_parse


WS = ' \t\n\r\x0b\x0c'


def strs_it(xs):
    return it_seq(seq(*[el(lit(x)) for x in xs]))


def strmap(c, v, fn, sym_, line=None):
    s = pystr(v)
    if s is not None:
        return fn(s)
    if v.op == 'ite':
        return ite(v.args[0], strmap(c, v.args[1], fn, sym_, line), strmap(c, v.args[2], fn, sym_, line))
    if v.op in ('line', 'tok') and line is not None:
        r = line(v)
        if r is not None:
            return r
    return sym_(v)


def toks(v):
    return v.args[0] if v.op == 'line' else seq(el(v))


def M_str_split_whitespace(c):
    def symb(v):
        return it_seq(mk('words', v))
    v = c.dv(0)
    return strmap(c, v, lambda s: strs_it(s.split()), symb, lambda v: it_seq(toks(v)))


def matcher(c, i=1):
    """character test of a pattern argument, or a ground substring"""
    p = c.dv(i)
    s = pystr(p)
    if s is not None:
        return s
    if p.op == 'seq' and all(g.op == 'el' and pystr(g.args[0]) is not None for g in p.args):
        return {pystr(g.args[0]) for g in p.args}
    if p.op in ('clos', 'fnitem'):
        def test(ch):
            r = c.ip.call_closure(c.st, p, [lit(ch)])
            if r not in (TRUE, FALSE):
                raise Unsupported('pattern closure')
            return r is TRUE
        return test
    raise Unsupported('pattern ' + show(p)[:60])


def pysplit(s, m):
    if isinstance(m, str) and m:
        return s.split(m)
    out, cur = [], ''
    for ch in s:
        if (ch in m) if isinstance(m, set) else m(ch):
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def M_str_split(c):
    v = c.dv(0)
    if pystr(c.dv(1)) == ' ':
        return strmap(c, v, lambda s: strs_it(s.split(' ')), lambda v: it_seq(mk('split', v, c.dv(1))), lambda v: it_seq(toks(v)) if v.op == 'tok' or v.args[0].args else strs_it(['']))
    m = matcher(c)
    return strmap(c, v, lambda s: strs_it(pysplit(s, m)), lambda v: unsup('split'))


def unsup(x):
    raise Unsupported(x)


def M_str_split_terminator(c):
    m = matcher(c)

    def go(s):
        xs = pysplit(s, m)
        return strs_it(xs[:-1] if xs and xs[-1] == '' else xs)
    return strmap(c, c.dv(0), go, lambda v: unsup('split'))


def M_str_splitn(c):
    n, m = isint(c.args[1]), matcher(c, 2)
    if n is None or not isinstance(m, str) or not m:
        raise Unsupported('splitn')
    return strmap(c, c.dv(0), lambda s: strs_it(s.split(m, n - 1) if n else []), lambda v: unsup('splitn'))


def M_str_split_once(c):
    m = matcher(c)
    if not isinstance(m, str) or not m:
        raise Unsupported('split_once')

    def go(s):
        if m not in s:
            return NONE
        a, b = s.split(m, 1)
        return some(mk('adt', 'tuple', '', lit(a), lit(b)))
    return strmap(c, c.dv(0), go, lambda v: unsup('split_once'))


def M_str_split_ascii_whitespace(c):
    return M_str_split_whitespace(c)


def M_str_lines(c):
    def go(s):
        xs = s.split('\n')
        if xs and xs[-1] == '':
            xs.pop()
        return strs_it([x[:-1] if x.endswith('\r') else x for x in xs])
    return strmap(c, c.dv(0), go, lambda v: it_seq(mk('slines', v)))


def M_str_trim(c):
    return strmap(c, c.dv(0), lambda s: lit(s.strip()), lambda v: mk('trim', v), lambda v: v)


def M_str_trim_end(c):
    return strmap(c, c.dv(0), lambda s: lit(s.rstrip()), lambda v: mk('trim_end', v), lambda v: v)


def pattern(c):
    p = pystr(c.dv(1))
    if p is None:
        raise Unsupported('pattern of a trim')
    return p


def M_str_trim_start_matches(c):
    p, s = pattern(c), pystr(c.dv(0))
    if s is None or not p:
        raise Unsupported('trim_start_matches of a symbolic text')
    while s.startswith(p):
        s = s[len(p):]
    return lit(s)


def M_str_trim_end_matches(c):
    p, s = pattern(c), pystr(c.dv(0))
    if s is None or not p:
        raise Unsupported('trim_end_matches of a symbolic text')
    while s.endswith(p):
        s = s[:-len(p)]
    return lit(s)


def M_str_trim_start(c):
    return strmap(c, c.dv(0), lambda s: lit(s.lstrip()), lambda v: mk('trim_start', v), lambda v: v)


def pattest(s, m, where):
    if isinstance(m, str):
        return {'starts': s.startswith(m), 'ends': s.endswith(m), 'in': m in s}[where]
    f = (lambda ch: ch in m) if isinstance(m, set) else m
    if where == 'in':
        return any(f(ch) for ch in s)
    return bool(s) and f(s[0] if where == 'starts' else s[-1])


def M_str_starts_with(c):
    m = matcher(c)
    return strmap(c, c.dv(0), lambda s: B(pattest(s, m, 'starts')), lambda v: mk('starts', v, c.dv(1)))


def M_str_ends_with(c):
    m = matcher(c)
    return strmap(c, c.dv(0), lambda s: B(pattest(s, m, 'ends')), lambda v: mk('ends', v, c.dv(1)))


def M_str_contains(c):
    m = matcher(c)
    return strmap(c, c.dv(0), lambda s: B(pattest(s, m, 'in')), lambda v: mk('contains', v, c.dv(1)))


def M_str_strip_prefix(c):
    m = matcher(c)
    if not isinstance(m, str):
        raise Unsupported('strip_prefix')
    return strmap(c, c.dv(0), lambda s: some(lit(s[len(m):])) if s.startswith(m) else NONE, lambda v: unsup('strip_prefix'))


def M_str_strip_suffix(c):
    m = matcher(c)
    if not isinstance(m, str):
        raise Unsupported('strip_suffix')
    return strmap(c, c.dv(0), lambda s: some(lit(s[:len(s) - len(m)])) if s.endswith(m) else NONE, lambda v: unsup('strip_suffix'))


def M_str_to_uppercase(c):
    return strmap(c, c.dv(0), lambda s: lit(s.upper()), lambda v: mk('upper', v), lambda v: v if v.op == 'tok' else None)


def M_str_to_lowercase(c):
    return strmap(c, c.dv(0), lambda s: lit(s.lower()), lambda v: mk('lower', v), lambda v: v if v.op == 'tok' else None)


M_str_to_ascii_uppercase, M_str_to_ascii_lowercase = M_str_to_uppercase, M_str_to_lowercase


def M_str_eq_ignore_ascii_case(c):
    a, b = pystr(c.dv(0)), pystr(c.dv(1))
    if a is None or b is None:
        raise Unsupported('eq_ignore_ascii_case')
    return B(a.lower() == b.lower())


def M_str_clear(c):
    c.put(mk('str'))
    return UNIT


def M_str_chars(c):
    return strmap(c, c.dv(0), strs_it, lambda v: it_seq(mk('chars', v)))


def M_char_is_whitespace(c):
    s = pystr(c.dv(0))
    return B(s.isspace()) if s else mk('isspace', c.dv(0))


M_char_is_ascii_whitespace = M_char_is_whitespace


def M_char_is_ascii_digit(c):
    s = pystr(c.dv(0))
    return B(s in '0123456789') if s else mk('isdigit', c.dv(0))


M_char_is_numeric = M_char_is_ascii_digit


def T_Extend_extend(c):
    t = c.ip.stripref(c.self_ty())
    src = c.args[1]
    if t.get('d', '').endswith(('Map', 'Set')):
        def each(s, x, lp):
            m = c.ip.readref(s, c.args[0])
            x = c.ip.deref_val(s, x)
            k, v = (x, UNIT) if t['d'].endswith('Set') else (c.ip.deref_val(s, getfield(x, '', 0)), c.ip.deref_val(s, getfield(x, '', 1)))
            c.ip.writeref(s, c.args[0], mset(m, k, some(v)))
        drive(c, T_into_iter(c, src, c.ip.ty(c.f['ta'][-1], c.fr)), each)
        return UNIT
    if textual(c.ip.deref_val(c.st, src)):
        c.put(bytes_cat(c.v(0), c.dv(1)))
        return UNIT
    s = collect_seq(c, T_into_iter(c, src, c.ip.ty(c.f['ta'][-1], c.fr)))
    if t.get('d', '').endswith('String'):
        c.put(strcat(c.v(0), *[as_piece(g) for g in derefs(c, s).args]))
        return UNIT
    c.put(bytes_cat(c.v(0), derefs(c, s)))
    return UNIT


def derefs(c, s):
    """copy out of references held in a sequence"""
    s = as_seq(s)
    out = []
    for g in s.args:
        if g.op == 'el':
            out.append(el(c.ip.deref_val(c.st, g.args[0])))
        elif g.args[2].op == 'ref':
            k = fresh('k', True)
            out.append(comp(g.args[1], k, c.ip.deref_val(c.st, comp_at(g, k))))
        else:
            out.append(g)
    return seq(*out)


# ---------------------------------------------------------------- sequences
def M_Vec_new(c):
    return seq()


def capacity(c, n):
    """allocating room for n elements panics when n is beyond isize::MAX bytes"""
    if getattr(c.ip, 'cap', False):
        c.obl('panic:capacity', lt(n, I(2 ** 63)))


def M_Vec_with_capacity(c):
    capacity(c, c.args[0])
    return M_Vec_new(c)


def M_Vec_push(c):
    v = c.v(0)
    if textual(v):
        c.put(bytes_cat(v, seq(el(c.args[1]))))
        return UNIT
    c.put(seq_cat(v, seq(el(c.args[1]))))
    return UNIT


def M_Vec_pop(c):
    v = c.v(0)
    n = seq_len(v)

    def some_(s):
        x = seq_at(v, sub(n, ONE), c.ip.dec(s))
        c.ip.writeref(s, c.args[0], seq_slice(v, ZERO, sub(n, ONE), c.ip.dec(s)))
        return some(x)
    return c.br(lt(ZERO, n), some_, lambda s: NONE)


def M_Vec_append(c):
    a, b = c.v(0), c.v(1)
    c.put(bytes_cat(a, b))
    c.ip.writeref(c.st, c.args[1], seq())
    return UNIT


def textual(v):
    return v.op in ('str', 'disp') or v.op == 'loopstr'


def astext(v):
    """a byte vector as text"""
    if v.op == 'seq':
        bs = [isint(g.args[0]) if g.op == 'el' else None for g in v.args]
        if None in bs or any(b >= 128 for b in bs):
            raise Unsupported('bytes as text')
        return lit(bytes(bs).decode())
    return v


def as_piece(g):
    if g.op != 'el' or not textual(g.args[0]):
        raise Unsupported('string pieces')
    return g.args[0]


def bytes_cat(a, b):
    if textual(a) or textual(b):
        return strcat(mk('str'), astext(a), astext(b))
    return seq_cat(a, b)


def M_Vec_extend_from_slice(c):
    c.put(bytes_cat(c.v(0), c.dv(1)))
    return UNIT


def M_Vec_insert(c):
    v = c.v(0)
    i = c.args[1]
    n = seq_len(v)
    c.obl('index', le(i, n))
    c.put(seq_cat(seq_slice(v, ZERO, i, c.dec()), seq(el(c.args[2])), seq_slice(v, i, n, c.dec())))
    return UNIT


def M_Vec_remove(c):
    v = c.v(0)
    i = c.args[1]
    n = seq_len(v)
    c.obl('index', lt(i, n))
    x = seq_at(v, i, c.dec())
    c.put(seq_cat(seq_slice(v, ZERO, i, c.dec()), seq_slice(v, add(i, ONE), n, c.dec())))
    return x


def M_Vec_truncate(c):
    v = c.v(0)
    n = c.args[1]
    c.put(seq_slice(v, ZERO, imin(n, seq_len(v)), c.dec()))
    return UNIT


def M_Vec_resize(c):
    v = c.v(0)
    n = c.args[1]
    old = seq_len(v)

    def grow(s):
        c.ip.writeref(s, c.args[0], seq_cat(v, seq(comp(sub(n, old), fresh('k'), c.args[2]))))
        return UNIT

    def shrink(s):
        c.ip.writeref(s, c.args[0], seq_slice(v, ZERO, n, c.ip.dec(s)))
        return UNIT
    return c.br(le(old, n), grow, shrink)


def M_Vec_clear(c):
    c.put(seq())
    return UNIT


def M_Vec_drain(c):
    v = c.v(0)
    a, b = rng(c, c.args[1], seq_len(v))
    x = seq_slice(v, a, b, c.dec())
    c.put(seq_cat(seq_slice(v, ZERO, a, c.dec()), seq_slice(v, b, seq_len(v), c.dec())))
    return mk('adt', IT, 'seq', x, ZERO)


def M_Vec_split_off(c):
    v = c.v(0)
    i = c.args[1]
    c.put(seq_slice(v, ZERO, i, c.dec()))
    return seq_slice(v, i, seq_len(v), c.dec())


def M_seq_len(c):
    if textual(c.dv(0)):
        return M_str_len(c)
    return seq_len(c.dv(0))


def M_seq_is_empty(c):
    return eq0(M_seq_len(c))


def M_seq_to_vec(c):
    return c.dv(0)


M_seq_as_slice = M_seq_clone = M_seq_into_boxed_slice = M_seq_into_vec = M_seq_to_vec


def M_seq_as_mut_slice(c):
    return c.args[0]


def M_seq_reserve(c):
    capacity(c, c.args[1])
    return UNIT


def M_seq_shrink_to_fit(c):
    return UNIT




def M_seq_iter(c):
    return mk('adt', IT, 'seq', c.dv(0), ZERO)


def iter_mut(c, r):
    v = c.ip.deref_val(c.st, r)
    k = fresh('k', True)
    return mk('adt', IT, 'seq', seq(comp(seq_len(v), k, c.ip.extend(r, mk('pi', k)))), ZERO)


def M_seq_iter_mut(c):
    return iter_mut(c, c.args[0])


def M_seq_concat(c):
    v = c.dv(0)
    return flatten_seq(v, c)


def M_seq_join(c):
    v, sep = derefs(c, c.dv(0)), c.dv(1)
    if not textual(sep) or any(g.op == 'el' and not textual(g.args[0]) for g in v.args):
        raise Unsupported('join')
    out = mk('str')
    for i, g in enumerate(v.args):
        if g.op == 'el':
            out = strcat(out, sep, g.args[0]) if i else strcat(mk('str'), g.args[0])
            continue
        k = fresh('k', True)
        x = comp_at(g, k)
        if not textual(x):
            raise Unsupported('join')
        import loops
        if i:
            out = strcat(out, loops.strcomp(g.args[1], k, strcat(sep, x)))
            continue
        if len(v.args) > 1 and c.dec()(lt(ZERO, g.args[1])) is not True:
            raise Unsupported('join')
        rest_ = loops.strcomp(sub(g.args[1], ONE), k, strcat(sep, comp_at(g, add(k, ONE))))
        first = strcat(mk('str'), comp_at(g, ZERO), rest_)
        if len(v.args) == 1:
            return c.br(lt(ZERO, g.args[1]), lambda s: first, lambda s: mk('str'))
        out = first
    return out


def M_str_bytes(c):
    v = c.dv(0)
    s = pystr(v)
    if s is not None:
        return it_seq(seq(*[el(I(b)) for b in s.encode()]))
    if not textual(v):
        raise Unsupported('bytes')
    return v        # understood by extend and collect only


def flatten_seq(v, c=None):
    v = as_seq(v)
    out = []
    for g in v.args:
        if g.op == 'el':
            x = g.args[0]
            if x.op == 'ref' and c is not None:
                x = c.ip.deref_val(c.st, x)
            if x.op == 'str':
                return strcat(*[y.args[0] for y in v.args])
            out.extend(as_seq(x).args)
        else:
            k = fresh('k', True)
            x = comp_at(g, k)
            L = seq_len(x)
            if k in free_syms(L):
                import loops
                out.extend(as_seq(loops.flat(g.args[1], k, x)).args)
                continue
            t = fresh('t', True)
            q, r = idiv(t, L), imod(t, L)
            out.append(comp(mul(g.args[1], L), t, subst(seq_at(subst(x, {k: q}), r), {})))
    return seq(*out)


def M_seq_chunks(c):
    v = c.dv(0)
    n = c.args[1]
    L = seq_len(v)
    c.obl('panic:chunk0', bnot(eq0(n)))
    cnt = idiv(add(L, sub(n, ONE)), n)
    j = fresh('j', True)
    full = mul(j, n)
    chunk_len = imin(n, sub(L, full))
    i = fresh('i', True)
    body = seq(comp(chunk_len, i, seq_at(v, add(full, i))))
    return mk('adt', IT, 'seq', seq(comp(cnt, j, body)), ZERO)


def M_seq_rchunks(c):
    v = c.dv(0)
    n = isint(c.args[1])
    L = isint(seq_len(v))
    if n is None or L is None or n == 0:
        raise Unsupported('rchunks of a sequence of any length')
    return it_seq(seq(*[el(seq_slice(v, I(max(e - n, 0)), I(e))) for e in range(L, 0, -n)]))


def M_seq_chunks_exact(c):
    v = c.dv(0)
    n = c.args[1]
    L = seq_len(v)
    j = fresh('j', True)
    i = fresh('i', True)
    body = seq(comp(n, i, seq_at(v, add(mul(j, n), i))))
    return mk('adt', IT, 'seq', seq(comp(idiv(L, n), j, body)), ZERO)


def opt_at(c, v, i, cond):
    return ite(cond, some(seq_at(v, i, c.dec())), NONE)


def M_seq_get(c):
    v = c.dv(0)
    i = c.args[1]
    t = c.ip.ty((c.f.get('ta') or [{}])[-1], c.fr)
    if i.op == 'adt':
        a, b = rng(c, i, seq_len(v))
        return ite(band(le(a, b), le(b, seq_len(v))), some(seq_slice(v, a, b, c.dec())), NONE)
    cond = lt(i, seq_len(v))
    d = Fx.decide(c.st.pc, cond)
    if d is False:
        return NONE
    x = seq_at(v, i, lambda q: True if q is cond else c.dec()(q))
    return ite(cond, some(x), NONE)


def M_seq_get_mut(c):
    v = c.v(0)
    i = c.args[1]
    return ite(lt(i, seq_len(v)), some(c.ip.extend(c.args[0], mk('pi', i))), NONE)


def M_seq_first(c):
    v = c.dv(0)
    return opt_at(c, v, ZERO, lt(ZERO, seq_len(v)))


def M_seq_last(c):
    v = c.dv(0)
    return opt_at(c, v, sub(seq_len(v), ONE), lt(ZERO, seq_len(v)))


def M_seq_split_at(c):
    v = c.dv(0)
    n = c.args[1]
    L = seq_len(v)
    c.obl('index', le(n, L))
    return mk('adt', 'tuple', '', seq_slice(v, ZERO, n, c.dec()), seq_slice(v, n, L, c.dec()))


def M_seq_split_first(c):
    v = c.dv(0)
    L = seq_len(v)
    return ite(lt(ZERO, L), some(mk('adt', 'tuple', '', seq_at(v, ZERO, c.dec()), seq_slice(v, ONE, L, c.dec()))), NONE)


def M_seq_split_last(c):
    v = c.dv(0)
    L = seq_len(v)
    return ite(lt(ZERO, L), some(mk('adt', 'tuple', '', seq_at(v, sub(L, ONE), c.dec()), seq_slice(v, ZERO, sub(L, ONE), c.dec()))), NONE)


def M_seq_reverse(c):
    c.put(reversed_seq(c.v(0)))
    return UNIT


def M_seq_swap(c):
    v = c.v(0)
    i, j = c.args[1], c.args[2]
    L = seq_len(v)
    c.obl('index', band(lt(i, L), lt(j, L)))
    a, b = seq_at(v, i, c.dec()), seq_at(v, j, c.dec())
    c.put(seq_store(seq_store(v, i, b, c.dec()), j, a, c.dec()))
    return UNIT


def ground_key(v):
    """a value with a known place in its type's derived order, as a python key"""
    if isint(v) is not None:
        return isint(v)
    if v is TRUE or v is FALSE:
        return v is TRUE
    s = pystr(v)
    if s is not None:
        return s
    if v.op == 'seq' and all(g.op == 'el' for g in v.args):
        return tuple(ground_key(g.args[0]) for g in v.args)
    if v.op == 'adt' and (len(v.args) == 2 or v.args[1] in ('', v.args[0].split('::')[-1]) or len(Tm.ADTS.get(v.args[0], ())) == 1):
        return tuple(ground_key(x) for x in v.args[2:])
    raise Unsupported('order of ' + show(v)[:60])


def ground_items(v):
    v = as_seq(v)
    if v.op != 'seq' or any(g.op != 'el' for g in v.args):
        raise Unsupported('order of the elements of ' + show(v)[:60])
    return [g.args[0] for g in v.args]


def M_seq_sort(c):
    v = c.v(0)
    xs = ground_items(v)
    if len(xs) > 1:
        c.put(seq(*[el(x) for x in sorted(xs, key=ground_key)]))
    return UNIT


M_seq_sort_unstable = M_seq_sort


def M_seq_sort_by_key(c):
    xs = ground_items(c.v(0))
    if len(xs) > 1:
        ks = []
        for i, x in enumerate(xs):
            ks.append((ground_key(c.ip.deref_val(c.st, c.ip.call_closure(c.st, c.args[1], [lend(c, c.st, x)]))), i))
        c.put(seq(*[el(xs[i]) for _, i in sorted(ks)]))
    return UNIT


M_seq_sort_unstable_by_key = M_seq_sort_by_cached_key = M_seq_sort_by_key


def M_Vec_dedup(c):
    xs = ground_items(c.v(0))
    out = []
    for x in xs:
        if out:
            e = mkeq(out[-1], x)
            if e is TRUE:
                continue
            if e is not FALSE:
                raise Unsupported('dedup of ' + show(x)[:60])
        out.append(x)
    c.put(seq(*[el(x) for x in out]))
    return UNIT


def M_seq_contains(c):
    v, x = c.dv(0), c.dv(1)
    k = fresh('k', True)
    n = isint(seq_len(v))
    if n is not None and n <= 32:
        return bor(*[mkeq(seq_at(v, I(i)), x) for i in range(n)])
    return exists(seq_len(v), k, mkeq(seq_at(v, k), x))


def M_seq_copy_from_slice(c):
    c.put(c.dv(1))
    return UNIT


M_seq_clone_from_slice = M_seq_copy_from_slice


def M_seq_fill(c):
    v = c.v(0)
    c.put(seq(comp(seq_len(v), fresh('k'), c.args[1])))
    return UNIT


def F_from_elem(c):
    capacity(c, c.args[1])
    return seq(comp(c.args[1], fresh('k'), c.args[0])) if isint(c.args[1]) != 0 else seq()


def reversed_seq(v):
    v = as_seq(v)
    n = seq_len(v)
    k = fresh('k', True)
    if all(g.op == 'el' for g in v.args):
        return seq(*v.args[::-1])
    return seq(comp(n, k, seq_at(v, sub(sub(n, ONE), k))))


def rng(c, r, n):
    """(a, b) of a range value over length n"""
    if r.op == 'adt':
        d = r.args[0].split('::')[-1]
        if d == 'Range':
            return r.args[2], r.args[3]
        if d == 'RangeFrom':
            return r.args[2], n
        if d == 'RangeTo':
            return ZERO, r.args[2]
        if d == 'RangeFull':
            return ZERO, n
        if d == 'RangeInclusive':
            return r.args[2], add(r.args[3], ONE)
        if d == 'RangeToInclusive':
            return ZERO, add(r.args[2], ONE)
    raise Unsupported('range ' + show(r)[:60])


def M_RangeInclusive_new(c):
    return mk('adt', 'core::ops::range::RangeInclusive', 'RangeInclusive', c.args[0], c.args[1], FALSE)


M_RangeInclusive_start = lambda c: c.dv(0).args[2]
M_RangeInclusive_end = lambda c: c.dv(0).args[3]


def M_Range_contains(c):
    a, b = rng(c, c.dv(0), ZERO)
    x = c.dv(1)
    return band(le(a, x), lt(x, b))


def T_Index_index(c):
    t = c.ip.stripref(c.self_ty())
    n = t.get('d', '').split('::')[-1]
    i = c.args[1]
    base = c.args[0]
    v = c.dv(0)
    if n == 'HashMap':
        k = c.dv(1)
        o = mget(v, k, c.dec())
        c.obl('mapindex', isvar(o, 'Some'), k)
        c.st.assume(isvar(o, 'Some'))
        return pay(o, 'Some')
    if i.op == 'adt' and i.args[0].startswith('core::ops::range'):
        L = seq_len(v)
        a, b = rng(c, i, L)
        c.obl('slice', band(le(a, b), le(b, L)))
        if isstr(t):
            return str_slice(c, v, a, b)
        return seq_slice(v, a, b, c.dec())
    c.obl('index', lt(i, seq_len(v)))
    c.st.assume(lt(i, seq_len(v)))
    return seq_at(v, i, c.dec())


def isstr(t):
    return t.get('k') == 'str' or t.get('d', '').endswith('::String')


def boundary(v, i):
    """byte offset i lies between two characters of v (or is out of range)"""
    if i is ZERO or v.op == 'tok':
        return TRUE
    s, n = pystr(v), isint(i)
    if s is not None and n is not None:
        b = s.encode()
        return B(n == len(b) or (0 <= n < len(b) and (b[n] & 0xC0) != 0x80))
    if s is not None and s.isascii():
        return le(i, I(len(s)))
    return bor(eq0(sub(i, seq_len(v))), mk('boundary', v, i))


def str_slice(c, v, a, b):
    c.obl('slice at a character', band(boundary(v, a), boundary(v, b)))
    s, x, y = pystr(v), isint(a), isint(b)
    if s is not None and x is not None and y is not None:
        bs = s.encode()[x:y]
        try:
            return lit(bs.decode())
        except UnicodeDecodeError:
            c.st.assume(FALSE)
            return UNDEF
    return mk('substr', v, a, b)


def M_str_is_char_boundary(c):
    return boundary(c.dv(0), c.args[1])


def M_str_get(c):
    v, i = c.dv(0), c.args[1]
    L = M_str_len(c)
    a, b = rng(c, i, L)
    s, x, y = pystr(v), isint(a), isint(b)
    good = band(le(a, b), le(b, L), boundary(v, a), boundary(v, b))
    if s is not None and x is not None and y is not None:
        return some(lit(s.encode()[x:y].decode())) if good is TRUE else NONE
    return ite(good, some(mk('substr', v, a, b)), NONE)


def M_str_split_at(c):
    v, i = c.dv(0), c.args[1]
    L = M_str_len(c)
    c.obl('slice', le(i, L))
    return mk('adt', 'tuple', '', str_slice(c, v, ZERO, i), str_slice(c, v, i, L))


def T_IndexMut_index_mut(c):
    t = c.ip.stripref(c.self_ty())
    i = c.args[1]
    v = c.v(0)
    if i.op == 'adt' and i.args[0].startswith('core::ops::range'):
        L = seq_len(v)
        a, b = rng(c, i, L)
        c.obl('slice', band(le(a, b), le(b, L)))
        return c.ip.extend(c.args[0], mk('psl', a, b))
    c.obl('index', lt(i, seq_len(v)))
    return c.ip.extend(c.args[0], mk('pi', i))


# --------------------------------------------------------------------- maps
def M_HashMap_new(c):
    return EMAP


def M_HashMap_with_capacity(c):
    capacity(c, c.args[0])
    return M_HashMap_new(c)


M_BTreeMap_new = M_HashMap_new
M_HashSet_new = M_HashMap_new


def M_HashMap_get(c):
    return mget(c.dv(0), c.dv(1), c.dec())


def M_HashMap_contains_key(c):
    return isvar(mget(c.dv(0), c.dv(1), c.dec()), 'Some')


def M_HashMap_insert(c):
    m = c.v(0)
    k = c.args[1]
    old = mget(m, k, c.dec())
    c.put(mset(m, k, some(c.args[2])))
    return old


def M_HashMap_remove(c):
    m = c.v(0)
    k = c.dv(1)
    old = mget(m, k, c.dec())
    c.put(mset(m, k, NONE))
    return old


def M_HashMap_get_mut(c):
    m = c.v(0)
    k = c.dv(1)
    o = mget(m, k, c.dec())
    return ite(isvar(o, 'Some'), some(c.ip.extend(c.args[0], mk('pk', k))), NONE)


def M_HashMap_clear(c):
    c.put(EMAP)
    return UNIT


def M_HashMap_len(c):
    return maplen(c.dv(0), c.dec())


def M_HashMap_entry(c):
    return mk('adt', 'Ent', '', c.args[0], c.args[1])


def ints_of(k):
    """sort key of a literal term"""
    if k.op == 'adt':
        return tuple(y for x in k.args if isinstance(x, T) for y in ints_of(x))
    n = isint(k)
    return (n if n is not None else int(k is TRUE),)


HASHORDER = 'insertion'


def entries(c, m, srt=False):
    """the entries of a map with literal keys.  A hash map is walked in one of its
    possible orders: enough to witness, never used to prove"""
    m = Fx.prune(m, c.st.pc)
    if m.op == 'emap':
        return []
    if m.op != 'mset' or not ground(m.args[1]):
        raise Unsupported('map iteration')
    d, b = mindex(m)
    if b.op != 'emap':
        raise Unsupported('map iteration')
    out = []
    for k, v in d.items():
        if v is NONE:
            continue
        if v.op != 'adt':
            raise Unsupported('map iteration')
        out.append((k, v.args[2]))
    if srt:
        out.sort(key=lambda kv: ints_of(kv[0]))
    elif HASHORDER == 'reversed':
        out.reverse()
    elif HASHORDER == 'rotated':
        out = out[len(out) // 2:] + out[:len(out) // 2]
    return out


def is_sorted(c):
    return 'BTree' in c.f.get('p', '') or 'BTree' in json.dumps(c.self_ty() or {})[:400]


def pair(a, b):
    return mk('adt', 'tuple', '', a, b)


def M_HashMap_iter(c):
    return it_seq(seq(*[el(pair(k, v)) for k, v in entries(c, c.dv(0), is_sorted(c))]))


def M_HashMap_keys(c):
    return it_seq(seq(*[el(k) for k, v in entries(c, c.dv(0), is_sorted(c))]))


def M_HashMap_values(c):
    return it_seq(seq(*[el(v) for k, v in entries(c, c.dv(0), is_sorted(c))]))


M_HashMap_into_iter, M_HashMap_into_keys, M_HashMap_into_values = M_HashMap_iter, M_HashMap_keys, M_HashMap_values
M_HashSet_iter = M_HashSet_into_iter = M_BTreeSet_iter = M_HashMap_keys


def M_HashMap_iter_mut(c):
    r = c.args[0]
    return it_seq(seq(*[el(pair(k, c.ip.extend(r, mk('pk', k)))) for k, v in entries(c, c.v(0), is_sorted(c))]))


def M_HashMap_values_mut(c):
    r = c.args[0]
    return it_seq(seq(*[el(c.ip.extend(r, mk('pk', k))) for k, v in entries(c, c.v(0), is_sorted(c))]))


def M_HashMap_drain(c):
    es = entries(c, c.v(0))
    c.put(EMAP)
    return it_seq(seq(*[el(pair(k, v)) for k, v in es]))


def M_HashMap_retain(c):
    for k, v in entries(c, c.v(0), is_sorted(c)):
        keep = c.ip.call_closure(c.st, c.args[1], [k, c.ip.extend(c.args[0], mk('pk', k))])
        if c.st.dead:
            return UNDEF
        m = c.v(0)
        c.put(mset(m, k, ite(keep, mget(m, k), NONE)))
    return UNIT


def M_HashMap_is_empty(c):
    return eq0(M_HashMap_len(c))


def M_HashMap_reserve(c):
    return UNIT


M_HashMap_shrink_to_fit = M_HashMap_reserve
M_HashSet_len, M_HashSet_is_empty, M_HashSet_clear, M_HashSet_with_capacity = M_HashMap_len, M_HashMap_is_empty, M_HashMap_clear, M_HashMap_with_capacity

for _n in ('get', 'contains_key', 'insert', 'remove', 'get_mut', 'clear', 'len', 'entry', 'iter', 'keys', 'values', 'into_iter', 'into_keys', 'into_values', 'iter_mut', 'values_mut', 'retain', 'is_empty'):
    globals()['M_BTreeMap_' + _n] = globals()['M_HashMap_' + _n]


def M_HashSet_insert(c):
    m = c.v(0)
    k = c.args[1]
    old = mget(m, k, c.dec())
    c.put(mset(m, k, some(UNIT)))
    return bnot(isvar(old, 'Some'))


def M_HashSet_contains(c):
    return isvar(mget(c.dv(0), c.dv(1), c.dec()), 'Some')


def M_HashSet_remove(c):
    m = c.v(0)
    k = c.dv(1)
    old = mget(m, k, c.dec())
    c.put(mset(m, k, NONE))
    return isvar(old, 'Some')


for _n in ('new', 'insert', 'contains', 'remove', 'len', 'is_empty', 'clear'):
    globals()['M_BTreeSet_' + _n] = globals()['M_HashSet_' + _n]


def ent(c):
    e = c.args[0]
    r, k = e.args[2], e.args[3]
    m = c.ip.readref(c.st, r)
    return r, k, m, mget(m, k, c.dec())


def M_Entry_or_insert(c):
    r, k, m, o = ent(c)
    nv = ite(isvar(o, 'Some'), o, some(c.args[1]))
    if nv is not o:
        c.ip.writeref(c.st, r, mset(m, k, nv))
    return c.ip.extend(r, mk('pk', k))


def M_Entry_or_insert_with(c):
    r, k, m, o = ent(c)

    def ins(s):
        v = c.clo(1, st=s)
        if s.dead:
            return UNDEF
        mm = c.ip.readref(s, r)
        c.ip.writeref(s, r, mset(mm, k, some(v)))
        return UNIT
    c.br(isvar(o, 'Some'), lambda s: UNIT, ins)
    return c.ip.extend(r, mk('pk', k))


def M_Entry_or_default(c):
    t = c.ret_ty()
    c2 = C(c.ip, c.st, c.fr, c.f, c.args, dict(c.e, t=c.ip.stripref(t)))
    d = T_Default_default(c2)
    c.args = [c.args[0], d]
    return M_Entry_or_insert(c)


def M_Entry_and_modify(c):
    r, k, m, o = ent(c)

    def mod(s):
        c.clo(1, c.ip.extend(r, mk('pk', k)), st=s)
        return UNIT
    c.br(isvar(o, 'Some'), mod, lambda s: UNIT)
    return c.args[0]


# ---------------------------------------------------------------- iterators
def it_seq(s, pos=ZERO):
    return mk('adt', IT, 'seq', s, pos)


def T_IntoIterator_into_iter(c):
    return T_into_iter(c, c.args[0], c.self_ty())


def T_into_iter(c, x, t):
    if t.get('k') == 'ref' and t.get('m'):
        inner = c.ip.deref_val(c.st, x)
        if inner.op == 'adt' and inner.args[0] == IT:
            return x
        return iter_mut(c, x)
    for _ in range(3):
        y = c.ip.deref_val(c.st, x)
        if y is x:
            break
        x = y
    if x.op == 'adt':
        d = x.args[0].split('::')[-1]
        if x.args[0] == IT:
            return x
        if d == 'Range':
            a, b = x.args[2], x.args[3]
            k = fresh('k', True)
            cnt = sub(b, a)
            cnt = cnt if Fx.decide(c.st.pc, ge0(cnt)) is True else max0(cnt)
            if isint(cnt) == 0:
                return it_seq(seq())
            return it_seq(seq(comp(cnt, k, add(a, k))))
        if d == 'RangeInclusive':
            a, b = x.args[2], x.args[3]
            k = fresh('k', True)
            return it_seq(seq(comp(max0(add(sub(b, a), ONE)), k, add(a, k))))
        if d == 'RangeFrom':
            k = fresh('k', True)
            return it_seq(seq(comp(INF, k, add(x.args[2], k))))
        if x.args[0] == OPT:
            return it_seq(seq(el(pay(x, 'Some')))) if x.args[1] == 'Some' else it_seq(seq())
    if x.op in MAPOPS or t.get('d', '').endswith(('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet')):
        b = c.ip.stripref(t).get('d', '')
        es = entries(c, x, 'BTree' in b)
        if b.endswith('Set'):
            return it_seq(seq(*[el(k) for k, v in es]))
        return it_seq(seq(*[el(pair(k, v)) for k, v in es]))
    if x.op == 'ite' and isit(x):
        return x
    return it_seq(x)


def isit(x):
    if x.op == 'ite':
        return isit(x.args[1]) and isit(x.args[2])
    return x.op == 'adt' and x.args[0] == IT


def getit(c, x):
    """iterator value (through references)"""
    v = c.ip.deref_val(c.st, x)
    if v.op == 'adt' and v.args[0] == IT:
        return v
    if v.op == 'ite' and isit(v):
        a, b = getit(c, v.args[1]), getit(c, v.args[2])
        if a.args[1] == 'seq' == b.args[1] and a.args[2] is b.args[2]:
            return it_seq(a.args[2], ite(v.args[0], a.args[3], b.args[3]))
    v = T_into_iter(c, v, {})
    if v.op == 'adt' and v.args[0] == IT:
        return v
    raise Unsupported('iterator ' + show(v)[:80])


def rest(c, it):
    """remaining elements of a materialisable iterator as a sequence"""
    k = it.args[1]
    if k == 'seq':
        s, pos = it.args[2], it.args[3]
        if pos is ZERO:
            return s
        return seq_slice(s, pos, seq_len(s), c.dec())
    if k == 'map':
        inner = rest(c, it.args[2])
        i = fresh('i', True)
        n = seq_len(inner)
        cn = isint(n)
        if inner.op == 'seq' and cn is not None and cn <= Tm.SMALL[0]:
            out = []
            for j in range(cn):
                out.append(el(pure(c, it.args[3], seq_at(inner, I(j)), None)))
            return seq(*out)
        body = pure(c, it.args[3], seq_at(inner, i, c.dec()), lt(i, n))
        return seq(comp(n, i, body))
    raise Unsupported('iterator kind ' + k)


def pure(c, clo, x, cond):
    s = c.st.copy().force()
    if cond is not None:
        s.assume(cond)
    before = dict(s.cells)
    n0 = c.ip.ncell
    v = c.ip.call_closure(s, clo, [x])
    if s.dead:
        raise Unsupported('diverging closure')
    s.force()
    for k, b in before.items():
        if s.cells.get(k) is not b:
            raise Impure()
    # references to cells created inside the closure are read out
    v = snapshot(c, s, v, n0)
    return v


def snapshot(c, s, v, n0):
    if v.op == 'ref' and isinstance(v.args[0], int) and v.args[0] > n0:
        return c.ip.readref(s, v)
    if v.op == 'adt' and v.args[0] == IT and v.args[1] == 'map':
        # a lazy iterator that may use the closure's own locals: run it here
        try:
            return it_seq(rest(C(c.ip, s, c.fr, c.f, c.args, c.e), v))
        except Unsupported:
            return v
    return v


class Impure(Unsupported):
    def __init__(self):
        super().__init__('impure closure in a lazy adapter')


def mat(c, i=0):
    return rest(c, getit(c, c.args[i]))


def T_Iterator_map(c):
    it = getit(c, c.args[0])
    return mk('adt', IT, 'map', it, c.args[1])


def T_Iterator_next(c):
    it = getit(c, c.args[0])
    if it.args[1] == 'seq':
        s, pos = it.args[2], it.args[3]
        cond = lt(pos, seq_len(s))

        def yes(x):
            c.ip.writeref(x, c.args[0], it_seq(s, add(pos, ONE)))
            return some(seq_at(s, pos, c.ip.dec(x)))
        return c.br(cond, yes, lambda x: NONE)
    if it.args[1] == 'map':
        inner = it.args[2]
        if inner.args[1] != 'seq':
            raise Unsupported('nested lazy next')
        s, pos = inner.args[2], inner.args[3]

        def yes(x):
            c.ip.writeref(x, c.args[0], mk('adt', IT, 'map', it_seq(s, add(pos, ONE)), it.args[3]))
            return some(c.ip.call_closure(x, it.args[3], [seq_at(s, pos, c.ip.dec(x))]))
        return c.br(lt(pos, seq_len(s)), yes, lambda x: NONE)
    raise Unsupported('next on ' + it.args[1])


def T_Iterator_next_back(c):
    s = mat(c)
    n = seq_len(s)

    def yes(x):
        c.ip.writeref(x, c.args[0], it_seq(seq_slice(s, ZERO, sub(n, ONE), c.ip.dec(x))))
        return some(seq_at(s, sub(n, ONE), c.ip.dec(x)))
    return c.br(lt(ZERO, n), yes, lambda x: NONE)


def T_Iterator_by_ref(c):
    return c.args[0]


def T_Iterator_rev(c):
    return it_seq(reversed_seq(mat(c)))


def T_Iterator_copied(c):
    return it_seq(derefs(c, mat(c)))


T_Iterator_cloned = T_Iterator_copied


def T_Iterator_enumerate(c):
    s = mat(c)
    k = fresh('k', True)
    return it_seq(seq(comp(seq_len(s), k, mk('adt', 'tuple', '', k, seq_at(s, k)))))


def T_Iterator_zip(c):
    a = mat(c)
    b = rest(c, getit(c, T_into_iter(c, c.args[1], {})))
    k = fresh('k', True)
    la, lb = seq_len(a), seq_len(b)
    if la is INF:
        n = lb
    elif lb is INF or la is lb:
        n = la
    else:
        cc = Fx.decide(c.st.pc, le(la, lb))
        n = la if cc is True else lb if Fx.decide(c.st.pc, le(lb, la)) is True else imin(la, lb)
    if isint(n) == 0:
        return it_seq(seq())
    return it_seq(seq(comp(n, k, mk('adt', 'tuple', '', seq_at(a, k), seq_at(b, k)))))


F_zip = T_Iterator_zip


def T_Iterator_chain(c):
    return it_seq(seq_cat(mat(c), rest(c, getit(c, T_into_iter(c, c.args[1], {})))))


def T_Iterator_take(c):
    s = mat(c)
    n = c.args[1]
    L = seq_len(s)
    if L is not INF:
        d = Fx.decide(c.st.pc, le(n, L))
        n = n if d is True else L if Fx.decide(c.st.pc, le(L, n)) is True else imin(n, L)
    return it_seq(seq_slice(s, ZERO, n, c.dec()))


def T_Iterator_skip(c):
    s = mat(c)
    n = c.args[1]
    L = seq_len(s)
    d = Fx.decide(c.st.pc, le(n, L))
    n = n if d is True else imin(n, L)
    return it_seq(seq_slice(s, n, L, c.dec()))


def T_Iterator_step_by(c):
    s = mat(c)
    n = c.args[1]
    k = fresh('k', True)
    return it_seq(seq(comp(idiv(add(seq_len(s), sub(n, ONE)), n), k, seq_at(s, mul(k, n)))))


def T_Iterator_flatten(c):
    return it_seq(flatten_seq(mat(c), c))


def T_Iterator_flat_map(c):
    it = mk('adt', IT, 'map', getit(c, c.args[0]), c.args[1])
    s = rest(c, it)
    s2 = []
    for g in as_seq(s).args:
        if g.op == 'el':
            s2.append(el(rest(c, getit(c, T_into_iter(c, g.args[0], {})))))
        else:
            k = fresh('k', True)
            s2.append(comp(g.args[1], k, rest(c, getit(c, T_into_iter(c, comp_at(g, k), {})))))
    return it_seq(flatten_seq(seq(*s2), c))


def T_Iterator_len(c):
    return seq_len(mat(c))


T_Iterator_count = T_Iterator_len


def T_Iterator_last(c):
    s = mat(c)
    return ite(lt(ZERO, seq_len(s)), some(seq_at(s, sub(seq_len(s), ONE), c.dec())), NONE)


def T_Iterator_nth(c):
    it = getit(c, c.args[0])
    s = rest(c, it)
    n = c.args[1]
    L = seq_len(s)

    def yes(x):
        c.ip.writeref(x, c.args[0], it_seq(seq_slice(s, add(n, ONE), L, c.ip.dec(x))))
        return some(seq_at(s, n, c.ip.dec(x)))

    def no(x):
        c.ip.writeref(x, c.args[0], it_seq(seq()))
        return NONE
    return c.br(lt(n, L), yes, no)


def drive(c, itval, each, sp=None):
    """run `each(state, elem, lp)` for every element (loop summarised)"""
    from interp import Frame
    ip, st = c.ip, c.st
    cell = ip.alloc(st, itval)
    r = mk('ref', cell)
    fr = Frame(None, {})

    def body(s, lp):
        lp['scope'] = 'drive'
        cc = C(ip, s, c.fr, c.f, [r], c.e)
        o = T_Iterator_next(cc)

        def yes(x):
            each(x, getfield(o, 'Some', 0, '0'), lp)
            return UNIT

        def no(x):
            lp['breaks'].append((x.copy(), UNIT))
            x.dead = True
            return UNDEF
        ip.branch(s, isvar(o, 'Some'), yes, no)
    return ip.run_loop(st, body, fr, sp)


def T_Iterator_for_each(c):
    def each(s, x, lp):
        c.ip.call_closure(s, c.args[1], [x])
    drive(c, getit(c, c.args[0]), each)
    return UNIT


def T_Iterator_fold(c):
    acc = c.ip.alloc(c.st, c.args[1])
    r = mk('ref', acc)

    def each(s, x, lp):
        v = c.ip.call_closure(s, c.args[2], [c.ip.readref(s, r), x])
        if not s.dead:
            c.ip.writeref(s, r, v)
    drive(c, getit(c, c.args[0]), each)
    return UNDEF if c.st.dead else c.ip.readref(c.st, r)


def T_Iterator_try_fold(c):
    acc = c.ip.alloc(c.st, c.args[1])
    r = mk('ref', acc)
    res = mk('ref', c.ip.alloc(c.st, UNIT))
    t = c.ret_ty()
    vn = 'Ok' if t.get('d') == RES else 'Some'

    def each(s, x, lp):
        v = c.ip.call_closure(s, c.args[2], [c.ip.readref(s, r), x])
        if s.dead:
            return

        def good(y):
            c.ip.writeref(y, r, pay(v, vn))
            return UNIT

        def bad(y):
            lp['breaks'].append((y.copy(), v))
            y.dead = True
            return UNDEF
        c.ip.branch(s, isvar(v, vn), good, bad)
    v = drive(c, getit(c, c.args[0]), each)
    if c.st.dead:
        return UNDEF
    fin = c.ip.readref(c.st, r)
    fin = ok(fin) if vn == 'Ok' else some(fin)
    return replace_unit(v, fin)


def replace_unit(v, fin):
    if v is UNIT:
        return fin
    if v.op == 'ite':
        return ite(v.args[0], replace_unit(v.args[1], fin), replace_unit(v.args[2], fin))
    return v


def T_Iterator_try_for_each(c):
    t = c.ret_ty()
    vn = 'Ok' if t.get('d') == RES else 'Some'

    def each(s, x, lp):
        v = c.ip.call_closure(s, c.args[1], [x])
        if s.dead:
            return

        def bad(y):
            lp['breaks'].append((y.copy(), v))
            y.dead = True
            return UNDEF
        c.ip.branch(s, isvar(v, vn), lambda y: UNIT, bad)
    v = drive(c, getit(c, c.args[0]), each)
    if c.st.dead:
        return UNDEF
    return replace_unit(v, ok(UNIT) if vn == 'Ok' else some(UNIT))


def quant(c, want):
    s = rest_lazy(c)

    def each(st, x, lp):
        v = c.ip.call_closure(st, c.args[1], [x])
        if st.dead:
            return

        def hit(y):
            lp['breaks'].append((y.copy(), B(want)))
            y.dead = True
            return UNDEF
        c.ip.branch(st, v if want else bnot(v), hit, lambda y: UNIT)
    v = drive(c, s, each)
    return replace_unit(v, B(not want))


def rest_lazy(c):
    return getit(c, c.args[0])


def T_Iterator_any(c):
    return quant(c, True)


def T_Iterator_all(c):
    return quant(c, False)


def T_Iterator_sum(c):
    s = mat(c)
    n = seq_len(s)
    out = ZERO
    for g in as_seq(s).args:
        if g.op == 'el':
            out = add(out, c.ip.deref_val(c.st, g.args[0]))
        else:
            k = fresh('k', True)
            out = add(out, sumk(g.args[1], k, c.ip.deref_val(c.st, comp_at(g, k))))
    return out


def first(c, it, test):
    """run over the elements until test(state, elem, index) gives Some"""
    n = mk('ref', c.ip.alloc(c.st, ZERO))

    def each(s, x, lp):
        i = c.ip.readref(s, n)
        r = test(s, x, i)
        if s.dead:
            return

        def hit(y):
            lp['breaks'].append((y.copy(), r))
            y.dead = True
            return UNDEF

        def go(y):
            c.ip.writeref(y, n, add(i, ONE))
            return UNIT
        c.ip.branch(s, isvar(r, 'Some'), hit, go)
    v = drive(c, it, each)
    return UNDEF if c.st.dead else replace_unit(v, NONE)


def T_Iterator_position(c):
    return first(c, getit(c, c.args[0]), lambda s, x, i: ite(c.ip.call_closure(s, c.args[1], [x]), some(i), NONE))


def T_Iterator_rposition(c):
    m = mat(c)
    L = sub(seq_len(m), ONE)
    return first(c, it_seq(reversed_seq(m)), lambda s, x, i: ite(c.ip.call_closure(s, c.args[1], [x]), some(sub(L, i)), NONE))


def lend(c, s, x):
    """reference to a value handed to a predicate"""
    return mk('ref', c.ip.alloc(s, x))


def T_Iterator_find(c):
    return first(c, getit(c, c.args[0]), lambda s, x, i: ite(c.ip.call_closure(s, c.args[1], [lend(c, s, x)]), some(x), NONE))


def T_Iterator_rfind(c):
    return first(c, it_seq(reversed_seq(mat(c))), lambda s, x, i: ite(c.ip.call_closure(s, c.args[1], [lend(c, s, x)]), some(x), NONE))


def T_Iterator_find_map(c):
    return first(c, getit(c, c.args[0]), lambda s, x, i: c.ip.call_closure(s, c.args[1], [x]))


def keepers(c, choose):
    """elements choose(state, elem) gives as Some, in order"""
    out = mk('ref', c.ip.alloc(c.st, seq()))

    def each(s, x, lp):
        r = choose(s, x)
        if s.dead:
            return

        def yes(y):
            c.ip.writeref(y, out, seq_cat(c.ip.readref(y, out), seq(el(pay(r, 'Some')))))
            return UNIT
        c.ip.branch(s, isvar(r, 'Some'), yes, lambda y: UNIT)
    drive(c, getit(c, c.args[0]), each)
    return UNDEF if c.st.dead else it_seq(c.ip.readref(c.st, out))


def T_Iterator_filter(c):
    return keepers(c, lambda s, x: ite(c.ip.call_closure(s, c.args[1], [lend(c, s, x)]), some(x), NONE))


def T_Iterator_filter_map(c):
    return keepers(c, lambda s, x: c.ip.call_closure(s, c.args[1], [x]))


def T_Iterator_inspect(c):
    def see(s, x):
        c.ip.call_closure(s, c.args[1], [lend(c, s, x)])
        return some(x)
    return keepers(c, see)


def T_Iterator_take_while(c):
    out = mk('ref', c.ip.alloc(c.st, seq()))

    def test(s, x, i):
        p = c.ip.call_closure(s, c.args[1], [lend(c, s, x)])
        c.ip.writeref(s, out, ite(p, seq_cat(c.ip.readref(s, out), seq(el(x))), c.ip.readref(s, out)))
        return ite(p, NONE, some(i))
    first(c, getit(c, c.args[0]), test)
    return UNDEF if c.st.dead else it_seq(c.ip.readref(c.st, out))


def T_Iterator_map_while(c):
    out = mk('ref', c.ip.alloc(c.st, seq()))

    def test(s, x, i):
        r = c.ip.call_closure(s, c.args[1], [x])
        if s.dead:
            return NONE

        def yes(y):
            c.ip.writeref(y, out, seq_cat(c.ip.readref(y, out), seq(el(pay(r, 'Some')))))
            return NONE
        return c.ip.branch(s, isvar(r, 'Some'), yes, lambda y: some(i))
    first(c, getit(c, c.args[0]), test)
    return UNDEF if c.st.dead else it_seq(c.ip.readref(c.st, out))


def T_Iterator_unzip(c):
    s = mat(c)
    a, b = [], []
    for g in as_seq(s).args:
        if g.op != 'el':
            k = fresh('k', True)
            v = comp_at(g, k)
            a.append(comp(g.args[1], k, getfield(v, '', 0)))
            b.append(comp(g.args[1], k, getfield(v, '', 1)))
        else:
            a.append(el(getfield(g.args[0], '', 0)))
            b.append(el(getfield(g.args[0], '', 1)))
    return mk('adt', 'tuple', '', seq(*a), seq(*b))


def extreme(c, larger):
    s = as_seq(mat(c))
    if any(g.op != 'el' for g in s.args):
        raise Unsupported('max of a sequence of unknown length')
    best = None
    for g in s.args:
        v = g.args[0]
        if best is None:
            best = v
            continue
        p, q = c.ip.deref_val(c.st, best), c.ip.deref_val(c.st, v)
        best = ite(le(p, q) if larger else lt(q, p), v, best)
    return NONE if best is None else some(best)


def T_Iterator_max(c):
    return extreme(c, True)


def T_Iterator_min(c):
    return extreme(c, False)


def T_Iterator_size_hint(c):
    n = seq_len(mat(c))
    return mk('adt', 'tuple', '', n, some(n))


def collect_seq(c, it):
    it = getit(c, it)
    try:
        return rest(c, it)
    except Impure:
        pass
    except Unsupported:
        pass
    out = mk('ref', c.ip.alloc(c.st, seq()))

    def each(s, x, lp):
        c.ip.writeref(s, out, seq_cat(c.ip.readref(s, out), seq(el(x))))
    drive(c, it, each)
    return seq() if c.st.dead else c.ip.readref(c.st, out)


def T_Iterator_collect(c):
    t = c.ret_ty()
    d = t.get('d', '')
    if d.endswith('::Vec') or t.get('k') == 'slice':
        return collect_seq(c, c.args[0])
    if d in (RES, OPT):
        vn = 'Ok' if d == RES else 'Some'
        out = mk('ref', c.ip.alloc(c.st, seq()))
        it = getit(c, c.args[0])

        def each(s, x, lp):
            def good(y):
                c.ip.writeref(y, out, seq_cat(c.ip.readref(y, out), seq(el(pay(x, vn)))))
                return UNIT

            def bad(y):
                lp['breaks'].append((y.copy(), x))
                y.dead = True
                return UNDEF
            c.ip.branch(s, isvar(x, vn), good, bad)
        v = drive(c, it, each)
        if c.st.dead:
            return UNDEF
        fin = c.ip.readref(c.st, out)
        inner = t['a'][0]
        if inner.get('k') == 'tuple':
            fin = UNIT
        elif not (inner.get('d', '').endswith('::Vec')):
            raise Unsupported('collect')
        fin = ok(fin) if vn == 'Ok' else some(fin)
        return replace_unit(v, fin)
    if d.endswith('::String'):
        s = rest(c, getit(c, c.args[0]))
        if all(g.op == 'el' for g in s.args):
            return strcat(mk('str'), *[g.args[0] for g in s.args])
        out = mk('ref', c.ip.alloc(c.st, mk('str')))

        def each(s_, x, lp):
            c.ip.writeref(s_, out, strcat(c.ip.readref(s_, out), c.ip.deref_val(s_, x)))
        drive(c, it_seq(s), each)
        return c.ip.readref(c.st, out)
    if d.endswith('HashSet') or d.endswith('BTreeSet'):
        out = mk('ref', c.ip.alloc(c.st, EMAP))

        def each(s, x, lp):
            c.ip.writeref(s, out, mset(c.ip.readref(s, out), c.ip.deref_val(s, x), some(UNIT)))
        drive(c, getit(c, c.args[0]), each)
        return c.ip.readref(c.st, out)
    if d.endswith('HashMap') or d.endswith('BTreeMap'):
        out = mk('ref', c.ip.alloc(c.st, EMAP))

        def each(s, x, lp):
            m = c.ip.readref(s, out)
            c.ip.writeref(s, out, mset(m, c.ip.deref_val(s, getfield(x, '', 0)), some(getfield(x, '', 1))))
        drive(c, getit(c, c.args[0]), each)
        return c.ip.readref(c.st, out)
    raise Unsupported('collect into ' + d)


def T_FromIterator_from_iter(c):
    return T_Iterator_collect(c)


def F_repeat(c):
    return it_seq(seq(comp(INF, fresh('k'), c.args[0])))


def F_repeat_n(c):
    return it_seq(seq(comp(c.args[1], fresh('k'), c.args[0])) if isint(c.args[1]) != 0 else seq())


def F_once(c):
    return it_seq(seq(el(c.args[0])))


def F_empty(c):
    return it_seq(seq())


# ---------------------------------------------------------------------- io
def M_BufReader_new(c):
    return c.args[0]


M_Cursor_new = M_BufWriter_new = M_BufReader_new


def T_Write_lines(c):
    """lines of an arbitrary reader: each one is io-ok or io-err"""
    v = c.dv(0)
    if v.op == 'adt' and v.args[0] == 'Rdr':
        return it_seq(v.args[2])
    return it_seq(mk('lines', v))


def rdr(c):
    """(place, lines left) of a ground reader"""
    r = c.args[0]
    for _ in range(4):
        v = c.ip.readref(c.st, r)
        if v.op != 'ref':
            break
        r = v
    if v.op != 'adt' or v.args[0] != 'Rdr' or v.args[2].op != 'seq' or any(g.op != 'el' for g in v.args[2].args):
        raise Unsupported('reader')
    return r, [g.args[0] for g in v.args[2].args]


def T_Write_read_line(c):
    r, ls = rdr(c)
    buf = c.args[1]
    if not ls:
        return ok(ZERO)
    x = ls[0]
    if x.op != 'adt' or x.args[1] not in ('Ok', 'Err'):
        raise Unsupported('reader line')
    c.ip.writeref(c.st, r, mk('adt', 'Rdr', '', seq(*[el(l) for l in ls[1:]])))
    if x.args[1] == 'Err':
        return x
    s = pystr(x.args[2])
    old = pystr(c.dv(1))
    if s is None or old is None:
        raise Unsupported('read_line')
    c.ip.writeref(c.st, buf, lit(old + s + '\n'))
    return ok(I(len((s + '\n').encode())))


def T_Write_read_to_string(c):
    r, ls = rdr(c)
    old = pystr(c.dv(1))
    out = ''
    for x in ls:
        if x.op == 'adt' and x.args[1] == 'Err':
            return x
        s = pystr(x.args[2]) if x.op == 'adt' else None
        if s is None or old is None:
            raise Unsupported('read_to_string')
        out += s + '\n'
    c.ip.writeref(c.st, c.args[1], lit(old + out))
    c.ip.writeref(c.st, r, mk('adt', 'Rdr', '', seq()))
    return ok(I(len(out.encode())))


def emit(c, v):
    """append v to the writer; v = None is a flush"""
    r = c.args[0]
    for _ in range(5):
        w = c.ip.readref(c.st, r)
        if w.op != 'ref':
            break
        r = w
    if w.op == 'adt' and w.args[0] == 'Sink' and c.ip.writer_hook is not None:
        return c.ip.writer_hook(c, r, w, v)
    if w.op in ('seq', 'str'):
        if v is not None:
            c.ip.writeref(c.st, r, bytes_cat(w, v))
        return ok(UNIT)
    raise Unsupported('write without sink')


def T_Write_write_all(c):
    return emit(c, c.dv(1))


def T_Write_write(c):
    v = c.dv(1)
    s = pystr(astext(v)) if v.op != 'sym' else None
    c.partial = s
    r = emit(c, v)
    if isvar(r, 'Ok') is TRUE and r.args[2] is UNIT:
        r = ok(I(len(s.encode())) if s is not None else fresh('written', True))
    return r


def T_Write_write_fmt(c):
    return emit(c, c.dv(1))


def T_Write_flush(c):
    return emit(c, None)


T_Write_write_str = T_Write_write_all


def T_Write_write_char(c):
    return emit(c, c.dv(1))


def T_Write_by_ref(c):
    return c.args[0]


def M_Sink_identity(c):
    return c.args[0]


M_BufWriter_get_mut = M_BufWriter_get_ref = M_BufWriter_by_ref = M_Sink_identity


# ------------------------------------------------------------------ bigints
def M_BigUint_to_bytes_le(c):
    v = c.dv(0)
    return mk('bytes_le', v)


def M_BigInt_to_bytes_le(c):
    v = c.dv(0)
    return mk('adt', 'tuple', '', mk('sign', v), mk('bytes_le', mk('abs', v)))


def M_BigUint_from_bytes_le(c):
    v = c.dv(0)
    if v.op == 'bytes_le':
        return v.args[0]
    return mk('from_bytes_le', v)


def M_BigUint_bits(c):
    return mk('nbits', c.dv(0))


def M_BigInt_bits(c):
    v = c.dv(0)
    return I(abs(isint(v)).bit_length()) if isint(v) is not None else mk('nbits', mk('abs', v))


def M_BigInt_bit(c):
    v, i = isint(c.dv(0)), isint(c.args[1])
    if v is None or i is None:
        raise Unsupported('BigInt::bit')
    return B(bool(v >> i & 1))


def digits(c, w):
    v = c.dv(0)
    if isint(v) is not None:
        v, out = isint(v), []
        while v:
            out.append(el(I(v % (1 << w))))
            v >>= w
        return seq(*out)
    k = fresh('k', True)
    return seq(comp(idiv(add(mk('nbits', v), I(w - 1)), I(w)), k, imod(idiv(v, pow2(scale(k, w))), I(1 << w))))


def M_BigUint_to_u64_digits(c):
    return digits(c, 64)


def M_BigUint_to_u32_digits(c):
    return digits(c, 32)


def M_BigUint_bit(c):
    return mk('bit', c.dv(0), c.args[1])


def M_BigInt_to_biguint(c):
    v = c.dv(0)
    return ite(ge0(v), some(v), NONE)


def M_BigInt_is_negative(c):
    return bnot(ge0(c.dv(0)))


def T_Signed_is_negative(c):
    return bnot(ge0(c.dv(0)))


def T_Signed_abs(c):
    return mk('abs', c.dv(0))


def T_Integer_mod_floor(c):
    return imod(c.dv(0), c.dv(1))


def T_Integer_is_even(c):
    return eq0(imod(c.dv(0), I(2)))


def M_BigUint_modpow(c):
    return mk('modpow', c.dv(0), c.dv(1), c.dv(2))


# --------------------------------------------------------------------- hex
def ground_bytes(t):
    if t.op == 'seq' and all(g.op == 'el' and isint(g.args[0]) is not None for g in t.args):
        return [isint(g.args[0]) for g in t.args]
    return None


def F_encode(c):
    t = c.dv(0)
    b = ground_bytes(t)
    if b is not None:
        return lit(bytes(b).hex())
    return mk('hexenc', t)


def F_encode_upper(c):
    b = ground_bytes(c.dv(0))
    if b is None:
        return mk('upper', mk('hexenc', c.dv(0)))
    return lit(bytes(b).hex().upper())


def F_decode(c):
    t = c.dv(0)
    if t.op == 'hexenc':
        return ok(t.args[0])
    if t.op == 'upper' and t.args[0].op == 'hexenc':
        return ok(t.args[0].args[0])
    s = pystr(t)
    if s is not None:
        if len(s) % 2 == 0 and all(x in '0123456789abcdefABCDEF' for x in s):
            return ok(seq(*[el(I(x)) for x in bytes.fromhex(s)]))
        return err(mk('hexerr', t))
    return mk('hexdec', t)


def bigsign(d, v):
    g = lambda n: mk('adt', d, n)
    return ite(eq0(v), g('NoSign'), ite(ge0(v), g('Plus'), g('Minus')))


def M_BigInt_sign(c):
    return bigsign(c.e['t']['d'], c.dv(0))


def M_BigInt_magnitude(c):
    v = c.dv(0)
    return ite(ge0(v), v, scale(v, -1))


def M_BigInt_into_parts(c):
    t = c.e['t'].get('a') or c.e['t'].get('ts') or []
    d = next((x['d'] for x in t if x.get('k') == 'adt' and x['d'].endswith('Sign')), None)
    if d is None:
        raise Unsupported('into_parts')
    return mk('adt', 'tuple', '', bigsign(d, c.dv(0)), M_BigInt_magnitude(c))


def M_BigInt_from_biguint(c):
    sg, v = c.v(0), c.dv(1)
    if sg.op != 'adt':
        raise Unsupported('from_biguint')
    return scale(v, -1) if sg.args[1] == 'Minus' else ZERO if sg.args[1] == 'NoSign' else v


def T_ToBigInt_to_bigint(c):
    return some(c.dv(0))


def T_ToBigUint_to_biguint(c):
    v = c.dv(0)
    return ite(ge0(v), some(v), NONE)


def T_Signed_is_positive(c):
    return lt(ZERO, c.dv(0))


def M_big_pow(c):
    n = isint(c.args[1])
    v = c.dv(0)
    if n is None or n > 64:
        raise Unsupported('pow')
    out = ONE
    for _ in range(n):
        out = mul(out, v)
    return out


M_BigInt_pow = M_BigUint_pow = M_big_pow


def T_Fn_call(c):
    a = c.args[1]
    xs = list(a.args[2:]) if a.op == 'adt' and a.args[0] == 'tuple' else [] if a is UNIT else None
    if xs is None:
        raise Unsupported('call of a closure')
    f = c.args[0]
    while f.op == 'ref':
        f = c.ip.readref(c.st, f)
    return c.ip.call_closure(c.st, f, xs)


T_FnMut_call_mut = T_FnOnce_call_once = T_Fn_call
