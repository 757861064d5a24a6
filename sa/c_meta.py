"""C14: gate metadata, writer names and reader names agree."""
from terms import *
import terms as Tm
import facts as Fx
import models
from models import lit, pystr
from interp import Unsupported
from core import check, loc_of
from build import Missing, find_fn
import c_circ, c_read, c_write
from c_circ import operands, okv, Hist
from c_eval import gate_value

GA = 'NXAOBoolGate'
ARITY = {'Input': 0, 'Const': 0, 'Not': 1, 'Xor': 2, 'And': 2, 'Or': 2}


def meta(W, st, ga, name):
    """value of a Gate method on a gate value"""
    s = st.copy()
    s.force()
    fn = find_fn(W.J, name, GA, 'Gate')
    v = W.call(s, fn, W.refto(s, ga))
    return fn, (UNDEF if s.dead else v)


def c14(W, R, p):
    st = R.st
    op = R.op
    name = f'NXAOBoolCircuit::{op}'
    if st.dead or op == 'output':
        return
    if R.n0 is None:                      # a step of a history
        r = okv(R.v)
        ids = [seq_at(r, I(k)) for k in range(R.cout)] if op == 'module' else [r]
        todo = [(g, ()) for g in ids]
    elif op == 'module' and R.cout is None:
        k = fresh('k', True)
        todo = [(seq_at(okv(R.v), k), (lt(k, R.nout),))]
    elif op == 'module':
        todo = [(seq_at(okv(R.v), I(k)), ()) for k in range(R.cout)]
    else:
        todo = [(g, ()) for g in c_circ.new_ids(W, R)]
    for g, pcx in todo:
        s = c_circ._with(st, pcx)
        ga = Fx.prune(okv(W.obs(s, R.cell, 'get_gate', g)), s.pc)
        if ga.op != 'adt':
            p.open.append((name + ': gate', R.fn, 'gate not resolved', None))
            continue
        vn = ga.args[1]
        fi, ni = meta(W, s, ga, 'input_len')
        fo, no = meta(W, s, ga, 'output_len')
        wi, wo = (R.nin, R.nout) if vn == 'Module' else (I(ARITY[vn]), ONE)
        p.eq(f'{GA}::input_len is the number of operands of a {vn} gate', s, ni, wi, fi, pcx)
        p.eq(f'{GA}::output_len is the number of outputs of a {vn} gate', s, no, wo, fo, pcx)


def names(c, p):
    """each logic kind has one name of its own, whatever its operands are"""
    W = c_circ.World(c.J)
    st = W.st.copy()
    st.force()
    a, b = W.gid(sym('a', True)), W.gid(sym('b', True))
    got = {}
    fn = None
    for k in ('Const', 'Not', 'Xor', 'And', 'Or', 'Module'):
        if k == 'Module':
            v = gate_value(W, k, (), input_len=sym('il', True), output_len=sym('ol', True), input_ids=sym('ids'), out_index=sym('oi', True), module_id=W.mid(sym('m', True)))
        else:
            v = gate_value(W, k, [a, b][:ARITY[k]], value=sym('v'))
        try:
            fn, n = meta(W, st, v, 'to_str')
            n = models.astext(n)
        except Unsupported as x:
            c.und(f'name of {k}', str(x))
            continue
        s = pystr(n)
        if s is None:
            c.und(f'name of {k}', 'depends on the gate: ' + show(n)[:80])
            continue
        got[k] = s
        c.count('names resolved')
        for k2, s2 in got.items():
            if k2 != k and s2 == s:
                c.bad('names', f'{k} and {k2} gates are both called {s!r}', loc_of(fn))
        if not s or any(ch.isspace() for ch in s):
            c.bad('names', f'{k} gates are called {s!r}, which is not one token', loc_of(fn))
    # the reader maps the name back: `n 1 ins out NAME`, operands of arbitrary order
    for k, op in (('Not', 'not'), ('Xor', 'xor'), ('And', 'and'), ('Or', 'or')):
        if k not in got:
            continue
        n = ARITY[k]
        for ins in ([(0,), (2,)] if n == 1 else [(0, 1), (1, 0), (2, 0), (1, 2), (1, 1)]):
            text = ['1 4', '1 3', '1 1', '', ' '.join(map(str, (n, 1) + ins + (3, got[k])))]
            why = names_back(c, text, c_read.opterm(op, *[mk('rin', I(i)) for i in ins]))
            if why:
                c.bad('reader', f'the gate line {text[-1]!r} of a {k} gate is not read as {op}: {why}', loc_of(find_fn(c.J, 'read', c_read.RD)))
                return
    # EQW copies a wire (`2 3` -> wire 1)
    why = names_back(c, ['1 4', '1 3', '1 1', '', '1 1 1 3 EQW'], c_read.opterm('identity', mk('rin', ONE)))
    if why:
        c.bad('reader', f'the line written for an input that is an output is not read as a copy: {why}', loc_of(find_fn(c.J, 'read', c_read.RD)))
    if len(got) == 6:
        c.ok('names', f'pairwise distinct single tokens {got}, each read back as its operation', loc_of(fn))


def names_back(c, text, want):
    W = c_read.Rd(c.J)
    W.ip.inline_rec = True
    st = W.st.copy()
    try:
        rc = W.new(st)
        fn, v = W.read(st, rc, seq(*[c_read.okl(lit(l)) for l in text]))
    except Unsupported as x:
        c.und('reader', str(x))
        return None
    c.count('lines read back')
    if st.dead:
        return 'the reader panics'
    v = Fx.prune(v, ())
    if isvar(v, 'Err') is TRUE:
        return f'the reader returns {show(v)[:100]}'
    if isvar(v, 'Ok') is not TRUE:
        c.und('reader', 'result not resolved')
        return None
    outs = W.log(st)[2]
    if outs.op == 'seq' and len(outs.args) == 1 and outs.args[0].op == 'el':
        g = outs.args[0].args[0]
        if g is want:
            return None
        if not free_syms(g):
            return 'it records ' + show(g)[:80]
    c.und('reader', 'recorded operation not resolved')
    return None


def written(c):
    """the names in the lines the writer emits for each kind are read back as
    that kind, with the operands the line gives"""
    import random
    ops = {'not': (0,), 'xor': (0, 1), 'and': (0, 1), 'or': (0, 1)}
    progs = []
    for op, a in ops.items():
        progs.append((op, [(0, 'input'), (0, 'input'), (0, op) + a, (0, 'output', 2)], 1))
        # the same below a module call
        sub = [(0, 'sub'), (1, 'input'), (1, 'input'), (1, op) + a, (1, 'output', 2)]
        progs.append((op, sub + [(0, 'input'), (0, 'input'), (0, 'module', 1, [0, 1]), (0, 'output', 2)], 1))
    progs.append(('identity', [(0, 'input'), (0, 'input'), (0, 'output', 0)], 1))
    for op, prog, _ in progs:
        H = Hist(c.J)
        try:
            for s in prog:
                R = H.step(*s)
                if R is not None and R.st.dead:
                    raise Unsupported('construction panics')
            W, st, ip = H.W, H.st, H.W.ip
            ip.inline_rec = True
            sink = c_write.Sink(ip, st)
            wcell = c_write.new_writer(W, st, W.cref(H.cs[0]['cell']))
            fn, v = c_write.write(W, st, wcell, H.cs[0]['nin'], ip.alloc(st, EMAP))
            text = None if st.dead else sink.text(st)
            if text is None:
                raise Unsupported('written text not resolved')
        except Unsupported as x:
            c.und(f'written line of {op}', str(x))
            continue
        ls = text.split('\n')
        gates = [l.split() for l in ls[3:] if l.split()]
        if len(gates) != 1:                       # another way to write the gate: not this property
            c.und(f'written line of {op}', f'{len(gates)} gate lines')
            continue
        g = gates[0]
        n = 1 if op in ('not', 'identity') else 2
        if g[:2] != [str(n), '1'] or len(g) != n + 4:
            c.bad('writer', f'a {op} gate is written as {" ".join(g)!r}: not {n} operands, one output and a name', loc_of(fn))
            return
        ins = (2, 0)[:n]
        why = names_back(c, ['1 4', '1 3', '1 1', '', ' '.join(map(str, (n, 1) + ins + (3, g[-1])))], c_read.opterm(op, *[mk('rin', I(i)) for i in ins]))
        if why:
            c.bad('writer', f'a {op} gate is written under the name {g[-1]!r}, which is not read back as {op}: {why}', loc_of(fn))
            return
        c.ok(f'written line of {op}', f'name {g[-1]} read back as {op}', loc_of(fn))


@check('C14')
def check_c14(c):
    c.extra['explanation'] = ('The metadata methods are interpreted on the gates every construction operation stores, for circuits in an arbitrary state and (for module calls) any number of operands and outputs, '
                              'and compared with the number of operands and outputs; names are resolved for gates with arbitrary fields, and each name the writer uses is fed to the interpreted reader, which must record that operation.')
    c_circ.induct(c, c14, names)
    try:
        written(c)
    except Missing as x:
        c.bad('writer', f'public operation {x} is missing')
