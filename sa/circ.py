"""Concrete circuit types under abstract interpretation: a symbolic
NXAOBoolCircuit / ModuleStorage in the heap, and helpers to read back states."""
import itertools
from terms import *
import terms as Tm
import interp, builder
from interp import Interp, St, Unsupported
from build import find_fn, Missing


class Conc:
    def __init__(self, J):
        self.J = J
        self.ip = Interp(J)
        self.st = St()
        self.d = {n: builder.find_adt(self.ip, n) for n in (
            'BoolCircuitRef', 'ModuleStorageRef', 'ModuleStorage', 'NXAOBoolCircuit', 'GateId', 'WireId',
            'ModuleId', 'NXAOBoolGate', 'BoolCircuitError')}
        self.fields = list(Tm.ADTS[self.d['NXAOBoolCircuit']].values())[0]
        self.sfields = list(Tm.ADTS[self.d['ModuleStorage']].values())[0]
        self.fty = {f[0]: f[1] for f in self.ip.adts[self.d['NXAOBoolCircuit']]['vs'][0]['fs']}
        self.sfty = {f[0]: f[1] for f in self.ip.adts[self.d['ModuleStorage']]['vs'][0]['fs']}
        self.cty = {('c', 'N'): sym('Nany', True)}

    def fn(self, name, adt='NXAOBoolCircuit', trait=None):
        return find_fn(self.J, name, adt, trait)

    def anyfn(self, name, adt, trait=None):
        """inherent or trait method"""
        try:
            return find_fn(self.J, name, adt, None)
        except Missing:
            return find_fn(self.J, name, adt, trait)

    def nat_ty(self, t):
        return t.get('k') in ('usize', 'u64', 'u32', 'u8', 'uint')

    def symfields(self, ty, tag, over=None):
        out = []
        for n, t in ty.items():
            if over and n in over:
                out.append(over[n])
            else:
                out.append(fresh(tag + n, self.isint_ty(t)))
        return out

    def isint_ty(self, t):
        return t.get('k') == 'int'

    def storage(self, st=None, over=None):
        v = mk('adt', self.d['ModuleStorage'], 'ModuleStorage', *self.symfields(self.sfty, 's.', over))
        cell = self.ip.alloc(st or self.st, v)
        return cell, mk('adt', self.d['ModuleStorageRef'], 'ModuleStorageRef', mk('rc', cell))

    def circuit(self, st=None, over=None, tag='c.'):
        """cell with a symbolic circuit"""
        if over is None:
            over = {}
        if 'module_storage' in self.fty and 'module_storage' not in over:
            over = dict(over)
            self.scell, over['module_storage'] = self.storage(st)
        v = mk('adt', self.d['NXAOBoolCircuit'], 'NXAOBoolCircuit', *self.symfields(self.fty, tag, over))
        return self.ip.alloc(st or self.st, v)

    def cref(self, cell):
        return mk('adt', self.d['BoolCircuitRef'], 'BoolCircuitRef', mk('rc', cell), mk('adt', 'core::marker::PhantomData', 'PhantomData'))

    def f(self, v, name):
        fs = list(Tm.ADTS[v.args[0]].values())[0] if v.op == 'adt' else self.fields
        return getfield(v, v.args[1] if v.op == 'adt' else '', fs.index(name), name)

    def gid(self, n):
        return Tm.adt(self.d['GateId'], 'GateId', n)

    def wid(self, n):
        return Tm.adt(self.d['WireId'], 'WireId', n)

    def mid(self, n):
        return Tm.adt(self.d['ModuleId'], 'ModuleId', n)

    def call(self, st, fn, *args, ty=None):
        v = self.ip.call_fn(st, fn, list(args), ty or {})
        if not st.dead:
            st.force()
        return v

    def refto(self, st, v):
        return self.ip.ref(self.ip.alloc(st, v))
