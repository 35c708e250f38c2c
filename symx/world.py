"""Abstractions for whole-calculator runs: hierarchy classes, the Fortran two-loop routines and the 2x2 eigenvalue
solver become uninterpreted functions of their arguments."""
import re
from . import calc, terms as T
from .execu import Ptr, Throw, Fork


def f(x, w=32):
    """int or float term -> float term (argument of an uninterpreted function)"""
    if isinstance(x, bool):
        return T.fconst(float(x))
    if isinstance(x, int):
        return T.fconst(float(x))
    if x.sort == 'f':
        return x
    return T.itof('sitofp', w, x)


class Abstract:
    """faults: None or list; when a list, every abstracted call may throw, guarded by a fresh boolean"""

    def __init__(self, eig=True, dl3=True, fault=None):
        self.eig, self.dl3, self.fault = eig, dl3, fault
        self.params = {}
        self.nf = 0
        self.calls = []

    def install(self, ex):
        calc.no_validate(ex)
        ex.restub(r'^himalaya::hierarchies::H\d\w*::H\d\w*\(', self.ctor)
        ex.restub(r'^himalaya::hierarchies::H\d\w*::(getS|calc_)', self.getter)
        ex.restub(r'himalaya::mh2l::delta_mh2_2loop_', self.dsz)
        if self.eig:
            ex.restub(r'calcSmallestEigenvalue\(', self.eigen)
        if self.dl3:
            ex.restub(r'HierarchyCalculator::calcDeltaLambda3L\(', lambda ex, st, a, i: None)

    def maybe(self, thunk):
        if self.fault is None:
            return thunk
        self.nf += 1
        b = T.bvar('fault%d' % self.nf)
        self.fault.append(b)
        return Fork([(T.bnot(b), thunk), (b, lambda ex, st: Throw('_ZTISt13runtime_error'))])

    def ctor(self, ex, st, a, i):
        H = re.search(r'hierarchies::(H\d\w*)::', ex.dem(i[0])).group(1)
        if len(a) < 10:
            raise RuntimeError('copy constructor of ' + H)
        if H not in self.params:
            self.params[H] = calc.ctor_params(H)
        fl = [ex.load(st, i[2], ('i', 32), Ptr(a[1].obj, a[1].off + 4 * k)) for k in range(12)]
        args = [f(x) for x in fl + list(a[2:])]
        self.calls.append((H, fl, dict(zip(self.params[H], a[2:]))))
        tag = T.fn(H, *args)

        def go(ex, st):
            ex.store(st, i[2], ('f', 64), tag, a[0])
            return None
        if self.fault is None:
            return go(ex, st)
        return self.maybe(go)

    def getter(self, ex, st, a, i):
        g = re.search(r'::(\w+)\(\)', ex.dem(i[0])).group(1)
        o = ex.load(st, i[2], ('f', 64), a[0])
        return T.fn(g, o)

    def dsz(self, ex, st, a, i):
        name = re.search(r'2loop_(\w+)\(', ex.dem(i[0])).group(1)
        args = [f(x) for x in a[1:]]

        def go(ex, st):
            for k in range(4):
                ex.store(st, i[2], ('f', 64), T.fn('%s.%d' % (name, k), *args), Ptr(a[0].obj, a[0].off + 8 * k))
            return None
        if self.fault is None:
            return go(ex, st)
        return self.maybe(go)

    def eigen(self, ex, st, a, i):
        m = [ex.load(st, i[2], ('f', 64), Ptr(a[0].obj, a[0].off + 8 * k)) for k in range(4)]
        return T.fn('minmass', *m)
