"""Symbolic access to the hierarchy expansions (harness/hier.cpp + hierarchies/*.cpp)."""
import ctypes
from fractions import Fraction
from . import build, terms as T, ring
from .execu import Exec, State, Ptr

NAMES = ("Al4p beta Dmglst1 Dmglst2 Dmst12 Dmsqst1 Dmsqst2 lmMt lmMst1 lmMst2 lmMsq lmMsusy lmMgl Mgl Mt Mst1 Mst2 "
         "Msq MuSUSY s2t At Msusy").split()
FLAGS = 'threeLoop Mst Dmglst1 Dmsqst1 Dmst12 At lmMsusy Msq Msusy Dmglst2 Dmsqst2 Mgl'.split()
HIER = build.HIER
MOTHER = {'H3': 'H3', 'H32q2g': 'H3', 'H3q22g': 'H3', 'H4': 'H4', 'H5': 'H5', 'H5g1': 'H5', 'H6': 'H6', 'H6g2': 'H6',
          'H6b': 'H6b', 'H6b2qg2': 'H6b', 'H6bq22g': 'H6b', 'H6bq2g2': 'H6b', 'H9': 'H9', 'H9q2': 'H9'}


def trig(nodes):
    """sin/cos/tan of beta -> variables sb, cb and sb/cb"""
    memo = {}
    for n in T.topo(nodes):
        if n.op == 'fn' and n.args[0] in ('sin', 'cos', 'tan') and n.args[1].op == 'v' and n.args[1].args[0] == 'beta':
            r = {'sin': T.var('sb'), 'cos': T.var('cb'), 'tan': T.fdiv(T.var('sb'), T.var('cb'))}[n.args[0]]
        else:
            r = T.rebuild(n, [memo[x.id] if type(x) is T.Node else x for x in n.args])
        memo[n.id] = r
    return [memo[n.id] for n in nodes]


class Hier:
    """one hierarchy, executed symbolically"""

    def __init__(self, H):
        self.H = H
        self.ms = build.modules('hier.cpp', 'hierarchies/%s.cpp' % H)
        self.steps = 0
        self.funcs = {}

    def run(self, flags, mdr, l1, l2, l3, env=None):
        """flags: list of 12 (ints or float-valued symbols are not allowed: ints or int symbols)"""
        ex = Exec(self.ms)
        st = State()
        pp = ex.new_obj(st, 8 * len(NAMES))
        fp = ex.new_obj(st, 64)
        op = ex.new_obj(st, 56)
        for i, n in enumerate(NAMES):
            ex.store(st, self.ms[0], ('f', 64), (env or {}).get(n, T.var(n)), Ptr(pp.obj, 8 * i))
        for i, f in enumerate(list(flags) + [mdr, l1, l2, l3]):
            ex.store(st, self.ms[0], ('i', 32), f, Ptr(fp.obj, 4 * i))
        ex.call_fn(st, 'run_' + self.H, [pp, fp, op])
        outs = ex.run(st)
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise RuntimeError('unexpected outcomes %r' % [(o.kind, o.info) for o in outs])
        self.steps += ex.steps
        for k, v in ex.called.items():
            self.funcs[ex.dem(k)] = self.funcs.get(ex.dem(k), 0) + v
        return [ex.load(outs[0].st, self.ms[0], ('f', 64), Ptr(op.obj, 8 * i)) for i in range(7)]


_so = {}


def native(H):
    if H not in _so:
        # the harness refers to all hierarchies: compile them all once
        if '*' not in _so:
            _so['*'] = ctypes.CDLL(build.shared('hier', ['hier.cpp'] + build.HTU))
        _so[H] = getattr(_so['*'], 'run_' + H)

    def f(vals, flags, mdr, l1, l2, l3):
        P = (ctypes.c_double * len(NAMES))(*[float(vals.get(n, 0)) for n in NAMES])
        F = (ctypes.c_int * 16)(*(list(flags) + [mdr, l1, l2, l3]))
        O = (ctypes.c_double * 7)()
        _so[H](P, F, O)
        return list(O)
    return f


MASSES = ['Mgl', 'Mt', 'Mst1', 'Mst2', 'Msq', 'Msusy']


def lring(extra=(), weights=None, K=None):
    names = ['Al4p', 'sb', 'cb', 'LQ'] + MASSES + ['l' + m for m in MASSES] + [
        'MuSUSY', 's2t', 'At', 'lmMt', 'Dmglst1', 'Dmglst2', 'Dmst12', 'Dmsqst1', 'Dmsqst2'] + list(extra)
    return ring.Ring(names, weights, K, logs={m: 'l' + m for m in MASSES})


def lenv(R):
    env = {n: n for n in R.names}
    for a, b in (('lmMst1', 'Mst1'), ('lmMst2', 'Mst2'), ('lmMsq', 'Msq'), ('lmMgl', 'Mgl'), ('lmMsusy', 'Msusy')):
        env[a] = R.poly((2, {'LQ': 1}), (-2, {'l' + b: 1}))
    return env


def reduce_cb(R, p):
    """normal form modulo cb^2 = 1 - sb^2 (after clearing negative powers of cb)"""
    if not p:
        return p
    i = R.ix['cb']
    mn = min(k[i] for k in p)
    if mn < 0:
        p = R.scale(p, {'cb': -mn + (mn % 2)})
    return R.reduce_pow(p, 'cb', 2, R.poly((1, {}), (-1, {'sb': 2})))


def psub(a, b):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) - c
    return {k: c for k, c in d.items() if c}
