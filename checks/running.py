"""The EFT result does not depend on the renormalization scale: explicit logarithms compensate the running of the parameters."""
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Fr
from symx import build, calc, check, diff, par, ratf, smt, terms as T, thr, trig, twin
from symx.thr import LIM, V

ORDERS = ['G12G22', 'G14', 'G24', 'G12YB2', 'G22YB2', 'YB4', 'G12YTAU2', 'G22YTAU2', 'YTAU4', 'G12YT2', 'G22YT2', 'YT4', 'G32YB4', 'YB6',
          'YT6', 'YTAU2YB4', 'YTAU2YT4', 'YTAU6', 'YT2YB4', 'G32YT4']
KAPPA = 1 / (16 * math.pi ** 2)
POS = sorted(set(thr.POS) | {'g1', 'g2', 'Mb', 'Mtau', 'scale', 'vu', 'vd', 'MA', 'M1', 'M2', 'MW', 'MZ', 'mD3'})


def setup(ex):
    thr.setup(ex)
    ex.feasible = smt.Feasible()
    ex.restub(r'^himalaya::mh2_fo::b0xx\(', lambda ex, st, a, i: T.fn('b0xx', *a))
    # functions of mass ratios
    ex.restub(r'^himalaya::mh2_eft::threshold_loop_functions::',
              lambda ex, st, a, i: T.fn('tlf_' + ex.dem(i[0]).split('::')[-1].split('(')[0], *a))


RULES = {'b0xx': [None, None, lambda p, m, q: T.fdiv(T.ONE, q)]}      # B0(p^2, m^2, m^2; Q^2) = ... + log Q^2


def enc(rep):
    E = thr.Enc(rep)
    E.t = twin.Twin(thr.TUS, [], native=thr.nat, setup=setup)
    return E


def num(x):
    return T.fconst(x)


class Pt:
    """arithmetic of floats and of terms alike: variables by attribute"""

    def __init__(self, get):
        self.get = get

    def __getattr__(self, n):
        return self.get(n)


def div(a, b):
    return T.fdiv(a, b) if isinstance(a, T.Node) or isinstance(b, T.Node) else a / b


def beta1(p, k):
    """one-loop g3^2 terms of the MSSM beta functions"""
    g2, M = p.g3 * p.g3, p.MG
    m2 = k(Fr(-32, 3)) * g2 * M * M
    return {'Mt': k(Fr(-16, 3)) * g2 * p.Mt, 'Xt': k(Fr(32, 3)) * g2 * M, 'g3': k(-3) * g2 * p.g3, 'MG': k(-6) * g2 * M,
            'mQ3': div(m2, k(2) * p.mQ3), 'mU3': div(m2, k(2) * p.mU3), 'msq2': m2}


def beta2(p, k):
    """two-loop g3^4 terms"""
    g4, M = p.g3 * p.g3 * p.g3 * p.g3, p.MG
    m2 = (k(Fr(-128, 3)) * M * M + k(Fr(16, 3)) * (p.mQ3 * p.mQ3 + p.mU3 * p.mU3 + k(10) * p.msq2)) * g4
    return {'Mt': k(Fr(-16, 9)) * g4 * p.Mt, 'Xt': k(Fr(64, 9)) * g4 * M,
            'mQ3': div(m2, k(2) * p.mQ3), 'mU3': div(m2, k(2) * p.mU3), 'msq2': m2}


SYM = Pt(V)


def run(direction, sub=None):
    """directional derivative along the running, with the variables of sub identified"""
    if sub:
        for k, v in sub.items():
            direction.pop(k, None)
    return {k: T.subst([v], {n: V(x) for n, x in (sub or {}).items()})[0] for k, v in direction.items()}


def stepped(f, p, d, h):
    def at(x):
        q = dict(p)
        for n, b in d.items():
            q[n] = p[n] + x * b
        return f(thr.fix(q))
    return [(8 * (a - b) - (c - e)) / (12 * h) for a, b, c, e in zip(at(h), at(-h), at(2 * h), at(-2 * h))]


def settle(name, rep, E, lhs, rhs, native, scale, sp):
    """lhs == rhs; native(p) -> (lhs, rhs, size of the function) numerically"""
    size = [1.]

    def nv(p):
        x, y, size[0] = native(p)
        return x, y
    return thr.same(rep, name, lhs, rhs, nv, space=sp, tol=scale, close=lambda x, y: abs(x - y) <= 1e-5 * max(abs(x), abs(y)) + 1e-7 * size[0])


def good(p):
    """away from the near-degenerate region of the calculator"""
    a, b, c = p['mQ3'], p['mU3'], p['MG']
    return min(abs(a - b), abs(a - c), abs(b - c)) > 0.05 * a


def away(p, sub=None):
    p = dict(p)
    p['MG'] = p['MG'] * 1.4
    if sub is None and not good(p):
        p['mU3'] = 0.7 * p['mQ3']
        p['MG'] = 1.5 * p['mQ3']
    for n, x in (sub or {}).items():
        p[n] = p[x]
    return thr.fix(p)


# ------------------------------------------------------------------ O(at), O(at*as), O(at*as^2)
def one_qcd(rep, item):
    which, n = item
    E = enc(rep)
    K = Fr(1)
    if which == 'calculator':
        sub = None
        F = [E.call('c_mh2', ints, 1)[0] for ints in ((11, 1), (19, 2), (11, 3))]

        def f(p):
            r = []
            for ints in ((11, 1), (19, 2), (11, 3)):
                r += thr.call(rep, 'c_mh2', p, ints, 1)
            return r
    else:
        lim = LIM.index(which)
        sub = {'mU3': 'mQ3'} if which == 'MQ3_EQ_MU3' else None
        F = E.call('c_rge', [lim], 3)

        def f(p):
            return thr.call(rep, 'c_rge', p, [lim], 3)
    tied = {k: V(v) for k, v in (sub or {}).items()}
    F = T.subst(F, tied) if tied else F
    kap = num(KAPPA)
    b1, b2 = run(beta1(SYM, num), sub), run(beta2(SYM, num), sub)
    lhs, = diff.d([F[n]], {'scale': V('scale')}, rules=RULES)
    rhs = T.ZERO
    if n >= 1:
        rhs = rhs - kap * diff.d([F[n - 1]], b1)[0]
    if n == 2:
        rhs = rhs - kap * kap * diff.d([F[0]], b2)[0]
    nm = '%s, %s: the logarithms follow the running' % (['O(at)', 'O(at*as)', 'O(at*as^2)'][n], which)

    def native(p):
        p = away(p, sub)
        q = Pt(p.__getitem__)
        d1 = {k: KAPPA * x for k, x in beta1(q, float).items()}
        d2 = {k: KAPPA ** 2 * x for k, x in beta2(q, float).items()}
        if sub:
            for k, v in sub.items():
                d1[k], d2[k] = d1[v], d2[v]
        x = stepped(f, p, {'scale': p['scale']}, 3e-3)[n]
        y = 0.
        if n >= 1:
            y -= stepped(f, p, d1, 3e-2)[n - 1]
        if n == 2:
            y -= stepped(f, p, d2, 3e-1)[0]
        return x, y, abs(f(p)[n])
    settle(nm, rep, E, lhs, rhs, native, 1e-9, ratf.Space(POS))
    E.done()


def prep():
    thr.nat()
    build.modules(*thr.TUS)


def qcd(rep):
    rep.bounds.append('mQ3, mU3, MG, average squark mass, Xt, Mt, g3, vu, vd and the scale symbolic; general mass case of the calculator and the '
                      'branches GENERAL and MQ3_EQ_MU3')
    rep.assume.append('real arithmetic; the average squark mass runs like each squark mass; MSSM beta functions of softly broken supersymmetric QCD')
    prep()
    check.parallel(rep, one_qcd, [(w, n) for w in ('calculator', 'GENERAL', 'MQ3_EQ_MU3') for n in (2, 1, 0) if (w, n) != ('GENERAL', 0)])


# ------------------------------------------------------------------ one loop
#        which Yukawa coupling runs the vacuum expectation values, gauge coupling
MIXED = {'G12YT2': ('t', 1), 'G22YT2': ('t', 2), 'G12YB2': ('b', 1), 'G22YB2': ('b', 2), 'G12YTAU2': ('l', 1), 'G22YTAU2': ('l', 2)}
GAUGE = {'G14': (Fr(54, 25), 4, 0), 'G24': (Fr(2), 0, 4), 'G12G22': (Fr(6, 5), 2, 2)}


def tree(p, g, k):
    """g_i^2 part of MZ^2 cos^2(2 beta)"""
    x = p.vd * p.vd - p.vu * p.vu
    y = p.g1 * p.g1 * k(Fr(3, 20)) if g == 1 else p.g2 * p.g2 * k(Fr(1, 4))
    return div(y * x * x, p.vu * p.vu + p.vd * p.vd)


def vev(p, f, k):
    """running of vu and vd due to one Yukawa coupling"""
    y2 = {'t': lambda: div(k(2) * p.Mt * p.Mt, p.vu * p.vu), 'b': lambda: div(k(2) * p.Mb * p.Mb, p.vd * p.vd),
          'l': lambda: div(k(2) * p.Mtau * p.Mtau, p.vd * p.vd)}[f]()
    return {'vu': k(-3) * y2 * p.vu} if f == 't' else {'vd': k(-3 if f == 'b' else -1) * y2 * p.vd}


def one_ew(rep, o):
    E = enc(rep)
    ints = (ORDERS.index(o), 1)
    F, = E.call('c_mh2', ints, 1)
    lhs, = trig.rewrite(diff.d([F], {'scale': V('scale')}, rules=RULES))

    def expected(p, k, d):
        if o in MIXED:
            f, g = MIXED[o]
            return -d(lambda q: tree(q, g, k), vev(p, f, k))
        if o in GAUGE:
            c, a, b = GAUGE[o]
            x = p.vd * p.vd - p.vu * p.vu
            y = k(-c)
            for _ in range(a):
                y = y * p.g1
            for _ in range(b):
                y = y * p.g2
            return div(y * x * x, p.vu * p.vu + p.vd * p.vd)
        return k(0)
    rhs = num(KAPPA) * expected(SYM, num, lambda f, v: diff.d([f(SYM)], v)[0])

    def native(p):
        p = away(p)

        def d(f, v):
            return stepped(lambda q: [f(Pt(q.__getitem__))], p, v, 1e-2)[0]
        x = stepped(lambda q: thr.call(rep, 'c_mh2', q, ints, 1), p, {'scale': p['scale']}, 1e-2)[0]
        return x, KAPPA * expected(Pt(p.__getitem__), float, d), abs(thr.call(rep, 'c_mh2', p, ints, 1)[0])
    settle('%s: dependence on the scale' % o, rep, E, lhs, rhs, native, 1e-10, ratf.Space(POS))
    E.done()


def oneloop(rep):
    rep.bounds.append('each of the twelve one-loop coupling orders alone; all parameters symbolic')
    rep.assume.append('B0 is an arbitrary function except for its scale dependence; loop functions of mass ratios are arbitrary functions')
    prep()
    check.parallel(rep, one_ew, ORDERS[:12])


# ------------------------------------------------------------------ quartic coupling for degenerate masses
def degenerate(rep):
    rep.bounds.append('mQ3 = mU3 = MG = average squark mass; coefficients of Xt^0 ... Xt^3; scale symbolic')
    prep()
    E = enc(rep)
    tied = {n: V('mQ3') for n in ('mU3', 'MG')}
    tied['msq2'] = V('mQ3') * V('mQ3')
    a, b = T.subst(diff.d(E.call('c_deg', [], 2), {'scale': V('scale')}), tied)

    def native(p, m):
        import numpy as np
        out = []
        for j in (0, 1):
            xs = [0.3 * k * p['mQ3'] for k in range(-4, 5)]
            ys = []
            for x in xs:
                q = dict(p, Xt=x, mU3=p['mQ3'], MG=p['mQ3'], msq2=p['mQ3'] ** 2)
                ys.append(stepped(lambda q: thr.call(rep, 'c_deg', q, [], 2), q, {'scale': p['scale']}, 1e-2)[j])
            out.append(np.polynomial.polynomial.polyfit(np.array(xs) / p['mQ3'], ys, 6)[m])
        return out[0], out[1], max(abs(y) for y in ys)
    for m in range(4):
        x, y = a, b
        for _ in range(m):
            x, y = diff.d([x, y], {'Xt': T.ONE})
        x, y = T.subst([x, y], {'Xt': T.ZERO})
        settle('three-loop quartic coupling for degenerate masses, Xt^%d: scale dependence as in the threshold correction' % m, rep, E, x, y,
               lambda p, m=m: native(p, m), 1e-9, ratf.Space(POS))
    E.done()


if __name__ == '__main__':
    check.main('P26', 'scale dependence of the EFT result', [('qcd', qcd), ('one-loop', oneloop), ('degenerate', degenerate)])
