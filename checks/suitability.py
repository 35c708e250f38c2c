"""isHierarchySuitable is exactly the mass ordering each expansion assumes."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import calc, check, par, smt, terms as T, build
import z3
import math
import random

TEN, THIRTY = 0.1, 1.3


def conds(h, m1, m2, mg, q, And, abs_, k13, k01):
    """reference table: what each expansion assumes about stop/sbottom masses m1, m2, gluino mg, mean squark mass q"""
    heavy = And(m2 <= k13 * q, mg <= k13 * q)                 # squarks heaviest, up to 30 %
    split = m2 - m1 > k01 * m1                                 # stops differ by more than 10 %
    near1 = mg - m1 < abs_(mg - m2)                            # gluino nearer to the lighter one
    near2 = m2 - mg < abs_(mg - m1)                            # gluino nearer to the heavier one
    t = {'h3': And(mg > m2),
         'h32q2g': And(m2 >= q, m2 > mg),
         'h3q22g': And(q > m2, m2 > mg),
         'h4': And(m1 < q, m1 >= mg),
         'h5': And(split, near1, m2 < q, m1 >= mg),
         'h5g1': And(split, near1, m2 < q, mg > m1),
         'h6': And(split, near2, m2 * k13 < q, m2 >= mg),
         'h6g2': And(split, near2, m2 * k13 < q, mg > m2),
         'h6b': And(split, near2, m2 >= q, m2 >= mg),
         'h6b2qg2': And(split, near2, m2 >= q, mg > m2),
         'h6bq22g': And(split, near2, q > m2, m2 >= mg),
         'h6bq2g2': And(split, near2, q > m2, mg > m2),
         'h9': And(m2 >= q, m2 - m1 < m1 - mg),
         'h9q2': And(q > m2, m2 - m1 < m1 - mg)}
    return And(heavy, t[h])


def ref_native(h, m1, m2, mg, q):
    return conds(h, m1, m2, mg, q, lambda *x: all(x), abs, THIRTY, TEN)


NAT = []


def point(N, m1, m2, mg, q, ab):
    """parameters with the given third-generation and gluino masses; the mean squark mass is q up to rounding, ratios to
    it are kept exactly"""
    p = dict(par.POINT)
    for n in 'mq20 mq21 mu20 mu21 md20 md21'.split():
        p[n] = q * q
    c2b = (p['vd'] ** 2 - p['vu'] ** 2) / (p['vd'] ** 2 + p['vu'] ** 2)
    sw2 = 1 - (p['MW'] / p['MZ']) ** 2
    p['mq22'] = q * q - p['Mb'] ** 2 + (0.5 - sw2 / 3) * p['MZ'] ** 2 * c2b
    p['md22'] = q * q - p['Mb'] ** 2 + sw2 / 3 * p['MZ'] ** 2 * c2b
    qn = N('c_msq', p, [], 1)[1][0]

    def m(x):
        if x == q:
            return qn
        if x == q * THIRTY:
            return qn * THIRTY
        if x * THIRTY == q:
            return qn / THIRTY
        return x / q * qn
    a, b = ('MSb0', 'MSb1') if ab else ('MSt0', 'MSt1')
    p[a], p[b], p['MG'] = m(m1), m(m2), m(mg)
    # the other sector gets clearly different masses
    a, b = ('MSt0', 'MSt1') if ab else ('MSb0', 'MSb1')
    p[a], p[b] = 0.31 * qn, 0.47 * qn
    return p, qn


def part(rep):
    rep.bounds.append('all positive stop, sbottom, gluino masses with m1 <= m2 and m1 > m2, all squark masses (as one positive '
                      'mean); 14 hierarchies plus unknown numbers, both sectors; no loop bounds needed')
    rep.assume.append('real arithmetic')
    E = par.Entry(calc.TUS)
    N = par.Native('calc', ['calc.cpp'] + build.ALL)
    msq = E.sym1('c_msq', [], 1, setup=calc.no_validate)[0]
    rng = random.Random(rep.seed)
    ids = list(range(14)) + [-1, 14, 77]
    for h in ids:
        for ab in (0, 1):
            name = '%s alphab=%d' % (calc.ID2H.get(h, 'id %d' % h), ab)
            out = E.sym1('c_suit', [ab, h, 0], 1, setup=calc.no_validate)[0]
            S = smt.Smt()
            q = S(msq)
            m1, m2 = (S(T.var('MSb0')), S(T.var('MSb1'))) if ab else (S(T.var('MSt0')), S(T.var('MSt1')))
            mg = S(T.var('MG'))
            got = S(out) == 1
            S.ax = []
            k13, k01 = z3.RealVal('13/10'), z3.RealVal('1/10')
            if h in calc.ID2H:
                hn = [k for k, v in calc.HID.items() if v == h][0]
                ref = conds(hn, m1, m2, mg, q, lambda *x: z3.And(*x), lambda x: z3.If(x >= 0, x, -x), k13, k01)
            else:
                hn, ref = None, z3.BoolVal(False)
            pos = [m1 > 0, m2 > 0, mg > 0, q > 0]
            # vacuity: both answers occur
            for w in ((got,) if hn is None else (got, z3.Not(got))):
                s = smt.solver()
                s.add(pos + [w])
                r = rep.query(s)
                if hn:
                    rep.witness(name, r == z3.sat)
            ok, model = smt.prove(rep, got == ref, pos, S)
            if ok:
                rep.ok(name)
                if hn:
                    # translator check on random spectra
                    for _ in range(12):
                        x = [rng.choice([600., 1000., 1300.]) * rng.choice([1, 1.02, 1.3, 0.8]) for _ in range(4)]
                        p, qn = point(N, *x, ab)
                        a = N('c_suit', p, [ab, h, 0], 1)[1][0]
                        b = T.evalf([out], p)[0]
                        rep.validated += 1
                        if a != b:
                            rep.unknown(name, 'engine and native code differ at %r' % (x,))
                continue
            cands = []
            if model is not None:
                def val(e):
                    r = model.eval(e, model_completion=True)
                    return float(r.as_fraction()) if z3.is_rational_value(r) else float(r.approx(20).as_fraction())
                cands.append([val(m1), val(m2), val(mg), val(q)])
            for _ in range(3000):
                cands.append([rng.choice([500., 700., 1000., 1300.]) * rng.choice([1, 1, 1.02, 1.3, 1 / 1.3, 0.8, 1.1, 1.12])
                              for _ in range(4)])
            for x in cands:
                p, qn = point(N, *x, ab)
                st, a = N('c_suit', p, [ab, h, 0], 1)
                a1, b1 = ('MSb0', 'MSb1') if ab else ('MSt0', 'MSt1')
                b = ref_native(hn, p[a1], p[b1], p['MG'], qn) if hn else False
                rep.replays += 1
                if st != 0 or bool(a[0]) != bool(b):
                    rep.violate(name, 'suitability is %s where the ordering condition is %s' % (bool(a[0]), b),
                                {'entry': 'c_suit', 'ints [alphab,hierarchy,mdr]': [ab, h, 0], 'parameters': p,
                                 'mean squark mass': qn})
                    break
            else:
                rep.unknown(name, 'not equivalent to the table, no native counterexample')
    E.note(rep)


if __name__ == '__main__':
    check.main('P05', 'hierarchy suitability is the documented mass ordering', [('suitability', part)])
