"""O(at*as^n) threshold corrections: mass-limit branches, scheme conversion, DR'->MSbar shift, log handling, exchange symmetry."""
import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import build, check, limit, mpev, par, ratf, terms as T, thr, twin
from symx.thr import C, DR, LIM, ORD, TEST, V

#  branch, limit branch, substitution before, variable, its limit
CHAIN = [(0, 1, {}, 'mU3', 'mQ3'), (0, 2, {}, 'MG', 'mQ3'), (0, 3, {}, 'MG', 'mU3'), (1, 4, {'mU3': 'mQ3'}, 'MG', 'mQ3'),
         (2, 4, {'MG': 'mQ3'}, 'mU3', 'mQ3'), (3, 4, {'MG': 'mU3'}, 'mU3', 'mQ3'), (4, 5, {'mU3': 'mQ3', 'MG': 'mQ3'}, 'msq2', 'mQ3^2')]


def one_limit(rep, item):
    o, (a, b, sub, x, y) = item
    E = thr.Enc(rep)
    name = '%s: %s tends to %s for %s -> %s' % (ORD[o], LIM[a], LIM[b], x, y)
    sub = {k: V(v) for k, v in sub.items()}
    for scheme in (TEST,):            # the DR' ones follow by the conversion, see schemes
        sp = ratf.Space(thr.POS)
        src, dst = E.thr(o, a, scheme), E.thr(o, b, scheme)
        nm = name + ('' if scheme == TEST else " (DR')")
        try:
            if x == 'msq2':       # the average squark mass squared
                sp.positive = sorted(set(sp.positive) | {'msq'})
                src2, dst2 = T.subst(T.subst([src, dst], sub), {'msq2': V('msq') * V('msq')})
                g, = sp.ev([src2])
                l, = sp.ev(T.subst([dst2], {'msq': V('mQ3')}))
                r, txt = limit.check(rep, sp, g, l, 'msq', 'mQ3')
            else:
                g, = sp.ev(T.subst([src], sub))
                l, = sp.ev(T.subst(T.subst([dst], sub), {x: V(y)}))
                r, txt = limit.check(rep, sp, g, l, x, y)
        except (ratf.Give, ZeroDivisionError) as e:
            r, txt = None, str(e)
        if r:
            rep.ok(nm)
            continue
        replay_limit(rep, nm, E, o, scheme, a, b, sub, x, y, src, dst, txt)
    E.done()


def replay_limit(rep, nm, E, o, scheme, a, b, sub, x, y, src, dst, txt):
    rng = random.Random(rep.seed)
    for _ in range(10):
        p = thr.point(rng)
        for k, v in sub.items():
            p[k] = p[v.args[0]]
        q = thr.fix(dict(p))
        m = dict(p)
        m[x] = p['mQ3'] ** 2 if x == 'msq2' else p[y]
        for k, v in sub.items():
            if v.args[0] == x:
                m[k] = m[x]
        thr.fix(m)
        at = thr.call(rep, 'c_thr', m, [o, scheme, 1, b, -1], 1)[0]          # the real limit branch at the limit
        near = thr.call(rep, 'c_thr', q, [o, scheme, 1, a, -1], 1)[0]        # the real branch elsewhere: validates the encoding
        if not check.close(float(mpev.ev([src], q)[0]), near, 1e-5, 1e-7):
            rep.unknown(nm, 'encoding and native value differ')
            return
        base = m[x]

        def beside(e):
            m[x] = mpev.mpmath.mpf(base) * (1 + mpev.mpmath.mpf(e))
            for k, v in sub.items():
                if v.args[0] == x:
                    m[k] = m[x]
            return float(mpev.ev([src], m)[0])
        f1, f2 = [(beside(e) + beside(-e)) / 2 for e in (0.01, 0.02)]
        lim = (4 * f1 - f2) / 3
        if not check.close(lim, at, 1e-4, 1e-4 * max(1, abs(near))):
            rep.violate(nm, 'branch %s gives %.12g at the limit, branch %s tends to %.12g' % (LIM[b], at, LIM[a], lim),
                        {'point': {k: float(v) for k, v in m.items()}, 'limit branch': at, 'tends to': lim})
            return
    rep.unknown(nm, txt[:200])


def limits(rep):
    rep.bounds.append('all six orders and seven limits; masses, Xt and scale symbolic')
    rep.assume.append('real arithmetic; Re Li2(1-u) is characterised by its derivative, its value at u=1 and its inversion formula; '
                      'the average squark mass is an independent input')
    prep()
    check.parallel(rep, one_limit, [(o, c) for o in (5, 2, 4, 3, 1, 0) for c in CHAIN])


def prep():
    thr.nat()
    build.modules(*thr.TUS)


def conv(E, lim, omit, xt=-1):
    """the documented conversion of the MSbar corrections to DR'"""
    g, y, y2, la, laa, laa2 = [E.thr(o, lim, TEST, omit, xt) for o in range(6)]
    return [-g, -y, C(2) * g * y + y * y - y2, la, laa - C(4) * la * y,
            laa2 + laa * (C(-2) * g - C(4) * y) + la * (C(8) * g * y + C(10) * y * y - C(4) * y2)]


def one_conv(rep, item):
    lim, omit = item
    E = thr.Enc(rep)
    ref = conv(E, lim, omit)

    def native(o):
        def f(p):
            v = [thr.call(rep, 'c_thr', p, [k, TEST, omit, lim, -1], 1)[0] for k in range(6)]
            g, y, y2, la, laa, laa2 = v
            r = [-g, -y, 2 * g * y + y * y - y2, la, laa - 4 * la * y,
                 laa2 + laa * (-2 * g - 4 * y) + la * (8 * g * y + 10 * y * y - 4 * y2)]
            return thr.call(rep, 'c_thr', p, [o, DR, omit, lim, -1], 1)[0], r[o]
        return f
    for o in range(6):
        thr.same(rep, '%s, %s: DR\' from MSbar' % (ORD[o], LIM[lim]), E.thr(o, lim, DR, omit), ref[o], native(o))
        for s in (0, 2, 3):
            thr.same(rep, '%s, %s: scheme %d is unconverted' % (ORD[o], LIM[lim], s), E.thr(o, lim, s, omit), E.thr(o, lim, TEST, omit),
                     lambda p: tuple(thr.call(rep, 'c_thr', p, [o, t, omit, lim, -1], 1)[0] for t in (s, TEST)))
    E.done()


def schemes(rep):
    rep.bounds.append('six orders, six limits, with and without logs: every scheme')
    prep()
    check.parallel(rep, one_conv, [(l, o) for l in range(6) for o in (0, 1)])


def one_logs(rep, item):
    o, lim, scheme = item
    E = thr.Enc(rep)
    full, omit = E.thr(o, lim, scheme, 1), E.thr(o, lim, scheme, 0)
    nm = '%s, %s, %s' % (ORD[o], LIM[lim], 'MSbar' if scheme == TEST else "DR'")

    def moved(p, n, v):
        q = dict(p)
        q[n] = v
        return q
    at, = T.subst([full], {'scale': V('MSt0')})
    thr.same(rep, nm + ': without logs = at the scale MSt1', omit, at,
             lambda p: (thr.call(rep, 'c_thr', p, [o, scheme, 0, lim, -1], 1)[0],
                        thr.call(rep, 'c_thr', moved(p, 'scale', p['MSt0']), [o, scheme, 1, lim, -1], 1)[0]))
    other, = T.subst([full], {'MSt0': V('mQ3b')})
    thr.same(rep, nm + ': with logs independent of MSt1', full, other,
             lambda p: (thr.call(rep, 'c_thr', p, [o, scheme, 1, lim, -1], 1)[0],
                        thr.call(rep, 'c_thr', moved(p, 'MSt0', p['MSt0'] * 1.3), [o, scheme, 1, lim, -1], 1)[0]))
    if lim == 0 and (o != 5 or scheme != TEST) and o != 5:
        sw, = T.subst([full], {'mQ3': V('mU3'), 'mU3': V('mQ3')})
        thr.same(rep, nm + ': symmetric under mQ3 <-> mU3', full, sw,
                 lambda p: (thr.call(rep, 'c_thr', p, [o, scheme, 1, lim, -1], 1)[0],
                            thr.call(rep, 'c_thr', thr.fix(dict(p, mQ3=p['mU3'], mU3=p['mQ3'])), [o, scheme, 1, lim, -1], 1)[0]))
    if o == 5 and scheme == TEST:
        b, = T.subst([full], {'scale': V('mQ3')})
        thr.same(rep, nm + ': only logs, none at the scale mQ3', b, T.ZERO,
                 lambda p: (thr.call(rep, 'c_thr', moved(p, 'scale', p['mQ3']), [5, TEST, 1, lim, -1], 1)[0], 0.))
    if o == 5:
        for n in (3, 4):
            cut = E.thr(5, lim, scheme, 1, n)
            for m in range(n + 1, 7):       # in MSbar the powers beyond n are dropped, the others kept
                if scheme == TEST:
                    thr.same(rep, nm + ': Xt order %d drops Xt^%d' % (n, m), *coeff(cut, m, T.ZERO, m), native=lambda p: (0, 0))
            if scheme == TEST:
                for m in range(n + 1):
                    thr.same(rep, nm + ': Xt order %d keeps Xt^%d' % (n, m), *coeff(cut, m, full, m),
                             native=lambda p, m=m, n=n: xtc(rep, p, lim, m, n))
    E.done()


def coeff(a, i, b, j):
    """coefficients of Xt^i of a and Xt^j of b (Taylor coefficients at Xt = 0, by differentiation)"""
    from symx import diff
    def c(t, k):
        for _ in range(k):
            t, = diff.d([t], {'Xt': T.ONE})
        return T.subst([t], {'Xt': T.ZERO})[0]
    return c(a, i), c(b, j)


def xtc(rep, p, lim, m, n):
    import numpy as np
    r = []
    for o in (n, -1):
        xs = [0.3 * k * p['mQ3'] for k in range(-4, 5)]
        ys = [thr.call(rep, 'c_thr', thr.fix(dict(p, Xt=x)), [5, TEST, 1, lim, o], 1)[0] for x in xs]
        r.append(np.polynomial.polynomial.polyfit(np.array(xs) / p['mQ3'], ys, 6)[m])
    return tuple(r)


def logs(rep):
    rep.bounds.append('six orders, six limits, two schemes; highest Xt power 3 and 4')
    prep()
    check.parallel(rep, one_logs, [(o, l, s) for o in (5, 2, 4, 3, 1, 0) for l in range(6) for s in (TEST, DR)])


#  masses which are equal in each limit
TIED = [{}, {'mU3': 'mQ3'}, {'MG': 'mQ3'}, {'MG': 'mU3'}, {'mU3': 'mQ3', 'MG': 'mQ3'}, {'mU3': 'mQ3', 'MG': 'mQ3', 'msq2': 'mQ3'}]


def tie(ts, lim):
    return T.subst(ts, {n: V(m) * V(m) if n == 'msq2' else V(m) for n, m in TIED[lim].items()})


def tied_point(p, lim):
    p = dict(p)
    for n, m in TIED[lim].items():
        p[n] = p[m] ** (2 if n == 'msq2' else 1)
    return thr.fix(p)


def full_shift(E, lim, omit):
    """LAMBDA_AT_AS2 in MSbar minus DR', as documented"""
    g, y, y2, la, laa, laa2 = tie([E.thr(o, lim, TEST, omit) for o in range(6)], lim)
    return laa * (C(2) * g + C(4) * y) - la * (C(8) * g * y + C(10) * y * y - C(4) * y2)


def num_shift(rep, p, lim, omit, x=None):
    q = p if x is None else thr.fix(dict(p, Xt=x))
    g, y, y2, la, laa = [thr.call(rep, 'c_thr', q, [k, TEST, omit, lim, -1], 1)[0] for k in range(5)]
    return laa * (2 * g + 4 * y) - la * (8 * g * y + 10 * y * y - 4 * y2)


def num_coeff(rep, p, lim, omit, k):
    """coefficient of Xt^k of the full shift (a polynomial of degree 6), times Xt^k"""
    import numpy as np
    xs = [0.4 * i * p['mQ3'] for i in range(-4, 5)]
    c = np.polynomial.polynomial.polyfit(np.array(xs) / p['mQ3'], [num_shift(rep, p, lim, omit, x) for x in xs], 6)
    return c[k] * (p['Xt'] / p['mQ3']) ** k


def xt_stub(ex, st, a, i):
    return T.fn('xtterms', *[T.fconst(int(x)) for x in a[1:4]])


def one_shift(rep, item):
    lim, omit = item
    E = thr.Enc(rep)
    S = full_shift(E, lim, omit)
    size = [1.]

    def close(x, y):
        return check.close(x, y, 1e-5, 1e-6 * size[0])
    for k in (4, 5, 6):
        c, _ = coeff(S, k, T.ZERO, 0)
        xk = C(1)
        for _ in range(k):
            xk = xk * V('Xt')

        def native(p, k=k):
            p = tied_point(p, lim)
            size[0] = abs(num_shift(rep, p, lim, omit))
            return thr.call(rep, 'c_xt', p, [k, omit, lim], 1)[0], -num_coeff(rep, p, lim, omit, k)
        thr.same(rep, '%s, logs %d: terms of Xt^%d of the shift' % (LIM[lim], omit, k), tie(E.call('c_xt', (k, omit, lim), 1), lim)[0],
                 -(c * xk / C(FACT[k])), native, close=close)
    E.done()
    E2 = thr.Enc(rep)            # the terms of one power of Xt as an arbitrary function
    E2.t = twin.Twin(thr.TUS, {r'ThresholdCalculator::getDRbarPrimeToMSbarXtTerms\(': xt_stub}, native=thr.nat, setup=thr.setup)
    for x in (3, 4):
        parts = [xt_stub(None, None, (None, lim, j, 1 - omit), None) for j in range(x + 1, 7)]

        def native(p, x=x):
            p = tied_point(p, lim)
            q = [thr.call(rep, 'c_xt', p, [j, 1 - omit, lim], 1)[0] for j in range(x + 1, 7)]
            size[0] = max(abs(v) for v in q)
            return thr.call(rep, 'c_shift', p, [x, omit, 1 - omit, lim], 1)[0], num_shift(rep, p, lim, omit) + sum(q)
        thr.same(rep, '%s, up to Xt^%d, logs %d: shift = MSbar - DR\' plus the dropped powers' % (LIM[lim], x, omit),
                 tie(E2.call('c_shift', (x, omit, 1 - omit, lim), 1), lim)[0], sum(parts, S), native, close=close)
    E.done()


FACT = [1, 1, 2, 6, 24, 120, 720]


def shift(rep):
    rep.bounds.append('six limits; powers 4, 5, 6 of Xt; with and without logs')
    prep()
    check.parallel(rep, one_shift, [(l, o) for l in (0, 2, 3, 1, 4, 5) for o in (1, 0)])


# ------------------------------------------------------------------ choice of the limit
LTUS = ['limits.cpp'] + build.EFT + build.CORE
L0 = []


def lnat():
    if not L0:
        L0.append(par.Native('limits', ['limits.cpp', 'ufnative.cpp'] + build.ALL))
    return L0[0]


def lpoints(rng, k):
    """near-degenerate patterns"""
    p = twin.default_point(rng, k)
    m = p['mq22'] = rng.uniform(1e3, 2e3) ** 2

    def near(e):
        return (math.sqrt(m) * (1 + rng.choice([-1, 1]) * e)) ** 2
    u, g, s = [rng.choice([1e-8, 1e-4, 3e-3, 7e-3, 9e-3, 0.012, 0.017, 0.3]) for _ in range(3)]
    p['mu22'], p['MG'] = near(u), math.sqrt(near(g))
    if rng.random() < 0.2:
        p['MG'] = math.sqrt(p['mu22']) * (1 + rng.choice([-1, 1]) * g)
    for n in ('mq20', 'mq21', 'md20', 'md21', 'md22', 'mu20', 'mu21'):
        p[n] = near(s)
    p['Mt'] = p['Mt'] * rng.choice([1, 1, 30])
    return p


def one_choice(rep, bad):
    from symx import calc
    t = twin.Twin(LTUS, {r'ThresholdCalculator::getDeltaYtAlphas2\(': 't_yt2', r'Parameters::calculateMsq2\(': 't_msq2',
                         r'^set_msq2': 't_set_msq2'}, native=lnat, positive=list(calc.POS), setup=calc.no_validate, prune=True)
    t.compare(rep, 'choice of the mass limit' + (', general mass case undetermined' if bad else ''), 'c_lim', 'r_lim', [bad],
              ['limit', 'general mass case afterwards'], points=lpoints)
    t.E.note(rep)


def choice(rep):
    rep.bounds.append('all parameters symbolic; the two-loop threshold correction of the Yukawa coupling is an arbitrary function, or undetermined in '
                      'the general mass case')
    lnat()
    build.modules(*LTUS)
    check.parallel(rep, one_choice, [0, 1])


if __name__ == '__main__':
    check.main('P15', 'threshold corrections', [('limits', limits), ('schemes', schemes), ('logs', logs),
                                                ('shift', shift), ('choice', choice)])
