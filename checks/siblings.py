"""Hierarchies of one family agree as expansions: after inserting the definitions of the expansion
parameters, the Taylor series in the mass differences agree through the order both keep."""
import math
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import check, hier, poly, ring, terms as T

# (reference, sibling, loop order, first power of Dmglst1/2 and of Dmsqst1/2 which one of them drops)
PAIRS = [
    ('H3', 'H32q2g', 1, 9, 9), ('H3', 'H32q2g', 2, 4, 9), ('H3', 'H32q2g', 3, 4, 3),
    ('H3', 'H3q22g', 1, 9, 9), ('H3', 'H3q22g', 2, 4, 9), ('H3', 'H3q22g', 3, 4, 9),
    ('H5', 'H5g1', 1, 9, 9), ('H5', 'H5g1', 2, 3, 9), ('H5', 'H5g1', 3, 3, 9),
    ('H6', 'H6g2', 1, 9, 9), ('H6', 'H6g2', 2, 3, 9), ('H6', 'H6g2', 3, 3, 9),
    ('H6b', 'H6b2qg2', 1, 9, 9), ('H6b', 'H6b2qg2', 2, 3, 9), ('H6b', 'H6b2qg2', 3, 3, 9),
    ('H6b', 'H6bq22g', 1, 9, 9), ('H6b', 'H6bq22g', 2, 9, 9), ('H6b', 'H6bq22g', 3, 9, 3),
    ('H6b', 'H6bq2g2', 1, 9, 9), ('H6b', 'H6bq2g2', 2, 3, 9), ('H6b', 'H6bq2g2', 3, 3, 3),
    ('H6b2qg2', 'H6bq2g2', 2, 9, 9), ('H6', 'H6b', 1, 9, 9), ('H6', 'H6b', 2, 2, 9), ('H6g2', 'H6b2qg2', 2, 2, 9),
    ('H9', 'H9q2', 1, 9, 9), ('H9', 'H9q2', 2, 9, 9), ('H9', 'H9q2', 3, 9, 3),
]
KMAX = 6
NAMES = ['t', 'sb', 'cb', 'M', 'M2', 'MG', 'MQ', 'Mt', 'lM', 'lM2', 'lMG', 'lMQ', 'LQ', 'lmMt', 'MuSUSY', 's2t', 'D12',
         'Dg', 'Dq', 'Al4p']
IG, IQ = NAMES.index('Dg'), NAMES.index('Dq')
BOX = {'t': (1, 1), 'sb': (0.7, 0.98), 'cb': (0.2, 0.7), 'LQ': (-0.2, 0.2), 'lmMt': (-0.4, 0.4), 'MuSUSY': (-1.2, 1.2),
       's2t': (-1, 1), 'Mt': (0.8, 1.25), 'Al4p': (1, 1), 'D12': (-1, 1), 'Dg': (-1, 1), 'Dq': (-1, 1)}


def ring_of(K):
    return ring.Ring(NAMES, {'t': 1}, K, logs={'M': 'lM', 'M2': 'lM2', 'MG': 'lMG', 'MQ': 'lMQ'})


def subs(H, t=None):
    """definitions of the arguments in terms of the base masses and t * differences"""
    v = T.var
    t = t or v('t')
    M, M2 = v('M'), v('M2')
    fam = hier.MOTHER[H]
    s = {'Mst1': M, 'MuSUSY': v('MuSUSY'), 's2t': v('s2t'), 'Mt': v('Mt'), 'lmMt': v('lmMt')}
    if fam in ('H3', 'H9'):
        s['Dmst12'] = T.fmul(t, v('D12'))
        s['Mst2'] = T.fn('sqrt', T.fsub(T.fmul(M, M), s['Dmst12']))
        s['Dmsqst1'] = T.fmul(t, v('Dq'))
        s['Msq'] = T.fn('sqrt', T.fadd(T.fmul(M, M), s['Dmsqst1']))
        if fam == 'H3':
            s['Dmglst1'] = T.fmul(t, v('Dg'))
            s['Mgl'] = T.fadd(M, s['Dmglst1'])
        else:
            s['Mgl'] = v('MG')
    else:
        s['Mst2'] = M2
        g = 'Dmglst1' if fam == 'H5' else 'Dmglst2'
        s[g] = T.fmul(t, v('Dg'))
        s['Mgl'] = T.fadd(M if fam == 'H5' else M2, s[g])
        if fam == 'H6b':
            s['Dmsqst2'] = T.fmul(t, v('Dq'))
            s['Msq'] = T.fn('sqrt', T.fadd(T.fmul(M2, M2), s['Dmsqst2']))
        else:
            s['Msq'] = v('MQ')

    def lm(x):
        return T.fmul(T.fconst(2), T.fsub(v('LQ'), T.fn('log', x)))
    s['lmMst1'], s['lmMst2'], s['lmMgl'], s['lmMsq'] = lm(M), lm(s['Mst2']), lm(s['Mgl']), lm(s['Msq'])
    return s


def nat_args(H, pt, t):
    """concrete harness arguments for the point"""
    e = dict(pt)
    e['t'] = t
    s = subs(H)
    names = list(s)
    vals = T.evalf([s[n] for n in names], e)
    v = dict(zip(names, vals))
    v['Al4p'] = 1.0
    v['beta'] = math.asin(pt['sb'])
    v.setdefault('LQ', 0)
    return v


def lmarg(e):
    e = dict(e)
    return e


def series(rep, cache, H, mdr, loop, K):
    key = (H, mdr, loop, K)
    if key not in cache:
        h = cache.setdefault(('h', H), hier.Hier(H))
        o = hier.trig(h.run([1] * 12, mdr, *[int(loop == k) for k in (1, 2, 3)]))
        o = o if (loop == 3 and not mdr) else o[:3]
        R = ring_of(K)
        env = {n: n for n in NAMES}
        env['Al4p'] = 1
        cache[key] = R.ev(T.subst(o, subs(H)), env)
    return cache[key]


OUT = ['S1', 'S2', 'S12', 'log^0 coefficient', 'log^1 coefficient', 'log^2 coefficient', 'log^3 coefficient']


def one(rep, fam):
    cache = {}
    R = ring_of(KMAX)
    box = [BOX[n] if n in BOX else (-0.25, 0.25) if n.startswith('l') else (0.8, 1.25) for n in NAMES]
    for a, b, loop, kg, kq in PAIRS:
        if hier.MOTHER[a] != fam and not (fam == 'H6b' and a == 'H6' and b == 'H6b'):
            continue
        if hier.MOTHER[a] == 'H6' and b.startswith('H6b') and fam != 'H6b':
            continue
        for mdr in (0, 1):
            pa, pb = series(rep, cache, a, mdr, loop, KMAX), series(rep, cache, b, mdr, loop, KMAX)
            for i, (x, y) in enumerate(zip(pa, pb)):
                if fam == 'H5' and i in (3, 4, 5):
                    continue        # the decoupling coefficients of H5 are a recorded finding of P01
                name = '%s~%s %d-loop %s mdr=%d' % (a, b, loop, OUT[i], mdr)
                full = hier.reduce_cb(R, hier.psub(x, y))
                d = {m: c for m, c in full.items() if m[IG] < kg and m[IQ] < kq}
                big = max([abs(c) for c in x.values()] or [1])
                held = poly.decide(rep, d, box, float(big) * 1e-10)
                rep.witness(name, len(x) > 0 or len(y) == 0)
                if held:
                    rep.ok(name)
                elif held is None:
                    rep.unknown(name, 'solver gave up')
                else:
                    replay(rep, name, a, b, loop, mdr, i, d, psub_(full, d), R, box)
    for key, h in cache.items():
        if key[0] == 'h':
            rep.steps += h.steps
            for f, n in h.funcs.items():
                rep.funcs[f] = rep.funcs.get(f, 0) + n


def psub_(x, y):
    return {m: c for m, c in x.items() if m not in y}


def replay(rep, name, a, b, loop, mdr, i, d, beyond, R, box):
    big = max(abs(c) for c in d.values())
    dd = {m: c for m, c in d.items() if abs(c) > big * Fraction(1, 10 ** 6)}
    low = min(m[0] for m in dd)
    lead = {m: c for m, c in dd.items() if m[0] == low}
    pt = poly.witness(rep, lead, box)
    p = dict(zip(NAMES, pt))
    # base masses and their logarithms must be consistent in a concrete point
    for m in ('M', 'M2', 'MG', 'MQ'):
        p['l' + m] = math.log(p[m])
    p['cb'] = math.sqrt(1 - p['sb'] ** 2)
    fl = [int(loop == q) for q in (1, 2, 3)]
    best = None
    for t in (3e-2, 1e-2, 3e-3, 1e-3, 1e-4):
        va = hier.native(a)(nat_args(a, p, t), [1] * 12, mdr, *fl)[i]
        vb = hier.native(b)(nat_args(b, p, t), [1] * 12, mdr, *fl)[i]
        rep.replays += 1
        x = [p[n] if n != 't' else t for n in NAMES]
        pred, got = poly.value(dd, x), va - vb - poly.value(beyond, x)
        noise = 1e-13 * (abs(va) + abs(vb))
        if abs(got - pred) < 0.3 * abs(pred) and noise < 0.1 * abs(pred):
            best = (t, va, vb, got)
            break
    if best is None:
        rep.unknown(name, 'difference at order %d (%s) not reproduced natively' % (low, R.show(lead, 3)))
        return
    rep.violate(name, 'they differ already at order %d in the mass differences: %.12g vs %.12g at t=%g; terms %s' % (
        low, best[1], best[2], best[0], R.show(lead, 3)), {'point': p, 't': best[0], 'values': best[1:3]})


def part(rep):
    rep.bounds.append('Taylor expansion in the mass differences through total order 5, without the powers of '
                      'Dmglst and Dmsqst which one of the pair drops (PAIRS table); all remaining '
                      'masses, logarithms, mixing, mu, tan(beta) symbolic; box only for the tolerance 1e-10')
    rep.assume.append('real arithmetic; decimal literals read as the nearest simple rational; expansion parameters '
                      'defined with the dimension their formulas require (see the unit-rescaling property)')
    hier.native('H3')
    check.parallel(rep, one, ['H3', 'H5', 'H6', 'H6b', 'H9'])


if __name__ == '__main__':
    check.main('P02', 'hierarchies of one family agree where they overlap', [('siblings', part)])
