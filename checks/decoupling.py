"""Three-loop self-energies versus the decoupling coefficients, for all 14 hierarchies."""
import json
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import check, hier, poly, terms as T

# parameters in which a hierarchy is a genuine truncated expansion: both sides are compared
# through this order (inclusive); beyond it the self-energies carry incomplete products
ORDER = {'H6bq22g': {'Dmsqst2': 3}, 'H6bq2g2': {'Dmsqst2': 3}}
BOX = {'sb': (0.7, 0.98), 'cb': (0.2, 0.7), 'LQ': (-0.2, 0.2), 'MuSUSY': (-1.2, 1.2), 's2t': (-1, 1), 'At': (-1.2, 1.2),
       'Mt': (0.8, 1.25), 'Al4p': (0.5, 1)}


def box(R):
    b = []
    for n in R.names:
        if n in BOX:
            b.append(BOX[n])
        elif n.startswith('lM'):
            b.append((-0.25, 0.25))
        elif n.startswith('Dm'):
            b.append((-0.5, 0.5))
        elif n in hier.MASSES:
            b.append((0.8, 1.25))
        else:
            b.append((0, 1))
    return b


def relation(o, H):
    v = T.var
    sb, cb = v('sb'), v('cb')
    p = T.fadd(T.fadd(T.fmul(T.fmul(cb, cb), o[0]), T.fmul(T.fmul(sb, sb), o[1])),
               T.fmul(T.fmul(T.fconst(2), T.fmul(sb, cb)), o[2]))
    mt4 = T.fn('pow', v('Mt'), T.fconst(4))
    lhs = T.fdiv(T.fmul(T.fconst(12), p), T.fmul(mt4, T.fmul(sb, sb)))
    ell = v('lmMsusy' if H == 'H4' else 'lmMst1')
    rhs = T.ZERO
    for k in (3, 2, 1, 0):
        rhs = T.fadd(T.fmul(rhs, ell), o[3 + k])
    return lhs, rhs


def point_vals(R, pt):
    """ring point -> harness arguments"""
    import math
    d = dict(zip(R.names, pt))
    v = {n: d[n] for n in ('Mgl', 'Mt', 'Mst1', 'Mst2', 'Msq', 'Msusy', 'MuSUSY', 's2t', 'At', 'Dmglst1', 'Dmglst2',
                           'Dmst12', 'Dmsqst1', 'Dmsqst2')}
    v['Al4p'] = 1.0
    v['lmMt'] = 0.0
    v['beta'] = math.asin(min(0.99, max(0.1, d['sb'])))
    Q = math.exp(d['LQ'])
    for a, m in (('lmMst1', 'Mst1'), ('lmMst2', 'Mst2'), ('lmMsq', 'Msq'), ('lmMgl', 'Mgl'), ('lmMsusy', 'Msusy')):
        v[a] = math.log(Q * Q / d[m] ** 2)
    return v


def native_sides(H, v):
    import math
    o = hier.native(H)(v, [1] * 12, 0, 0, 0, 1)
    s, c = math.sin(v['beta']), math.cos(v['beta'])
    l = 12 / v['Mt'] ** 4 / s ** 2 * (c * c * o[0] + s * s * o[1] + 2 * s * c * o[2])
    ell = v['lmMsusy' if H == 'H4' else 'lmMst1']
    r = o[3] + ell * (o[4] + ell * (o[5] + ell * o[6]))
    scale = 12 / v['Mt'] ** 4 / s ** 2 * (abs(c * c * o[0]) + abs(s * s * o[1]) + abs(2 * s * c * o[2])) + abs(r)
    return l, r, scale, o


def one(rep, H):
    h = hier.Hier(H)
    o = h.run([1] * 12, 0, 0, 0, 1)
    rep.funcs, rep.steps = h.funcs, h.steps
    # translator validation
    rng = random.Random(rep.seed)
    nat = hier.native(H)
    for _ in range(3):
        v = {n: rng.uniform(0.5, 1.5) for n in hier.NAMES}
        a, b = T.evalf(o, v), nat(v, [1] * 12, 0, 0, 0, 1)
        if not all(check.close(x, y, 1e-9, 1e-9) for x, y in zip(a, b)):
            rep.unknown(H, 'translation disagrees with the native code: %r %r' % (a, b))
            return
        rep.validated += 1
    lhs, rhs = relation(hier.trig(o), H)
    R = hier.lring()
    env = hier.lenv(R)
    env['lmMt'] = 0
    env['Al4p'] = 1
    l, r = R.ev([lhs, rhs], env)
    rep.witness(H, len(l) > 10 and len(r) > 10)
    d = hier.reduce_cb(R, hier.psub(l, r))
    for var, k in ORDER.get(H, {}).items():
        d = {m: c for m, c in d.items() if m[R.ix[var]] <= k}
    big = max(abs(c) for c in r.values())
    tol = float(big) * 1e-10
    bx = box(R)
    # split by power of the logarithm of the scale and of mu: a finding names the block it is in
    blocks = {}
    for m, c in d.items():
        blocks.setdefault(min(2, m[R.ix['MuSUSY']]) if H == 'H5' else 0, {})[m] = c
    # every coefficient block must vanish
    for mu, blk in sorted(blocks.items()) or [(0, {})]:
        name = 'decoupling %s%s' % (H, ' (order mu^%d)' % mu if H == 'H5' else '')
        held = poly.decide(rep, blk, bx, tol)
        if held:
            rep.ok(name)
            continue
        if held is None:
            rep.unknown(name, 'solver gave up')
            continue
        if known_poly(rep, H, mu, R, blk, tol):
            continue
        blk2 = unlisted(rep, H, mu, R, blk)
        pt = poly.witness(rep, blk2, bx)
        v = point_vals(R, pt)
        a, b, sc, out = native_sides(H, v)
        rep.replays += 1
        if abs(a - b) > 1e-11 * sc:
            rep.violate(name, 'self-energies give %.15g, coefficients give %.15g; differing terms: %s' % (
                a, b, R.show(blk2, 4)), {'hierarchy': H, 'inputs': v, 'S1 S2 S12 c0..c3': out})
        else:
            rep.unknown(name, 'difference %s not reproduced natively (%.15g vs %.15g)' % (R.show(blk2, 4), a, b))


def kfile():
    return os.path.join(check.ROOT, 'known', 'decoupling_H5.json')


def load_kp(R, mu):
    if not os.path.exists(kfile()):
        return None
    k = json.load(open(kfile()))
    if k['names'] != R.names:
        return None
    return {tuple(m): float(c) for m, c in k['terms'] if min(2, m[R.ix['MuSUSY']]) == mu}


def unlisted(rep, H, mu, R, blk):
    if H != 'H5':
        return blk
    kp = load_kp(R, mu) or {}
    out = {}
    for m in set(blk) | set(kp):
        c = float(blk.get(m, 0)) - kp.get(m, 0.0)
        if abs(c) > 1e-7 * max(1.0, abs(kp.get(m, 0.0))):
            from fractions import Fraction
            out[m] = Fraction(c)
    return out


def known_poly(rep, H, mu, R, blk, tol):
    if H != 'H5':
        return False
    if unlisted(rep, H, mu, R, blk):
        return False
    rep.known_or_violation('decoupling H5 (order mu^%d)' % mu, 'H5-coefficients', 'H5 decoupling coefficients', {})
    return True


def dump_known():
    h = hier.Hier('H5')
    lhs, rhs = relation(hier.trig(h.run([1] * 12, 0, 0, 0, 1)), 'H5')
    R = hier.lring()
    env = hier.lenv(R)
    env['lmMt'] = 0
    env['Al4p'] = 1
    l, r = R.ev([lhs, rhs], env)
    d = hier.reduce_cb(R, hier.psub(l, r))
    os.makedirs(os.path.dirname(kfile()), exist_ok=True)
    json.dump({'names': R.names, 'terms': [[list(k), '%.12g' % float(c)] for k, c in sorted(d.items()) if abs(c) > 1e-7]},
              open(kfile(), 'w'))


def main_part(rep):
    rep.bounds.append('all expansion flags on, no MDR shift, 3-loop part only, alpha_s/(4 pi)=1, log(Q^2/Mt^2)=0; every '
                      'monomial within the box masses in [0.8,1.25], |D*|<=0.5, |mu|<=1.2, |s2t|<=1; '
                      'coefficients compared to 1e-10 of the largest')
    rep.assume.append('real arithmetic; decimal literals read as the nearest simple rational')
    hier.native('H3')
    check.parallel(rep, one, hier.HIER)


if __name__ == '__main__':
    if '--dump-known' in sys.argv:
        dump_known()
    else:
        check.main('P01', 'three-loop self-energies and decoupling coefficients agree', [('decoupling', main_part)])
