"""The expansion uncertainty is the quadratic sum of the mass shifts from lowering each expansion order of the family."""
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from symx import build, calc, check, hier, par, ratf, smt, world, terms as T

XF = [T.ivar('x%d' % k) for k in range(12)]
OWN = {'H3': 'Dmglst1 Dmsqst1 Dmst12', 'H4': 'At lmMsusy Msq Msusy', 'H5': 'Dmglst1 Msq', 'H6': 'Dmglst2 Msq',
       'H6b': 'Dmglst2 Dmsqst2', 'H9': 'Dmsqst1 Dmst12 Mgl'}
N0 = []


def nat():
    if not N0:
        N0.append(par.Native('calc', ['calc.cpp'] + build.ALL))
    return N0[0]


def low(f, name=None):
    f = list(f)
    f[0] = f[1] = 1
    if name:
        f[calc.FLAGS.index(name)] = 0
    return f


def eig(m):
    w = np.linalg.eigvals(np.array(m).reshape(2, 2)).real
    return float(np.sqrt(min(w))) if min(w) >= 0 else float('nan')


def one(rep, h):
    E = par.Entry(calc.TUS)
    H = calc.ID2H[h]
    own = OWN[hier.MOTHER[H]].split()
    M = [T.var('m%d' % k) for k in range(4)]
    rng = random.Random(rep.seed * 100 + h)
    for ab in (0, 1):
        for mdr in (0, 1):
            for l in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
                name = '%s alphab=%d mdr=%d loops=%s' % (H, ab, mdr, l)
                i = [ab, h, mdr] + list(l)
                A = world.Abstract()
                got = E.sym1('c_unc_flags', i + XF, 13, setup=A.install, extra=M)[0]

                def mass(f):
                    B = world.Abstract()
                    m = E.sym1('c_hier_flags', i + f, 4, setup=B.install)
                    m = [T.fadd(a, b) for a, b in zip(M, m)]
                    return T.fn('minmass', m[0], m[2], m[1], m[3])
                full = mass(low(XF))
                s = T.ZERO
                for f in own:
                    s = s + (full - mass(low(XF, f))) ** 2
                bad = []
                S = smt.Smt()
                a, b = S.many([got, T.sqrt(s)])
                S.ax = []       # library functions and divisions uninterpreted
                if smt.prove(rep, a == b, (), S, ms=5000)[0]:
                    rep.ok(name)
                else:
                    sp = ratf.Space(calc.POS)
                    ratf.equal(rep, name, got, T.sqrt(s), space=sp, on_diff=bad.append)
                for _ in range(60 if bad else 1):
                    p = {k: x * rng.uniform(0.9, 1.1) for k, x in par.POINT.items()}
                    for k in p:
                        if bad and k[:2] in ('mq', 'mu', 'md', 'MG') and k != 'mu':
                            p[k] *= rng.uniform(0.6, 1.8)
                    fl = [1] * 12 if _ % 2 == 0 else [rng.randrange(2) for _ in range(12)]
                    m = [2e4, -3e3, -3e3, 3e4]
                    st, o = nat()('c_unc_flags', p, i + fl, 13, extra=m)

                    def nm(f):
                        return eig(np.array(m) + np.array(nat()('c_hier_flags', p, i + f, 4)[1]))
                    r = np.sqrt(sum((nm(low(fl)) - nm(low(fl, f))) ** 2 for f in own))
                    if np.isnan(r):
                        continue
                    rep.replays += 1
                    if st != 0 or not check.close(o[0], r, 1e-6, 1e-7):
                        rep.violate(name, '; '.join(bad[:2]) or 'uncertainty differs from its definition',
                                    {'entry': 'c_unc_flags', 'ints': i + fl, 'parameters': p, 'matrix': m,
                                     'calculator': o[0], 'reference': r})
                        break
                    rep.validated += 1
                else:
                    if bad:
                        rep.unknown(name, bad[0] + ' (not reproduced natively)')
    E.note(rep)


def part(rep):
    rep.bounds.append('14 hierarchies, both sectors, DR and MDR, four loop selections; any matrix, any parameters, any preset '
                      'flags; hierarchy classes and eigenvalue solver uninterpreted')
    rep.assume.append('real arithmetic; the 2x2 eigenvalue solver is taken as a function of the matrix')
    nat()
    check.parallel(rep, one, range(14))


if __name__ == '__main__':
    check.main('P25', 'expansion uncertainty', [('uncertainty', part)])
