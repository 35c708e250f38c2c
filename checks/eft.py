"""EFT contributions: composition from the threshold corrections, gating by coupling orders, additivity, coupling powers."""
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import build, calc, check, par, trig, terms as T, twin

TUS = ['eft.cpp'] + build.EFT
N0 = []


def nat():
    if not N0:
        N0.append(par.Native('eft', ['eft.cpp', 'ufnative.cpp'] + build.ALL))
    return N0[0]


TC = r'^himalaya::mh2_eft::ThresholdCalculator::'
STUB = [(TC + r'ThresholdCalculator\(', 't_thr_ctor'), (TC + r'getThresholdCorrection\(', 't_thr'),
        (r'^himalaya::mh2_fo::b0xx\(', 't_b0xx')]
STUB0 = [STUB[0], (STUB[1][0], 't_thr0'), STUB[2]]
ORD = ['G12G22', 'G14', 'G24', 'G12YB2', 'G22YB2', 'YB4', 'G12YTAU2', 'G22YTAU2', 'YTAU4', 'G12YT2', 'G22YT2', 'YT4', 'G32YB4', 'YB6',
       'YT6', 'YTAU2YB4', 'YTAU2YT4', 'YTAU6', 'YT2YB4', 'G32YT4', 'YB2YT4', 'YTAU4YB2', 'ONLY_AT_AS']
#        powers of g1, g2, g3, Mb, Mtau
POW = {'G12G22': (2, 2, 0, 0, 0), 'G14': (4, 0, 0, 0, 0), 'G24': (0, 4, 0, 0, 0), 'G12YB2': (2, 0, 0, 2, 0),
       'G22YB2': (0, 2, 0, 2, 0), 'YB4': (0, 0, 0, 4, 0), 'G12YTAU2': (2, 0, 0, 0, 2), 'G22YTAU2': (0, 2, 0, 0, 2),
       'YTAU4': (0, 0, 0, 0, 4), 'G12YT2': (2, 0, 0, 0, 0), 'G22YT2': (0, 2, 0, 0, 0), 'YT4': (0, 0, 0, 0, 0),
       'G32YB4': (0, 0, 2, 4, 0), 'YB6': (0, 0, 0, None, 0), 'YT6': (0, 0, 0, 0, 0), 'YTAU2YB4': (0, 0, 0, 4, 2),
       'YTAU6': (0, 0, 0, 0, 6), 'YT2YB4': (0, 0, 0, None, 0), 'G32YT4': (0, 0, 2, 0, 0), 'YB2YT4': (0, 0, 0, 2, 0),
       'YTAU4YB2': (0, 0, 0, 2, 4)}
COUP = ('g1', 'g2', 'g3', 'Mb', 'Mtau')
LAB = ['EFT %d-loop' % k for k in range(4)]


def tw(stub):
    return twin.Twin(TUS, stub, native=nat, positive=list(calc.POS) + ['Mb', 'Mtau', 'g1', 'g2', 'g3'], setup=calc.no_validate, rewrite=trig.rewrite)


def one(rep, item):
    what, a = item
    t = tw(STUB if what in ('default', 'flag', 'nan') else STUB0)
    if what == 'default':
        t.compare(rep, 'default orders, omit flags %s' % (a,), 'c_eft', 'r_eft', list(a) + [-1, 0], LAB)
    elif what == 'zero':
        pass
    elif what == 'flag':
        t.compare(rep, '%s set to %d' % (ORD[a[0]], a[1]), 'c_eft', 'r_eft', [1, 1, 1] + list(a), LAB)
    elif what == 'nan':
        env = dict({n: T.var(n) for n in par.NAMES}, Mt=T.fconst(150), **{a: T.fconst(math.nan)})

        def pts(rng, k):
            p = twin.default_point(rng, k)
            p[a] = math.nan
            p['Mt'] = 150.
            return p
        t.compare(rep, 'undetermined threshold corrections (%s)' % a, 'c_eft', 'r_eft', [1, 1, 1, -1, 0], LAB, env=env, points=pts)
    elif what == 'sum':
        t.compare(rep, 'all orders enabled, omit flags %s' % (a,), 'c_sum', 'r_sum', list(a), LAB[1:3])
    else:
        o, w = a
        k = POW[ORD[o]]
        t.compare(rep, '%s alone: power %d of %s' % (ORD[o], k[w], COUP[w]), 'c_pow', 'r_pow', [1, 1, o] + [x or 0 for x in k] + [w], LAB[1:3],
                  extra=[T.var('factor')], nat_extra=lambda rng, k: [rng.uniform(0.5, 2)])
    t.E.note(rep)


def run(rep, items):
    nat()
    build.modules(*TUS)
    check.parallel(rep, one, items)


ASSUME = ('real arithmetic; threshold corrections and loop integrals are arbitrary functions of the parameters; the three-loop EFT '
          'contribution is only compared for a non-vanishing top mass')


def compose(rep):
    rep.bounds.append('all 49 parameters symbolic; all eight settings of the three omit flags; vanishing and non-vanishing couplings')
    rep.assume.append(ASSUME)
    run(rep, [('default', (a, b, c)) for a in (0, 1) for b in (0, 1) for c in (0, 1)])


def gate(rep):
    rep.bounds.append('each of the three default orders switched off, each on again; all parameters symbolic; undetermined (NaN) MG or Au at Mt = 150')
    run(rep, [('flag', (ORD.index(o), v)) for o in ('YT4', 'G32YT4', 'YT6') for v in (0, 1)] + [('nan', n) for n in ('MG', 'Au')])


def orders(rep):
    rep.bounds.append('all orders together against the sum of each alone; powers of g1, g2, g3, Mb, Mtau of each of the 21 orders (with any '
                      'positive factor), threshold corrections held fixed')
    run(rep, [('sum', (1, 1)), ('sum', (0, 1))] +
        [('pow', (ORD.index(o), w)) for o in POW for w in range(5) if POW[o][w] is not None])


if __name__ == '__main__':
    check.main('P16', 'EFT contributions', [('composition', compose), ('gating', gate), ('orders', orders)])
