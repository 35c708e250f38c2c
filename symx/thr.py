"""Threshold corrections as terms of mQ3, mU3, MG, msq2, Xt, scale, ... (one per coupling order, scheme and mass limit)."""
import math
from fractions import Fraction as Fr
from . import build, calc, check, mpev, par, ratf, terms as T, twin

V, C = T.var, T.fconst
TUS = ['eft.cpp'] + build.EFT + build.CORE
ORD = ['G3_AS', 'YT_AS', 'YT_AS2', 'LAMBDA_AT', 'LAMBDA_AT_AS', 'LAMBDA_AT_AS2']
LIM = ['GENERAL', 'MQ3_EQ_MU3', 'MQ3_EQ_M3', 'MU3_EQ_M3', 'MQ3_EQ_MU3_EQ_M3', 'DEGENERATE']
H3M, DR, TEST = 0, 1, 4
POS = sorted(set(calc.POS) | {'mQ3', 'mU3', 'MG', 'msq2', 'g3', 'Mt', 'scale', 'MSt0', 'vu', 'vd', 'mQ3b'})
N0 = []


def nat():
    if not N0:
        N0.append(par.Native('eft', ['eft.cpp', 'ufnative.cpp'] + build.ALL))
    return N0[0]


def setup(ex):
    calc.no_validate(ex)
    ex.restub(r'^himalaya::Parameters::calculateMsq2\(', lambda ex, st, a, i: V('msq2'))
    ex.restub(r'^himalaya::dilog\(double\)', lambda ex, st, a, i: T.fn('dilog', a[0]))


def env():
    e = {n: V(n) for n in par.NAMES}
    e['mq22'] = V('mQ3') * V('mQ3')
    e['mu22'] = V('mU3') * V('mU3')
    e['Au'] = V('Xt') + V('mu') * V('vd') / V('vu')
    return e


class Enc:
    """encoded entries; thr(order, limit, scheme, omit, xt) -> term"""

    def __init__(self, rep):
        self.rep = rep
        self.t = twin.Twin(TUS, [], native=nat, setup=setup)
        self.memo = {}

    def call(self, fn, ints, nout, what=''):
        key = (fn, tuple(ints))
        if key not in self.memo:
            outs = self.t.E.sym(fn, list(ints), nout, env=env(), setup=self.t.setup, extra=[V('msq2')], names=par.NAMES)
            live = [(o, v) for o, v in outs if o.kind == 'ret']
            if len(live) != 1 or len(outs) != 1:
                raise ratf.Give('%s: %d paths' % (fn, len(outs)))
            self.memo[key] = live[0][1]
        return self.memo[key]

    def thr(self, o, lim=0, scheme=DR, omit=1, xt=-1):
        return self.call('c_thr', (o, scheme, omit, lim, xt), 1)[0]

    def done(self):
        self.t.E.note(self.rep)


def point(rng, **kw):
    p = dict(par.POINT)
    p['msq2'] = 2.3e6
    p['mQ3'], p['mU3'], p['Xt'] = 1400., 1150., 1650.
    for n in p:
        p[n] *= math.exp(rng.uniform(-0.25, 0.25))
    for n in ('mq20', 'mq21', 'md20', 'md21', 'md22', 'mu20', 'mu21'):     # any values with the wanted average do
        p[n] = p['msq2']
    p.update(kw)
    return fix(p)


def fix(p):
    """inputs of the entries from the variables of the terms"""
    p['mq22'], p['mu22'] = p['mQ3'] ** 2, p['mU3'] ** 2
    p['Au'] = p['Xt'] + p['mu'] * p['vd'] / p['vu']
    return p


def call(rep, fn, p, ints, nout):
    r, v = nat()(fn, p, list(ints), nout, extra=[p['msq2']])
    rep.replays += 1
    if r:
        raise ratf.Give('native %s throws' % fn)
    return v


def same(rep, name, a, b, native, space=None, tol=1e-10, rng=None, close=None):
    """obligation a == b; native(p) -> (value of a, value of b) from the real code at a point of `point`"""
    sp = space or ratf.Space(POS)
    bad = []
    close = close or (lambda x, y: check.close(x, y, 1e-6, 1e-9))
    r = ratf.equal(rep, name, a, b, space=sp, on_diff=bad.append, tol=tol)
    if r:
        return True
    import random
    rng = rng or random.Random(rep.seed)
    for k in range(20):
        p = point(rng)
        x, y = native(p)
        if not close(x, y):
            rep.violate(name, '%.12g instead of %.12g' % (x, y), {'point': p, 'values': [x, y], 'residual': bad[:1]})
            return False
    rep.unknown(name, 'formulas differ (%s) but the values agree at 20 points' % (bad[0][:150] if bad else ''))
    return None
