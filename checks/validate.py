"""Parameters::validate and calculateMsq2 follow the documented rules."""
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import build, check, par, ratf, terms as T, trig, twin
from symx.execu import Ptr

TUS = ['validate.cpp', 'Himalaya_interface.cpp']
MATS = 'mq2 md2 mu2 ml2 me2 Au Ad Ae Yu Yd Ye'.split()
SC = ('scale mu g1 g2 g3 vd vu M1 M2 MG MW MZ Mt Mb Mtau MA MSt0 MSt1 MSb0 MSb1 MStau0 MStau1 s2t s2b s2tau '
      'theta_t theta_b theta_tau').split()
NAMES = ['%s%d%d' % (m, i, j) for m in MATS for i in range(3) for j in range(3)] + SC
LABELS = ['%s(%d,%d)' % (m, i, j) for m in MATS for i in range(3) for j in range(3)] + SC[:25] + [
    '%s 2theta_%s' % (f, x) for x in ('t', 'b', 'tau') for f in ('sin', 'cos')]
SECT = {'t': ['MSt0', 'MSt1', 's2t', 'theta_t'], 'b': ['MSb0', 'MSb1', 's2b', 'theta_b'],
        'tau': ['MStau0', 'MStau1', 's2tau', 'theta_tau']}
N0 = []


def nat():
    if not N0:
        N0.append(par.Native('validate', ['validate.cpp', 'oracle_validate.cpp', 'Himalaya_interface.cpp']))
    return N0[0]


class Oracle:
    """eigenvalues and vectors of the mass matrices and singular values of the Yukawa matrices as variables tied to the matrix"""

    def __init__(self, positive):
        self.mix, self.sv = [], []
        self.sp = ratf.Space(positive)

    def install(self, ex):
        self.ex = ex
        ex.stub('oracle_eig', self.eig)
        ex.stub('oracle_mix', self.mixing)
        ex.stub('oracle_sv', self.svals)
        ex.restub(r'^Eigen::SelfAdjointEigenSolver<.*>::SelfAdjointEigenSolver<', 't_saes')
        ex.restub(r'^Eigen::JacobiSVD<.*>::JacobiSVD\(', 't_svd')
        ex.restub(r'^Eigen::JacobiSVD<.*>::~JacobiSVD\(', lambda ex, st, a, i: None)

    def same(self, a, b):
        if a is b:
            return True
        try:
            return not self.sp.diff(self.sp.ev([a])[0], self.sp.ev([b])[0])
        except Exception:
            return False

    def find(self, m):
        for k, q in enumerate(self.mix):
            if all(self.eq(x, y) for x, y in zip(m, q)):
                return k
        self.mix.append(m)
        k = len(self.mix) - 1
        trig.UNIT['c_%d' % k] = 's_%d' % k
        trig.UNIT['s_%d' % k] = 'c_%d' % k
        return k

    def eq(self, x, y):
        bad = []
        if x is y:
            return True
        ratf.equal(check.Sub(check.Report("", "")), '', x, y, space=self.sp, on_diff=bad.append)
        return not bad

    @staticmethod
    def vars(k):
        return [T.var('%s_%d' % (n, k)) for n in ('w0', 'w1', 'c', 's', 'sigma')]

    def eig(self, ex, st, a, i):
        k = self.find([a[0], a[1], a[3]])
        self.find([a[0], a[2], a[3]])                     # an asymmetric matrix gets variables of its own
        w0, w1, c, s, g = self.vars(k)
        cc, ss = T.fmul(c, c), T.fmul(s, s)
        out = [T.fadd(T.fmul(cc, w0), T.fmul(ss, w1)), T.fmul(T.fmul(c, s), T.fsub(w0, w1)),
               T.fadd(T.fmul(ss, w0), T.fmul(cc, w1)), w0, w1, c, s, g]
        for q, v in enumerate(out):
            ex.store(st, i[2], ('f', 64), v, Ptr(a[4].obj, a[4].off + 8 * q))

    def mixing(self, ex, st, a, i):
        w0, w1, c, s, _ = self.vars(self.find([a[0], a[1], a[2]]))
        out = [w0, w1, T.fmul(T.fconst(2.0), T.fmul(c, s)), T.fsub(T.fmul(c, c), T.fmul(s, s))]
        for q, v in enumerate(out):
            ex.store(st, i[2], ('f', 64), v, Ptr(a[3].obj, a[3].off + 8 * q))

    def svals(self, ex, st, a, i):
        m = [ex.load(st, i[2], ('f', 64), Ptr(a[0].obj, a[0].off + 8 * q)) for q in range(9)]
        m = min(m, [m[3 * (q % 3) + q // 3] for q in range(9)], key=lambda l: [x.id for x in l])    # those of the transposed matrix
        for q in range(3):
            ex.store(st, i[2], ('f', 64), T.fn('sv%d' % q, *m), Ptr(a[1].obj, a[1].off + 8 * q))

    def assume(self):
        r = []
        for k in range(len(self.mix)):
            w0, w1, c, s, _ = self.vars(k)
            cc, ss = T.fmul(c, c), T.fmul(s, s)
            r += [T.fcmp('oeq', T.fadd(cc, ss), T.ONE), T.fcmp('olt', w0, w1), T.fcmp('one', cc, ss)]
        return r


POS = ['vd', 'vu', 'MW', 'MZ', 'g1', 'g2']


def draw(nan, bad):
    def points(rng, k):
        q = twin.default_point(rng, k)
        p = {}
        for m in MATS:
            for i in range(3):
                for j in range(3):
                    n = '%s%d%d' % (m, i, j)
                    if m in MATS[:5]:
                        p[n] = q['%s%d' % (m, i)] if i == j else rng.choice([0., 1e3, 5e4])
                    elif i == j == 2:
                        p[n] = q[m]
                    else:
                        p[n] = rng.uniform(0, 0.3) * q[m]
        for n in SC:
            p[n] = q[n]
        if k % 5 == 1:
            n = rng.choice([x for x in NAMES if x[:3] in ('mq2', 'md2', 'mu2', 'ml2', 'me2')] + ['MG', 'vu', 'vd'])
            p[n] = -p[n] - 1
        elif k % 5 == 2:
            x = rng.choice(['MSt', 'MSb', 'MStau'])
            p[x + '0'], p[x + '1'] = p[x + '1'], p[x + '0']
            p['mu222'], p['mq222'] = p['mq222'], p['mu222']
        elif k % 5 == 3:
            x = rng.choice(['MSt', 'MSb', 'MStau', 'mq2'])
            if x == 'mq2':
                p['mq222'] = p['mu222'] + rng.choice([-2, 2, 0.5, -0.5, 0]) * 1e-8
            else:
                p[x + '1'] = p[x + '0'] + rng.choice([-2, 2, 0.5, -0.5, 0]) * 1e-8
        elif k % 5 == 4:
            n = rng.choice(['Au22', 'Ad22', 'Ae22', 'mu'])
            p[n] *= -rng.choice([1, 3, 30, 100])
        p['Mb'] *= rng.choice([1, 10])
        for n in nan:
            p[n] = math.nan
        for n in bad:
            p[n] = bad[n]
        return p
    return points


def floor(p, lab, a, b):
    if 'theta' in lab or lab.startswith('s2'):
        return 1e-5
    return 1e-12 * max([1e-300] + [abs(x) for x in p.values() if x == x])


FIX = dict(MSt0=1150., MSt1=1450., MSb0=1400., MSb1=1560., MStau0=890., MStau1=960.)


def one(rep, item):
    nan, full = item[:2]
    const = dict(item[2:])
    trig.UNIT.clear()
    orc = Oracle(POS)
    tw = twin.Twin(TUS, native=nat, names=NAMES, positive=POS, setup=orc.install, prune=True, rewrite=trig.rewrite)
    env = {n: T.NAN if n in nan else T.var(n) for n in NAMES}
    if not full:
        for ns in SECT.values():
            if not set(ns) & set(nan):
                env.update({n: T.fconst(FIX[n]) for n in ns[:2]})
    env.update({n: T.fconst(v) for n, v in const.items()})
    tw.compare(rep, 'validate, not given: %s%s' % (', '.join(nan) or 'nothing', ''.join(' %s=%g' % x for x in const.items())), 'c_validate', 'r_validate', [], LABELS, env=env,
               points=draw(nan, {} if full else {n: v for n, v in FIX.items() if env[n].op == 'c'} | const), floor=floor, assume=orc.assume, only0=True)
    tw.E.note(rep)


def items():
    r = [(), ('MW',), ('MZ',), ('Mt',), ('Mb',), ('Mtau',), ('vu',), ('vd',), ('MW', 'MZ', 'Mt', 'Mb', 'Mtau')]
    for ns in SECT.values():
        r += [(n,) for n in ns] + [tuple(ns[2:]), tuple(ns[:2]), tuple(ns), (ns[0], ns[2]), (ns[1], ns[3])]
    r += [tuple(SECT['t'] + SECT['b']), tuple(sum(SECT.values(), [])),
          tuple(['MW', 'MZ', 'Mt', 'Mb', 'Mtau'] + sum(SECT.values(), [])), ('MW', 'MZ', 'MSt0', 'theta_b', 's2tau')]
    return [((), True)] + [(x, False) for x in r] + [
        (tuple(sum(SECT.values(), [])), False, ('MW', w), ('MZ', 0.)) for w in (0., 80.)]


def part(rep):
    rep.bounds.append('all entries of the 11 3x3 matrices and 28 scalars symbolic; %d sets of quantities not given' % len(items()))
    rep.assume += ['real arithmetic; Eigen\'s 2x2 eigen solver returns the rotation, exchanged where the diagonal is not increasing, up to '
                   'a common sign (measured for Eigen 3.4 on 2e6 matrices); mass matrices with distinct eigenvalues and distinct diagonal entries',
                   'singular values of the Yukawa matrices: uninterpreted functions of the matrix']
    nat()
    build.modules(*TUS)
    check.parallel(rep, one, items())


def msq2(rep):
    tw = twin.Twin(TUS, native=nat, names=NAMES, positive=POS)
    for const in ({}, {'MW': 0., 'MZ': 0.}, {'MW': 80., 'MZ': 0.}):
        env = {n: T.fconst(const[n]) if n in const else T.var(n) for n in NAMES}
        msq2_one(rep, tw, env, const)
    tw.E.note(rep)


def msq2_one(rep, tw, env, const):
    tw.compare(rep, 'calculateMsq2' + ''.join(' %s=%g' % x for x in const.items()), 'c_msq2', 'r_msq2', [], ['average squark mass'], env=env, points=draw((), const))


if __name__ == '__main__':
    check.main('P20', 'Parameter validation', [('validate', part), ('msq2', msq2)])
