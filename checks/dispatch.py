"""The hierarchy calculator hands each expansion the arguments its definition asks for and returns
prefactor * sum of the requested loop orders."""
import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import calc, check, hier, par, ratf, smt, terms as T, build

v, c = T.var, T.fconst
KNOWN = {('H6b', 'Dmsqst2'), ('H6b2qg2', 'Dmsqst2'), ('H6bq22g', 'Dmsqst2'), ('H6bq2g2', 'Dmsqst2')}


def sq(x):
    return T.fmul(x, x)


def lm(m):
    return T.fmul(c(2), T.fsub(T.fn('log', v('scale')), T.fn('log', m)))


def meaning(H, m1, m2, msq, ab):
    """name of an argument -> its definition"""
    mg = v('MG')
    msusy = T.fdiv(T.fadd(T.fadd(m1, m2), mg), c(3))
    mf = v('Mb' if ab else 'Mt')
    return {
        'Al4p': T.fdiv(sq(v('g3')), T.fmul(c(16), sq(c(math.pi)))),
        'At': v('Ad' if ab else 'Au'), 'beta': T.fn('atan', T.fdiv(v('vu'), v('vd'))),
        'Dmglst1': T.fsub(mg, m1), 'Dmglst2': T.fsub(mg, m2), 'Dmst12': T.fsub(sq(m1), sq(m2)),
        'Dmsqst1': T.fsub(sq(msq), sq(m1)), 'Dmsqst2': T.fsub(sq(msq), sq(m2)),
        'lmMt': lm(mf), 'lmMst1': lm(m1), 'lmMst2': lm(m2), 'lmMsq': lm(msq), 'lmMgl': lm(mg), 'lmMsusy': lm(msusy),
        'Mgl': mg, 'Mt': mf, 'Mst1': m1, 'Mst2': m2, 'Msq': msq, 'Msusy': msusy, 'MuSUSY': v('mu'),
        's2t': v('s2b' if ab else 's2t')}


class World:
    def __init__(self):
        self.E = par.Entry(calc.TUS)
        self.sp = ratf.Space(calc.POS)
        self.mass = {}

    def masses(self, ab, h, s1, s2):
        k = (ab, h, s1, s2)
        if k not in self.mass:
            self.mass[k] = self.E.sym1('c_mdr', [ab, h, 0, s1, s2], 2, setup=calc.no_validate)
        return self.mass[k]

    def run(self, ints, fn='c_hier', n=8):
        r = calc.Recorder()
        out = self.E.sym(fn, ints, n, setup=r.install)
        if len(out) != 1:
            raise RuntimeError('%d outcomes' % len(out))
        return out[0][0], out[0][1], r.made


_nat = []


def nat():
    if not _nat:
        _nat.append(par.Native('calc', ['calc.cpp'] + build.ALL))
    return _nat[0]


def replay_points(seed, n=6):
    rng = random.Random(seed)
    pts = []
    for k in range(n):
        p = dict(par.POINT)
        for x in p:
            p[x] *= rng.uniform(0.8, 1.25)
        if k % 3 == 1:
            p['MG'] *= 0.6
        pts.append(p)
    return pts


def expected_native(H, p, ab, h, mdr, l):
    """reference: native hierarchy class at the documented arguments (Dmsqst2 as the calculator has it on the
    pinned tree, see known findings)"""
    tot = [0.0, 0.0, 0.0]
    N = nat()
    msq = N('c_msq', p, [], 1)[1][0]
    last = None
    for k in (1, 2, 3):
        if not l[k - 1]:
            continue
        s = {1: (0, 0), 2: (mdr, 0), 3: (mdr, mdr)}[k]
        m1, m2 = N('c_mdr', p, [ab, h, 0, s[0], s[1]], 2)[1]
        q = dict(p)
        d = meaning(H, v('_m1'), v('_m2'), v('_msq'), ab)
        names = list(d)
        q.update(_m1=m1, _m2=m2, _msq=msq)
        val = dict(zip(names, T.evalf([d[x] for x in names], q)))
        if (H, 'Dmsqst2') in KNOWN:
            val['Dmsqst2'] = msq - m2
        o = hier.native(H)(val, [1] * 12, mdr, int(k == 1), int(k == 2), int(k == 3))
        tot = [a + b for a, b in zip(tot, o[:3])]
        last = (o, val, m1, m2)
    pre = 3.0 / (2 * (math.pi * p['vu']) ** 2)
    return [pre * tot[0], pre * tot[2], pre * tot[2], pre * tot[1]], last


def replay(rep, name, what, H, ab, h, mdr, l):
    """search a concrete point where the calculator differs from the reference"""
    for p in replay_points(rep.seed):
        st, got = nat()('c_hier', p, [ab, h, mdr] + list(l), 8)
        exp, last = expected_native(H, p, ab, h, mdr, l)
        rep.replays += 1
        bad = st != 0 or any(not check.close(a, b, 1e-9, 1e-12) for a, b in zip(got[:4], exp))
        extra = None
        if tuple(l) == (0, 0, 1) and last:
            o, val, m1, m2 = last
            L = val['lmMst1']
            extra = [o[3] + L * (o[4] + L * (o[5] + L * o[6])), o[3], min(m1, m2), max(m1, m2)]
            bad = bad or any(not check.close(a, b, 1e-8, 1e-9) for a, b in zip(got[4:], extra))
        else:
            bad = bad or got[4:8] != [-7.0, -8.0, 5.0, 6.0]
        if bad:
            rep.violate(name, what, {'entry': 'c_hier', 'ints [alphab,hierarchy,mdr,l1,l2,l3]': [ab, h, mdr] + list(l),
                                     'parameters': p, 'status': st, 'calculator': got, 'reference': [exp, extra]})
            return
    rep.unknown(name, what + ' (not reproduced natively)')


def one(rep, h):
    H = calc.ID2H[h]
    W = World()
    msq = W.E.sym1('c_msq', [], 1, setup=calc.no_validate)[0]
    pre = T.fdiv(c(3), T.fmul(c(2), sq(T.fmul(c(math.pi), v('vu')))))
    for ab in (0, 1):
        for mdr in (0, 1):
            for l in ((1, 1, 1), (0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 0, 1), (0, 0, 0)):
                name = '%s alphab=%d mdr=%d loops=%s' % (H, ab, mdr, l)
                o, out, made = W.run([ab, h, mdr] + list(l))
                probs = []
                if o.kind != 'ret' or o.val != 0:
                    replay(rep, name, 'an exception leaves the calculation', H, ab, h, mdr, l)
                    continue
                sums = [T.ZERO] * 3
                want = [k for k in (1, 2, 3) if l[k - 1]]
                seen = []
                for j, r in enumerate(made):
                    a = r['args']
                    ls = [a.get(x) for x in ('oneLoopFlag', 'twoLoopFlag', 'threeLoopFlag')]
                    if r['H'] != H or sorted(map(str, ls)) != ['0', '0', '1']:
                        probs.append('constructs %s with loop flags %s' % (r['H'], ls))
                        continue
                    k = ls.index(1) + 1
                    seen.append(k)
                    s = {1: (0, 0), 2: (mdr, 0), 3: (mdr, mdr)}[k]
                    m1, m2 = W.masses(ab, h, *s)
                    ref = meaning(H, m1, m2, msq, ab)
                    if r['flags'] != [1] * 12:
                        probs.append('expansion flags %s' % r['flags'])
                    if a.get('mdrFlag') != mdr:
                        probs.append('mdrFlag %s' % a.get('mdrFlag'))
                    for x, t in a.items():
                        if x in ('mdrFlag', 'oneLoopFlag', 'twoLoopFlag', 'threeLoopFlag'):
                            continue
                        if (H, x) in KNOWN:
                            q = []
                            eq(rep, W, name + ' ' + x, t, ref[x], q)
                            if q:
                                lin = []
                                eq(rep, W, name + ' ' + x + ' (linear)', t, T.fsub(msq, m2), lin)
                                if lin:
                                    probs += q
                                else:
                                    rep.known_or_violation(name, 'Dmsqst2-linear', 'Dmsqst2 handed over as Msq - Mst2', {})
                            continue
                        eq(rep, W, name + ' ' + x, t, ref[x], probs)
                    for q, g in enumerate(('getS1', 'getS2', 'getS12')):
                        sums[q] = T.fadd(sums[q], v('obj%d.%s' % (j, g)))
                if sorted(seen) != want and not probs:
                    probs.append('evaluates loop orders %s instead of %s' % (seen, want))
                if not probs:
                    for q, (i, z) in enumerate(((0, 0), (1, 2), (2, 2), (3, 1))):
                        eq(rep, W, name + ' matrix element %d' % i, out[i], T.fmul(pre, sums[z]), probs)
                    if l == (0, 0, 1):
                        L = lm(W.masses(ab, h, mdr, mdr)[0])
                        d = T.ZERO
                        for k in (3, 2, 1, 0):
                            d = T.fadd(T.fmul(d, L), v('obj0.calc_coef_at_as2_no_sm_logs_log%d' % k))
                        eq(rep, W, name + ' delta lambda', out[4], d, probs)
                        eq(rep, W, name + ' non-logarithmic delta lambda', out[5],
                           v('obj0.calc_coef_at_as2_no_sm_logs_log0'), probs)
                        m = W.masses(ab, h, mdr, mdr)
                        eq_sorted(rep, W, name + ' MDR masses', out[6:8], m, probs)
                    else:
                        eq(rep, W, name + ' delta lambda untouched', out[4], c(-7.0), probs)
                        eq(rep, W, name + ' delta lambda untouched', out[5], c(-8.0), probs)
                        eq(rep, W, name + ' MDR masses untouched', out[6], c(5.0), probs)
                        eq(rep, W, name + ' MDR masses untouched', out[7], c(6.0), probs)
                rep.witness(name, len(made) == len(want) or probs)
                if probs:
                    replay(rep, name, '; '.join(probs[:4]), H, ab, h, mdr, l)
    W.E.note(rep)


def eq(rep, W, name, a, b, probs):
    if a is b:
        rep.ok(name)
        return
    ratf.equal(rep, name, a, b, space=W.sp, on_diff=lambda t: probs.append('%s differs by %s' % (name.split(' ', 3)[-1], t)))


def eq_sorted(rep, W, name, got, ref, probs):
    """got == sort(ref), case by case on the comparisons in got (a case that says ref[i] <= ref[j] wants that order)"""
    for cs, (a, b, r0, r1) in smt.cases(list(got) + list(ref)):
        q = []
        eq(rep, W, name + ' a', a, r0, q)
        eq(rep, W, name + ' b', b, r1, q)
        kept = not q
        q = []
        eq(rep, W, name + ' a', a, r1, q)
        eq(rep, W, name + ' b', b, r0, q)
        swapped = not q
        # the path must be compatible with the order it returns
        S = smt.Smt()
        z0, z1 = S.many([r0, r1])
        path = []
        for cnd, val in cs:
            z = S(cnd)
            path.append(z if val else smt.z3.Not(z))
        want = z0 <= z1 if kept else z1 <= z0
        ok = (kept or swapped) and smt.prove(rep, want, path, S)[0]
        if ok:
            rep.ok(name)
        else:
            probs.append('%s not sorted' % name)


def bad_ids(rep, _):
    W = World()
    for h in (-1, -2, 14, 15, 99):
        for ab in (0, 1):
            for l in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
                name = 'hierarchy id %d loops=%s' % (h, l)
                o, out, made = W.run([ab, h, 0] + list(l))
                if o.kind == 'ret' and o.val == 1 and not made:
                    rep.ok(name)
                else:
                    st, got = nat()('c_hier', par.POINT, [ab, h, 0] + list(l), 8)
                    if st != 1:
                        rep.violate(name, 'no exception for an unknown hierarchy', {'ints': [ab, h, 0] + list(l), 'result': got})
                    else:
                        rep.unknown(name, 'symbolic run does not throw, the native one does')
    W.E.note(rep)


def mean_msq(rep):
    """Msq^20 = product of the ten squark masses squared (first two generations without, sbottom with F and D terms)"""
    W = World()
    got = W.E.sym1('c_msq', [], 1, setup=calc.no_validate)[0]
    cb = T.fdiv(T.fsub(sq(v('vd')), sq(v('vu'))), T.fadd(sq(v('vd')), sq(v('vu'))))
    sw = T.fsub(c(1), sq(T.fdiv(v('MW'), v('MZ'))))
    d = T.fmul(sq(v('MZ')), cb)
    bl = T.fadd(T.fadd(v('mq22'), sq(v('Mb'))), T.fmul(d, T.fsub(T.fdiv(sw, c(3)), c(0.5))))
    br = T.fsub(T.fadd(v('md22'), sq(v('Mb'))), T.fmul(d, T.fdiv(sw, c(3))))
    x = T.fmul(bl, br)
    for n in 'mq20 mu20 mq20 md20 mq21 mu21 mq21 md21'.split():
        x = T.fmul(x, v(n))
    ref = T.fn('sqrt', T.fn('fabs', T.fn('pow', x, c(0.1))))
    probs = []
    eq(rep, W, 'mean squark mass', got, ref, probs)
    for p in replay_points(rep.seed):
        a, b = nat()('c_msq', p, [], 1)[1][0], T.evalf([ref], p)[0]
        rep.validated += 1
        if not check.close(a, b, 1e-10):
            rep.violate('mean squark mass', 'not the geometric mean of the ten squark masses',
                        {'parameters': p, 'calculator': a, 'reference': b, 'residual': probs})
            return
    if probs:
        rep.unknown('mean squark mass', probs[0])
    W.E.note(rep)


def validate(rep, _):
    """translator check: full symbolic evaluation against the native code"""
    E = par.Entry(calc.TUS + build.HTU)
    for p in replay_points(rep.seed, 2):
        for ints in ([0, 0, 0, 0, 1, 0], [1, 6, 1, 1, 1, 0]):
            a = T.evalf(E.sym1('c_hier', ints, 8, setup=calc.no_validate), p)
            b = nat()('c_hier', p, ints, 8)[1]
            if not all(check.close(x, y, 1e-9, 1e-9) for x, y in zip(a, b)):
                rep.unknown('translation', 'engine and native code differ: %r %r' % (a, b))
            rep.validated += 1
    E.note(rep)


def work(rep, item):
    if item == 'bad':
        bad_ids(rep, None)
    elif item == 'msq':
        mean_msq(rep)
    elif item == 'val':
        validate(rep, None)
    else:
        one(rep, item)


def part(rep):
    rep.bounds.append('all 14 hierarchies, top and bottom, DR and MDR masses, all 8 subsets of loop orders; all parameters '
                      'symbolic reals (masses, scale, vevs, g3 positive); hierarchy classes abstracted to their constructor '
                      'arguments (their formulas are the subject of the decoupling and sibling properties)')
    rep.assume.append('real arithmetic; equalities to 1e-10 of the largest coefficient')
    nat()
    hier.native('H3')
    check.parallel(rep, work, list(range(14)) + ['bad', 'val', 'msq'])


if __name__ == '__main__':
    check.main('P08', 'hierarchies are evaluated at the arguments they are defined for', [('dispatch', part)])
