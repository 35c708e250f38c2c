"""All contributions have their mass dimension: rescaling every mass (and the renormalization scale) rescales the result."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Fr
from symx import build, calc, check, hier, par, ratf, scaling, smt, terms as T, thr, twin
from symx.execu import Ptr

DEG = {n: Fr(0 if re.match(r'g[123]|Y[ude]$|s2|theta', n) else 2 if re.match(r'm[qudle]2', n) else 1) for n in par.NAMES}
EFTDEG = dict(DEG, mQ3=Fr(1), mU3=Fr(1), Xt=Fr(1), msq2=Fr(2))
HDEG = {n: Fr(2 if re.match('Dm(st|sq)', n) else 1 if re.match('Dmgl|M(?!usy)|At|Msusy', n) else 0) for n in hier.NAMES}
TLF = {'delta_xyz': 4}          # the other loop functions are functions of ratios


def vd(d):
    return (('1', Fr(d)),) if d else scaling.ZERO


def ratio_fn(sc, n, d):
    """a function of dimensionless arguments"""
    for x in d:
        sc.flat(x, n)
    return scaling.ZERO


def alike(out):
    """a function of arguments of one common degree; out: degree of the result"""
    def f(sc, n, d):
        r = scaling.ANY
        for x in d:
            r = sc.same(r, x, n)
        return scaling.mul(r, Fr(out)) if r is not scaling.ANY else r
    return f


def b0xx(sc, n, d):             # two-point function of squared masses
    alike(0)(sc, n, d)
    return scaling.ZERO


RULES = {'b0xx': b0xx, 'tlf_delta_xyz': alike(2), 'tlf_phi_xyz': alike(0)}


class Rules(dict):
    def __contains__(self, k):
        return dict.__contains__(self, k) or str(k).startswith('tlf_')

    def __getitem__(self, k):
        return dict.get(self, k, ratio_fn)


RULES = Rules(RULES)


def conds(pc):
    return [c for c in pc if isinstance(c, T.Node)]


def away(roots, tiny=1e-8):
    """comparisons with tiny constants decided for values beyond them"""
    dec = {}
    for n in T.topo([x for vals, pc in roots for x in list(vals) + conds(pc) if isinstance(x, T.Node)]):
        if n.op == 'fcmp':
            for u, up in ((n.args[1], True), (n.args[2], False)):
                if T.is_const(u) and 0 < T.cval(u) <= tiny and n.args[0][1:] in ('lt', 'le', 'gt', 'ge'):
                    dec[n.id] = up == (n.args[0][1:] in ('lt', 'le'))       # u < x holds
    out = []
    for vals, pc in roots:
        vals = [v if isinstance(v, T.Node) else T.fconst(v or 0) for v in vals]
        r = smt.replace(vals + conds(pc), dec)
        pc = r[len(vals):]
        if not any(c is False for c in pc):
            out.append((r[:len(vals)], pc))
    return out


def settle(rep, name, sc, roots, want, native, point, deg, labels=None, nwant=None, key=None):
    """roots: [(values, path condition)]; native(point) -> values"""
    bad = []
    roots = away(roots)
    if not roots:
        rep.unknown(name, 'no path')
        return None
    for vals, pc in roots:
        sc.run(conds(pc))
        bad += sc.decide(rep, vals, want)
    if not bad:
        rep.ok(name)
        return True
    import random
    rng = random.Random(rep.seed)
    worst = None
    hits = 0
    want = nwant or want
    for k in range(12):
        p = point(rng, k)
        q = {n: v * 4.0 ** float(deg.get(n, 0)) for n, v in p.items()}
        a, b = native(p), native(q)
        rep.replays += 1
        if a is None or b is None:
            continue
        for i, (x, y, w) in enumerate(zip(a, b, want)):
            if x != x or y != y or not check.close(x * 4.0 ** w, y, 1e-6, 1e-300):
                if x == x or y == y:
                    hits += 1
                    worst = worst or (i, x, y, w, p)
                    break
    if hits >= 3:
        i, x, y, w, p = worst
        (rep.violate if key is None else lambda n, *a: rep.known_or_violation(n, key, *a))(name, '%s: all masses times 4 change the value %.12g to %.12g, not by 4^%s (%s)' % (
            labels[i] if labels else 'value %d' % i, x, y, w, '; '.join(bad)[:300]), {'point': p, 'values': [x, y], 'residual': bad[:5]})
        return False
    rep.unknown(name, '%s; the values scale at the points tried' % '; '.join(bad)[:500])
    return None


# ------------------------------------------------------------------ hierarchies
HITEMS = [(H, mdr, l) for H in hier.HIER for mdr in (0, 1) for l in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]


def hpoint(rng, k):
    p = dict(Al4p=.01, beta=1.2, Dmglst1=100., Dmglst2=130., Dmst12=2e5, Dmsqst1=3e5, Dmsqst2=2.5e5, lmMt=4.1, lmMst1=.3, lmMst2=-.2,
             lmMsq=.5, lmMsusy=.1, lmMgl=.7, Mgl=1500., Mt=170., Mst1=1200., Mst2=1400., Msq=1700., MuSUSY=800., s2t=.4, At=1100., Msusy=1300.)
    return {n: v * rng.uniform(0.7, 1.3) for n, v in p.items()}


def hierarchy(rep, item):
    H, mdr, l = item
    h = hier.Hier(H)
    o = h.run([1] * 12, mdr, *l)
    rep.steps += h.steps
    rep.funcs.update(h.funcs)
    f = hier.native(H)
    settle(rep, '%s%s, %s loop' % (H, ' (MDR)' if mdr else '', l.index(1) + 1), scaling.Scaling(HDEG), [(o, [])], [Fr(4)] * 3 + [Fr(0)] * 4,
           lambda p: f(p, [1] * 12, mdr, *l), hpoint, HDEG, ['S1', 'S2', 'S12', 'calc_coef log^0', 'log^1', 'log^2', 'log^3'])


def hierarchies(rep):
    rep.bounds.append('14 hierarchies x 3 loops x DR\'/MDR, all expansion flags on')
    build.modules('hier.cpp', 'hierarchies/H3.cpp')
    hier.native('H3')
    check.parallel(rep, hierarchy, HITEMS)


# ------------------------------------------------------------------ calculator
CDEG = dict(DEG)


def csetup(ex):
    calc.no_validate(ex)

    def dsz(ex, st, a, i):
        name = re.search(r'delta_mh2_2loop_(\w+)', ex.dem(i[0])).group(1)
        for k in range(4):
            ex.store(st, i[2], ('f', 64), T.fn('dsz_%s' % name, *[x for x in a[1:] if isinstance(x, T.Node) and x.sort == 'f']), Ptr(a[0].obj, a[0].off + 8 * k))
    ex.restub(r'^himalaya::mh2l::delta_mh2_2loop_', dsz)


def dsz(sc, n, d):
    """(mt^2, mg, mst1^2, mst2^2, st, ct, scale^2, mu, tanb, v^2, g3): all masses in one unit"""
    for x, w in zip(d, (2, 1, 2, 2, 0, 0, 2, 1, 0, 2, 0)):
        sc.same(x, vd(w), n)
    return vd(2)


CRULES = Rules(RULES, dsz_at_as=dsz)
# entry, ints after (sector, hierarchy, scheme), degrees, extra inputs
CITEMS = [('getMt41L', 'c_mt41', (1, 0), [2] * 4), ('getMt41L', 'c_mt41', (1, 1), [2] * 4), ('getMt42L', 'c_mt42', (1, 0), [2] * 4), ('getMt42L', 'c_mt42', (1, 1), [2] * 4),
          ('getMt42L', 'c_mt42', (0, 0), [2] * 4), ('MDR masses', 'c_mdr', (1, 0), [1, 1]), ('MDR masses', 'c_mdr', (0, 1), [1, 1]), ('MDR masses', 'c_mdr', (1, 1), [1, 1]),
          ('calcDRbarToMDRbarShift', 'c_mdrshift', (1, 1), [2] * 4), ('shiftH3mToDRbarPrime', 'c_h3m', (), [2] * 4),
          ('shiftH3mToDRbarPrimeMh2', 'c_h3mmh2', (0,), [0]), ('shiftH3mToDRbarPrimeMh2', 'c_h3mmh2', (1,), [0]), ('calcMeanMsq', 'c_msq', (), [1]),
          ('isHierarchySuitable', 'c_suit', (), [0])]


def cpoint(rng, k):
    p = dict(par.POINT)
    return {n: v * rng.uniform(0.8, 1.25) for n, v in p.items()}


_cn = []


def cnat():
    if not _cn:
        _cn.append(par.Native('calc', ['calc.cpp'] + build.ALL))
    return _cn[0]


CTUS = ['calc.cpp', 'HierarchyCalculator.cpp', 'HierarchyObject.cpp', 'Himalaya_interface.cpp']


def calculator(rep, item):
    what, fn, tail, want = item
    for ab in (0, 1):
        for mdr in (0, 1):
            for h in (range(14) if fn == 'c_suit' else (0,)):
                e = par.Entry(CTUS)
                ints = [ab, h, mdr] + list(tail)
                deg, rules = dict(CDEG), CRULES
                outs = e.sym(fn, ints, len(want), setup=csetup)
                e.note(rep)
                sc = scaling.Scaling(deg, rules, positive=calc.POS)
                roots = [(v, o.st.pc) for o, v in outs if o.kind == 'ret']

                def native(p):
                    r, v = cnat()(fn, p, ints, len(want))
                    return None if r else v
                settle(rep, '%s%s (%s sector%s)' % (what, tail, ('top', 'bottom')[ab], ', MDR' if mdr else ''), sc, roots, [Fr(w) for w in want], native, cpoint, deg)


def dispatch(rep, item):
    """the arguments of the hierarchy classes, and the matrix made of their results"""
    ab, h, mdr = item
    rec = calc.Recorder()
    e = par.Entry(CTUS)
    outs = e.sym('c_hier', [ab, h, mdr, 0, 0, 1], 8, setup=lambda ex: rec.install(ex))
    e.note(rep)
    deg = dict(CDEG)
    roots, want = [], []
    for o, v in outs:
        roots.append((v, o.st.pc))
    for n in T.topo([x for v, _ in roots for x in v if isinstance(x, T.Node)]):
        if n.op == 'v' and n.args[0] not in deg:
            deg[n.args[0]] = Fr(4 if '.getS' in n.args[0] else 0)
    sc = scaling.Scaling(deg, CRULES, positive=calc.POS)
    want = [Fr(2)] * 4 + [Fr(0)] * 2 + [Fr(1)] * 2

    def native(p):
        r, v = cnat()('c_hier', p, [ab, h, mdr, 0, 0, 1], 8)
        return None if r else v
    name = 'calculateHierarchy %s (%s sector%s)' % (calc.ID2H[h], ('top', 'bottom')[ab], ', MDR' if mdr else '')
    settle(rep, name, sc, roots, want, native, cpoint, deg, ['M11', 'M12', 'M21', 'M22', 'delta lambda H3m', 'delta lambda non-log', 'MDR mass 1', 'MDR mass 2'])
    for m in rec.made:
        for n, t in m['args'].items():
            if isinstance(t, T.Node) and t.sort == 'f' and n in HDEG:
                settle(rep, name + ': ' + n, scaling.Scaling(deg, CRULES, positive=calc.POS), [([t], [])], [HDEG[n]], native, cpoint, deg,
                       ['M11', 'M12', 'M21', 'M22', 'delta lambda H3m', 'delta lambda non-log', 'MDR mass 1', 'MDR mass 2'], want, '%s-%s' % (m['H'], n))


def calculators(rep):
    rep.bounds.append('calculator functions: 2 sectors x 2 schemes; calculateHierarchy: 14 hierarchies x 2 x 2 (three loops)')
    cnat()
    build.modules(*CTUS)
    check.parallel(rep, calculator, CITEMS)
    check.parallel(rep, dispatch, [(ab, h, mdr) for ab in (0, 1) for h in range(14) for mdr in (0, 1)])


# ------------------------------------------------------------------ EFT
def orders():
    s = open(build.SRC + 'mh2_eft/EFTFlags.hpp').read()
    m = re.search(r'enum class ThresholdCouplingOrders.*?\{(.*?)\}', s, re.S).group(1)
    m = re.sub(r'//.*|/\*.*?\*/', '', m)
    return [x.split('=')[0].strip() for x in m.split(',') if x.strip()]


def tsetup(ex):
    thr.setup(ex)
    ex.restub(r'^himalaya::mh2_fo::b0xx\(', lambda ex, st, a, i: T.fn('b0xx', *a))
    ex.restub(r'^himalaya::mh2_eft::threshold_loop_functions::',
              lambda ex, st, a, i: T.fn('tlf_' + ex.dem(i[0]).split('::')[-1].split('(')[0], *a))
    ex.restub(r'::f[123]HD\(', lambda ex, st, a, i: T.fn('tlf_HD', *a))


def tpoint(rng, k):
    return thr.point(rng)


def tnative(fn, ints, n):
    def f(p):
        thr.fix(p)
        r, v = thr.nat()(fn, p, ints, n, extra=[p['msq2']])
        return None if r else v
    return f


def threshold(rep, item):
    k, name, lim, scheme, omit = item
    t = twin.Twin(thr.TUS, [], native=thr.nat, setup=tsetup)
    ints = [k, scheme, omit, lim, -1]
    outs = t.E.sym('c_thr', ints, 1, env=thr.env(), setup=t.setup, extra=[T.var('msq2')], names=par.NAMES)
    t.E.note(rep)
    settle(rep, '%s %s %s%s' % (name, thr.LIM[lim], ('H3m', 'DR\'', 'MSbar')[scheme] if scheme < 3 else scheme, '' if omit else ', logarithms omitted'),
           scaling.Scaling(EFTDEG, RULES, positive=thr.POS), [(v, o.st.pc) for o, v in outs if o.kind == 'ret'], [Fr(0)], tnative('c_thr', ints, 1), tpoint, EFTDEG,
           key=None if omit else name + '-omitted')


def eft(rep):
    thr.nat()
    build.modules(*thr.TUS)
    names = orders()
    rep.bounds.append('%d threshold coefficients x mass limits x DR\', with and without logarithms' % len(names))
    items = []
    for k, n in enumerate(names):
        for lim in range(6 if n in thr.ORD else 1):
            for omit in (0, 1):
                items.append((k, n, lim, thr.DR, omit))
    check.parallel(rep, threshold, items)


# composition of the EFT contributions from threshold corrections (numbers)
def esetup(ex):
    tsetup(ex)
    ex.restub(r'^himalaya::mh2_eft::ThresholdCalculator::ThresholdCalculator\(', lambda ex, st, a, i: None)
    ex.restub(r'^himalaya::mh2_eft::ThresholdCalculator::getThresholdCorrection\(', lambda ex, st, a, i: T.fn('tlf_thr%d_%d' % (a[1], a[2])))


EITEMS = [('default orders, omit flags %s', 'c_eft', f + (-1, 0), 4) for f in ((1, 1, 1), (0, 0, 0))] + [('all orders, omit flags %s', 'c_sum', f, 2) for f in ((1, 1), (0, 0))] + \
         [('%s loop degenerate masses', 'c_deg', (), 2)]


def contribution(rep, item):
    what, fn, ints, n = item
    t = twin.Twin(thr.TUS, [], native=thr.nat, setup=esetup if fn != 'c_deg' else tsetup)
    outs = t.E.sym(fn, list(ints), n, env=thr.env(), setup=t.setup, extra=[T.var('msq2')], names=par.NAMES)
    t.E.note(rep)
    settle(rep, 'EFT contribution, ' + what % (ints[:3] or 'three',), scaling.Scaling(EFTDEG, RULES, positive=thr.POS), [(v, o.st.pc) for o, v in outs if o.kind == 'ret'],
           [Fr(2)] * n, tnative(fn, ints, n), tpoint, EFTDEG, ['%d-loop' % (k + (fn != 'c_eft')) for k in range(4)])


def eftcalc(rep):
    rep.bounds.append('EFT contributions at 0-3 loops for arbitrary values of the threshold corrections; default orders and all orders, logarithms kept or omitted')
    thr.nat()
    build.modules(*thr.TUS)
    check.parallel(rep, contribution, EITEMS)


# ------------------------------------------------------------------ loop functions
LOOP = [('phi_xyz', 0), ('delta_xyz', 4), ('a0', 2), ('b0xx', 0), ('b0', 0), ('d1_b0', -2)]
LTUS = ['dims.cpp', 'mh2_eft/ThresholdLoopFunctions.cpp', 'mh2_fo/PV.cpp', 'misc/Li2.cpp']
LN = ['x', 'y', 'z', 'q']


def loops(rep):
    nat = par.Native('dims', ['dims.cpp'] + build.ALL)
    rep.bounds.append('loop functions phi_xyz, delta_xyz, a0, b0xx, b0, d1_b0: all positive arguments')
    for k, (n, d) in enumerate(LOOP):
        e = par.Entry(LTUS)

        def setup(ex):
            ex.feasible = smt.Feasible()
            ex.restub(r'^himalaya::dilog\(double\)', lambda ex, st, a, i: T.fn('dilog', a[0]))
            ex.restub(r'::fB\(', lambda ex, st, a, i: T.fn('tlf_fB', *[ex.load(st, i[2], ('f', 64), Ptr(a[0].obj, a[0].off + 8 * k)) for k in (0, 1)]))
        outs = e.sym('c_loop', [k], 1, setup=setup, names=LN)
        e.note(rep)
        deg = {x: Fr(2) for x in LN}
        settle(rep, n, scaling.Scaling(deg, RULES, positive=LN), [(v, o.st.pc) for o, v in outs if o.kind == 'ret'], [Fr(d)],
               lambda p: nat('c_loop', p, [k], 1, names=LN)[1], lambda rng, k: {x: 10 ** rng.uniform(3, 6) for x in LN}, deg)


if __name__ == '__main__':
    check.main('P03', 'mass dimensions', [('hierarchies', hierarchies), ('calculator', calculators), ('eft', eft), ('contributions', eftcalc), ('loop functions', loops)])
