"""Expansion flags and loop flags of the hierarchy classes: what each of them switches, for all combinations at once."""
import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from symx import check, hier, poly, ring, terms as T

OUT = ['S1', 'S2', 'S12', 'coef0', 'coef1', 'coef2', 'coef3']
X = ['x_' + f for f in hier.FLAGS]
L = ['l1', 'l2', 'l3']
N = ('Al4p sb cb Mgl Mt Mst1 Mst2 Msq Msusy MuSUSY s2t At lmMt Dmglst1 Dmglst2 Dmst12 Dmsqst1 Dmsqst2 lmMst1 lmMst2 '
     'lmMsq lmMgl lmMsusy mdr').split() + L + X + ['g%d' % i for i in range(9)]
IX = {n: i for i, n in enumerate(N)}
# family -> flag -> (parameter, {loop: powers dropped})
GE = lambda n: (lambda e: e >= n)
TABLE = {
    'H3': {'Dmst12': ('Dmst12', {1: GE(3), 2: GE(3), 3: GE(3)}), 'Dmglst1': ('Dmglst1', {2: GE(3), 3: GE(3)}),
           'Dmsqst1': ('Dmsqst1', {3: GE(2)})},
    'H4': {'At': ('At', {3: GE(2)}), 'lmMsusy': ('lmMsusy', {3: GE(3)}), 'Msq': ('Msq', {3: GE(2)}),
           'Msusy': ('Msusy', {3: GE(8)})},
    'H5': {'Dmglst1': ('Dmglst1', {2: GE(2), 3: GE(2)}), 'Msq': ('Msq', {3: GE(2)})},
    'H6': {'Mst': ('Mst1', {1: GE(6), 2: GE(6)}), 'Dmglst2': ('Dmglst2', {2: GE(2), 3: GE(2)}), 'Msq': ('Msq', {3: GE(2)})},
    'H6b': {'Mst': ('Mst1', {1: GE(6), 2: GE(6)}), 'Dmglst2': ('Dmglst2', {2: GE(2), 3: GE(2)}),
            'Dmsqst2': ('Dmsqst2', {3: GE(2)})},
    'H9': {'Dmst12': ('Dmst12', {1: GE(3), 2: GE(3), 3: GE(3)}), 'Dmsqst1': ('Dmsqst1', {3: GE(2)}),
           'Mgl': ('Mgl', {2: lambda e: e == 4, 3: GE(4)}), 'threeLoop': ('Mgl', {2: GE(5)})},
}


def intexpr(x):
    if type(x) is not T.Node:
        return T.fconst(T._s(int(x), 32))
    if x.op in ('v', 'iv'):
        return T.var(x.args[0])
    if x.op == 'iop':
        k, w, p, q = x.args
        if k == 'shl' and type(q) is not T.Node:
            return T.fmul(intexpr(p), T.fconst(2 ** int(q)))
        p, q = intexpr(p), intexpr(q)
        if k in ('mul', 'add', 'sub'):
            return {'mul': T.fmul, 'add': T.fadd, 'sub': T.fsub}[k](p, q)
    raise ring.RingError('integer expression ' + T.show(x, 3))


G = {}


def reals(nodes):
    """integer flags inside the expressions become real variables"""
    memo = {}
    for n in T.topo(nodes):
        if n.sort != 'f':
            r = n
        elif n.op in ('sitofp', 'uitofp'):
            r = intexpr(n.args[1])
        elif n.op == 'fn' and n.args[0] == 'log':     # coefficients only: opaque
            key = T.show(memo[n.args[1].id], 20)
            G.setdefault(key, 'g%d' % len(G))
            r = T.var(G[key])
        else:
            r = T.rebuild(n, [memo[x.id] if type(x) is T.Node else x for x in n.args])
        memo[n.id] = r
    return [memo[n.id] for n in nodes]


def idem(p):
    """flags are 0 or 1: x^k = x"""
    sw = [IX[n] for n in X + L + ['mdr']]
    out = {}
    for k, c in p.items():
        k = list(k)
        for i in sw:
            if k[i] > 1:
                k[i] = 1
        k = tuple(k)
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


def physical(p):
    """physical monomial (with mdr) -> value at all flags on"""
    sw = [IX[n] for n in X + L]
    out = {}
    for k, c in p.items():
        k = list(k)
        for i in sw:
            k[i] = 0
        k = tuple(k)
        out[k] = out.get(k, 0) + c
    return out


def expected(fam, k):
    """flag product the property assigns to the physical monomial k"""
    k = list(k)
    loop = k[IX['Al4p']] + 1
    if loop not in (1, 2, 3):
        return None
    k[IX['l%d' % loop]] = 1
    for f, (par, d) in TABLE[fam].items():
        if loop in d and d[loop](k[IX[par]]):
            k[IX['x_' + f]] = 1
    return tuple(k)


def ref(fam, p):
    out, stray = {}, {}
    for k, c in physical(p).items():
        e = expected(fam, k)
        if e is None:
            stray[k] = c
        else:
            out[e] = c
    return out, stray


def evalp(p, v):
    s = t = Fraction(0)
    for k, c in p.items():
        m = Fraction(c)
        for n, e in zip(N, k):
            if e:
                m *= Fraction(v[n]) ** e
                if not m:
                    break
        s += m
        t += abs(m)
    return float(s), float(t)


def one(rep, H):
    fam = hier.MOTHER[H]
    h = hier.Hier(H)
    raw = h.run([T.ivar(x) for x in X], T.ivar('mdr'), T.ivar('l1'), T.ivar('l2'), T.ivar('l3'))
    rep.funcs, rep.steps = h.funcs, h.steps
    nat = hier.native(H)
    rng = random.Random(rep.seed)
    for _ in range(3):
        v = {n: rng.uniform(0.5, 1.5) for n in hier.NAMES}
        fl = [rng.randint(0, 1) for _ in X]
        sw = [rng.randint(0, 1) for _ in range(4)]
        w = dict(v)
        w.update(zip(X + ['mdr'] + L, fl + sw))
        a, b = T.evalf(raw, w), nat(v, fl, *sw)
        if not all(check.close(x, y, 1e-9, 1e-9) for x, y in zip(a, b)):
            rep.unknown(H, 'translation disagrees with the native code: %r %r' % (a, b))
            return
        rep.validated += 1
    nodes = hier.trig(reals(raw))
    R = ring.Ring(N)
    P = [idem(dict(p)) for p in R.ev(nodes, {n: n for n in N})]
    rep.witness(H, all(len(p) > 0 for p in P[:3]))
    one_ = (1.0, 1.0)
    box = []
    for n in N:
        box.append((0.0, 1.0) if n in X + L + ['mdr'] else (0.8, 1.25) if n[0] == 'M' and n != 'MuSUSY' or n in ('sb', 'cb') else
                   (-0.5, 0.5) if n[0] == 'D' else one_ if n == 'Al4p' else (-1.2, 1.2))
    for o, p in zip(OUT, P):
        name = '%s %s' % (H, o)
        if o[0] == 'c':
            stray = {}
            exp_ = {k: c for k, c in physical(p).items() if not k[IX['mdr']]}
            diff = hier.psub(p, exp_)
        else:
            exp_, stray = ref(fam, p)
            diff = hier.psub(p, exp_)
        big = float(max([abs(c) for c in exp_.values()] or [1]))
        tol = big * 1e-10
        groups = {}
        cl = classes(fam, diff, o)
        for k, c in diff.items():
            groups.setdefault(cl[strip(k)], {})[k] = c
        if stray:
            groups['order'] = dict(stray)
        for key, blk in sorted(groups.items()) or [('', {})]:
            held = poly.decide(rep, blk, box, tol)
            if held:
                rep.ok('%s %s' % (name, key))
                continue
            if held is None:
                rep.unknown(name, 'solver gave up')
                continue
            replay(rep, H, fam, o, name, key, blk, exp_, nat, rng)


def strip(k):
    k = list(k)
    for n in X + L:
        k[IX[n]] = 0
    return tuple(k)


def classes(fam, diff, o):
    """physical monomial -> flag (and power of its parameter) behind the difference"""
    by = {}
    for k in diff:
        by.setdefault(strip(k), []).append(k)
    out = {}
    for ph, ks in by.items():
        e = expected(fam, ph) if o[0] != 'c' else ph
        if e is None:
            out[ph] = 'order'
            continue
        d = sorted({n for k in ks for n in X + L if e[IX[n]] != k[IX[n]]})
        out[ph] = '+'.join('%s%s' % (n[2:] if n in X else n, '-%s^%d' % (TABLE[fam][n[2:]][0], ph[IX[TABLE[fam][n[2:]][0]]])
                                     if n[2:] in TABLE[fam] else '') for n in d) or 'value'
    return out


def replay(rep, H, fam, o, name, key, blk, exp_, nat, rng):
    i = OUT.index(o)
    combos = []
    for base in (1, 0):
        for f in [None] + X:
            x = {n: base for n in X}
            if f:
                x[f] = 1 - base
            for l in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (0, 0, 0)):
                for m in (0, 1):
                    y = dict(x)
                    y.update(zip(L, l))
                    y['mdr'] = m
                    combos.append(y)
    best = None
    for y in combos:
        v = {n: Fraction(rng.randint(8, 12), 10) for n in N}
        v['sb'], v['cb'] = Fraction(4, 5), Fraction(3, 5)
        for n in N:
            if n[0] == 'D':
                v[n] = Fraction(rng.randint(2, 5), 10)
        v['Al4p'] = Fraction(1)
        v.update(y)
        d, _ = evalp(blk, v)
        if best is None or abs(d) > abs(best[0]):
            best = (d, v, y)
    d, v, y = best
    r, sc = evalp(exp_, v)
    nv = {n: float(v[n]) for n in N if n in hier.NAMES}
    nv['beta'] = math.atan2(4, 3)
    fl = [y[n] for n in X]
    out = nat(nv, fl, y['mdr'], y['l1'], y['l2'], y['l3'])
    rep.replays += 1
    off = [n[2:] for n in X if not y[n]]
    what = '%s %s with flags off: %s, loops %s, mdr %d: code gives %.12g, dropping only the top powers of the own parameter ' \
           'of each flag gives %.12g (%s)' % (H, o, off, [y[n] for n in L], y['mdr'], out[i], r, key)
    if abs(out[i] - r) > 1e-10 * max(sc, 1e-30):
        rep.known_or_violation(name + ' ' + key, '%s-%s-%s' % (H, o, key), what,
                               {'hierarchy': H, 'inputs': nv, 'flags': dict(zip(hier.FLAGS, fl)), 'switches': y, 'outputs': out})
    else:
        rep.unknown(name, 'difference not reproduced natively: ' + what)


def part(rep):
    rep.bounds.append('all 2^12 flag combinations x 8 loop subsets x 2 schemes symbolic at once; logarithms independent variables; '
                      'differing monomials bounded within masses in [0.8,1.25], |D*|<=0.5, other parameters |.|<=1.2; '
                      'coefficients to 1e-10 of the largest')
    rep.assume.append('real arithmetic; flags take the values 0 and 1; decimal literals read as the nearest simple rational')
    hier.native('H3')
    check.parallel(rep, one, hier.HIER)


if __name__ == '__main__':
    check.main('P04', 'expansion and loop flags switch exactly their own terms', [('depth', part)])
