"""Deciding polynomial residuals with the solver."""
import itertools
import math
import random
import z3
from fractions import Fraction


def bounds(mono, box):
    lo, hi = 1.0, 1.0
    for (l, h), e in zip(box, mono):
        if e == 0:
            continue
        c = [l ** e, h ** e] if not (l <= 0 <= h) else ([0.0] if e > 0 else [math.inf]) + [l ** e if l or e > 0 else 0, h ** e if h or e > 0 else 0]
        a, b = min(c), max(c)
        p = [lo * a, lo * b, hi * a, hi * b]
        lo, hi = min(p), max(p)
    return lo, hi


def decide(report, poly, box, tol, what=''):
    """exists a point of the box with |poly| > tol?   Every monomial is a real variable within
    its interval over the box (linear abstraction: unsat is sound)."""
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 60000)
    terms = []
    # coefficients that cannot matter are summed into the tolerance exactly
    small = Fraction(0)
    n = 0
    for k, c in poly.items():
        lo, hi = bounds(k, box)
        m = max(abs(lo), abs(hi))
        if abs(c) * Fraction(m) < Fraction(tol) / (10 * max(1, len(poly))):
            small += abs(c) * Fraction(m)
            continue
        v = z3.Real('m%d' % n)
        n += 1
        s.add(v >= z3.RealVal(Fraction(lo)), v <= z3.RealVal(Fraction(hi)))
        terms.append(z3.RealVal(c) * v)
    e = z3.Sum(terms) if terms else z3.RealVal(0)
    t = z3.RealVal(Fraction(tol) - small)
    s.add(z3.Or(e > t, e < -t))
    r = report.query(s)
    return r == z3.unsat if r != z3.unknown else None


def value(poly, pt):
    t = 0.0
    for k, c in poly.items():
        m = float(c)
        for x, e in zip(pt, k):
            if e:
                m *= x ** e
        t += m
    return t


def witness(report, poly, box, seed=1, n=200):
    """a concrete point where the residual is large: the solver is asked (NRA on the dominant
    terms); candidates from the box are used when it does not answer"""
    best = None
    rng = random.Random(seed)
    cand = []
    top = sorted(poly.items(), key=lambda t: -abs(t[1]))[:3]
    try:
        s = z3.Solver()
        s.set('timeout', 5000)
        used = [i for i in range(len(box)) if any(k[i] for k, _ in top)]
        V = {i: z3.Real('x%d' % i) for i in used}
        for i in used:
            s.add(V[i] >= z3.RealVal(Fraction(box[i][0])), V[i] <= z3.RealVal(Fraction(box[i][1])))
        e = z3.RealVal(0)
        for k, c in top:
            m = z3.RealVal(c)
            for i in used:
                for _ in range(abs(k[i])):
                    m = m * V[i] if k[i] > 0 else m / V[i]
            e = e + m
        s.add(e != 0)
        if report.query(s) == z3.sat:
            mo = s.model()
            pt = [(l + h) / 2 for l, h in box]
            for i in used:
                x = mo.eval(V[i], model_completion=True)
                pt[i] = float(x.as_fraction()) if z3.is_rational_value(x) else pt[i]
            cand.append(pt)
    except z3.Z3Exception:
        pass
    for _ in range(n):
        cand.append([rng.uniform(l, h) for l, h in box])
    for pt in cand:
        v = abs(value(poly, pt))
        if best is None or v > best[0]:
            best = (v, pt)
    return best[1]
