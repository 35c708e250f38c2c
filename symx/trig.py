"""sin and cos of linear combinations of acos, asin and multiples of pi/2, in terms of the arguments."""
import math
from fractions import Fraction
from . import terms as T

HALFPI = math.pi / 2


def strip(t):
    while t.op == 'neg' or (t.op == 'fn' and t.args[0] == 'fabs'):
        t = t.args[0] if t.op == 'neg' else t.args[1]
    return t


def lin(t):
    """-> ({atom: coefficient}, constant)"""
    o, a = t.op, t.args
    if o == 'c':
        return {}, a[0]
    if o in ('add', 'sub'):
        x, cx = lin(a[0])
        y, cy = lin(a[1])
        s = 1 if o == 'add' else -1
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}, cx + s * cy
    if o == 'neg':
        x, c = lin(a[0])
        return {k: -v for k, v in x.items()}, -c
    if o == 'mul' or o == 'div':
        for p, q in ((0, 1), (1, 0)):
            if a[q].op == 'c' and (o == 'mul' or q == 1):
                f = a[q].args[0] if o == 'mul' else 1 / Fraction(a[q].args[0])
                x, c = lin(a[p])
                return {k: v * f for k, v in x.items()}, c * f
    if o == 'fn' and a[0] == 'fabs' and a[1].op == 'fn' and a[1].args[0] == 'acos':
        return lin(a[1])                      # acos is never negative
    return {t: Fraction(1)}, Fraction(0)


def sincos(t):
    """(sin t, cos t) simplified"""
    x, c = lin(t)
    k = round(float(c) / HALFPI)
    if abs(float(c) - k * HALFPI) > 1e-9:
        return T.fn('sin', t), T.fn('cos', t)
    s, co = T.ZERO, T.ONE
    for at, v in x.items():
        sa = ca = None
        n = v
        if at.op == 'fn' and at.args[0] in ('acos', 'asin') and Fraction(v).denominator == 1:
            u = at.args[1]
            w = comp(u)
            sa, ca = (w, u) if at.args[0] == 'acos' else (u, w)
        else:
            base = T.fmul(T.fconst(abs(v)), at) if abs(v) != 1 else at
            sa, ca, n = T.fn('sin', base), T.fn('cos', base), (1 if v > 0 else -1)
        for _ in range(abs(int(n))):
            q = sa if n > 0 else T.fneg(sa)
            s, co = T.fadd(T.fmul(s, ca), T.fmul(co, q)), T.fsub(T.fmul(co, ca), T.fmul(s, q))
    for _ in range(k % 4):
        s, co = co, T.fneg(s)
    return s, co


UNIT = {}        # name of c -> name of s for variables with c^2 + s^2 = 1


def comp(u):
    """sqrt(1 - u^2)"""
    b = strip(u)
    if b.op == 'v' and b.args[0] in UNIT:
        return T.fn('fabs', T.var(UNIT[b.args[0]]))
    return T.fn('sqrt', T.fsub(T.ONE, T.fmul(u, u)))


def rewrite(roots):
    memo = {}
    for n in T.topo(roots):
        a = [memo[x.id] if type(x) is T.Node else x for x in n.args]
        if n.op == 'fn' and n.args[0] in ('sin', 'cos'):
            s, c = sincos(a[1])
            r = s if n.args[0] == 'sin' else c
        else:
            r = T.rebuild(n, a)
        memo[n.id] = r
    return [memo[r.id] if type(r) is T.Node else r for r in roots]
