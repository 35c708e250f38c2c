"""Directional derivative of terms: d(root) along {variable name: direction term}; conditions of ites are not differentiated."""
from . import terms as T


def d(roots, direction, memo=None, rules=None):
    """rules {function: [partial derivative as a function of the argument terms]} (None: not available)"""
    m = memo if memo is not None else {}
    for n in T.topo(roots):
        if n.id in m or n.sort != 'f':
            continue
        o, a = n.op, n.args
        if o == 'v':
            r = direction.get(a[0], T.ZERO)
        elif o in ('c', 'negzero', 'sitofp', 'uitofp', 'nan', 'inf'):
            r = T.ZERO
        elif o in ('add', 'sub'):
            r = T.fbin(o, m[a[0].id], m[a[1].id])
        elif o == 'neg':
            r = T.fneg(m[a[0].id])
        elif o == 'mul':
            r = T.fadd(T.fmul(m[a[0].id], a[1]), T.fmul(a[0], m[a[1].id]))
        elif o == 'div':
            dx, dy = m[a[0].id], m[a[1].id]
            r = T.fdiv(dx, a[1])
            if dy is not T.ZERO:
                r = T.fsub(r, T.fdiv(T.fmul(n, dy), a[1]))
        elif o == 'ite':
            r = T.ite(a[0], m[a[1].id], m[a[2].id])
        elif o == 'fn':
            ds = [m[x.id] for x in a[1:]]
            if all(x is T.ZERO for x in ds):
                r = T.ZERO
            elif rules and a[0] in rules:
                r = T.ZERO
                for f, dx in zip(rules[a[0]], ds):
                    if dx is not T.ZERO:
                        if f is None:
                            raise ValueError('derivative of ' + str(a[0]))
                        r = T.fadd(r, T.fmul(f(*a[1:]), dx))
            else:
                x, dx = a[1], ds[0]
                if a[0] == 'log':
                    r = T.fdiv(dx, x)
                elif a[0] == 'sqrt':
                    r = T.fdiv(dx, T.fmul(T.fconst(2), n))
                elif a[0] == 'dilog':         # Re Li2: -log|1-x|/x
                    r = T.fneg(T.fdiv(T.fmul(T.fn('log', T.fn('fabs', T.fsub(T.ONE, x))), dx), x))
                elif a[0] == 'fabs':
                    r = T.fdiv(T.fmul(n, dx), x)
                else:
                    raise ValueError('derivative of ' + str(a[0]))
        else:
            raise ValueError('derivative of %s' % o)
        m[n.id] = r
    return [m[r.id] for r in roots]
