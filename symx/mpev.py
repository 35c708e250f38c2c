"""High-precision evaluation of terms (for replays): the encoded value itself is compared with the native one first."""
import mpmath
from . import terms as T

mpmath.mp.dps = 60
FN = {'log': mpmath.log, 'sqrt': mpmath.sqrt, 'fabs': abs, 'dilog': lambda x: mpmath.re(mpmath.polylog(2, x)), 'sin': mpmath.sin,
      'cos': mpmath.cos, 'tan': mpmath.tan, 'atan': mpmath.atan, 'asin': mpmath.asin, 'acos': mpmath.acos, 'exp': mpmath.exp}


def ev(roots, env):
    m = {}
    for n in T.topo(roots):
        if n.sort != 'f':
            continue
        o, a = n.op, n.args
        if o == 'c':
            v = mpmath.mpf(a[0].numerator) / a[0].denominator
        elif o == 'v':
            v = mpmath.mpf(env[a[0]])
        elif o == 'neg':
            v = -m[a[0].id]
        elif o == 'add':
            v = m[a[0].id] + m[a[1].id]
        elif o == 'sub':
            v = m[a[0].id] - m[a[1].id]
        elif o == 'mul':
            v = m[a[0].id] * m[a[1].id]
        elif o == 'div':
            v = m[a[0].id] / m[a[1].id]
        elif o == 'fn':
            v = FN[a[0]](*[m[x.id] for x in a[1:]])
        elif o == 'negzero':
            v = mpmath.mpf(0)
        else:
            raise ValueError('cannot evaluate ' + o)
        m[n.id] = v
    return [m[r.id] for r in roots]
