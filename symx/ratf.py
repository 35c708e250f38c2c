"""Exact rational-function normal forms of terms, for equality obligations.

Every value is  coef * prod f_i^e_i  with primitive integer polynomials f_i (variables and atoms are the
trivial ones); sums are expanded over their common factors.  Atoms stand for applications of functions the
normal form does not expand; they are keyed by the normal form of their arguments, so congruence is built in.
Rules: log of a product splits (real domain: arguments positive), sqrt(x)^2 = x, sin^2 = 1 - cos^2,
tan = sin/cos, sin/cos of atan.
The final question -- can the difference exceed the tolerance anywhere in the box of atoms? -- goes to Z3."""
import math
from fractions import Fraction
import z3
from . import terms as T, ring, poly as P


class Give(Exception):
    pass


PI = math.pi
_const = {}


def const_of(q):
    """exact rational of a double -> (Fraction, {symbol: exp})"""
    r = _const.get(q)
    if r is None:
        r = _const[q] = _const_of(q)
    return r


def _const_of(q):
    s = ring.rat(q)
    if s.denominator <= 10 ** 7:
        return s, {}
    f = float(q)
    for sym, v in (('pi', PI), ('pi', PI ** -1), ('pi', PI ** 2), ('pi', PI ** -2), ('pi', PI ** 4), ('pi', PI ** -4),
                   ('pi', PI ** -6), ('pi', PI ** 6), ('r2', math.sqrt(2)), ('r3', math.sqrt(3)), ('r5', math.sqrt(5)),
                   ('r15', math.sqrt(15)), ('r35', math.sqrt(0.6)), ('ln2', math.log(2)), ('z3', 1.2020569031595942)):
        x = Fraction(f) / Fraction(v)
        c = x.limit_denominator(5000)
        if c and abs(c - x) <= abs(x) * Fraction(1, 10 ** 14):
            if sym == 'pi':
                k = round(math.log(v) / math.log(PI))
                return c, {'pi': k}
            if sym == 'r15':
                return c, {'r3': 1, 'r5': 1}
            if sym == 'r35':
                return c / 5, {'r3': 1, 'r5': 1}
            return c, {sym: 1}
    return s, {}


class Poly(dict):
    """monomial (tuple of (atom index, exp) sorted) -> int or Fraction"""
    pass


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        x = d.get(i, 0) + e
        if x:
            d[i] = x
        else:
            del d[i]
    return tuple(sorted(d.items()))


class Space:
    def __init__(self, positive=(), expand_limit=400000, notrig=False):
        self.atoms = []             # names
        self.ix = {}
        self.rules = {}             # atom index -> Poly replacing its square
        self.facs = {}              # frozenset(items) -> factor id
        self.fpoly = []             # factor id -> Poly (primitive)
        self.memo = {}
        self.keep = []              # nodes held alive
        self.defs = {}              # atom name -> (fn, arg canon) for reports
        self.limit = expand_limit
        self.positive = positive
        self.pol = {}
        for s in ('r2', 'r3', 'r5'):
            self.rules[self.atom(s)] = {(): int(s[1])}

    def atom(self, name):
        i = self.ix.get(name)
        if i is None:
            i = self.ix[name] = len(self.atoms)
            self.atoms.append(name)
        return i

    # ---- polynomials
    def padd(self, a, b, ca=1, cb=1):
        d = {k: v * ca for k, v in a.items()} if ca != 1 else dict(a)
        for k, v in b.items():
            x = d.get(k, 0) + v * cb
            if x:
                d[k] = x
            else:
                d.pop(k, None)
        return d

    def pmul(self, a, b):
        if len(a) * len(b) > self.limit * 20:
            raise Give('polynomial too large')
        d = {}
        if len(a) > len(b):
            a, b = b, a
        for k1, v1 in a.items():
            for k2, v2 in b.items():
                k = mmul(k1, k2)
                x = d.get(k, 0) + v1 * v2
                d[k] = x
        d = {k: v for k, v in d.items() if v}
        if len(d) > self.limit:
            raise Give('polynomial too large')
        return self.reduce(d)

    def reduce(self, p):
        if not self.rules:
            return p
        while True:
            hit = None
            for k in p:
                for i, e in k:
                    if e >= 2 and i in self.rules:
                        hit = i
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            r = self.rules[hit]
            out = {}
            pw = {0: {(): 1}, 1: r}
            for k, v in p.items():
                e = dict(k).get(hit, 0)
                if e < 2:
                    out[k] = out.get(k, 0) + v
                    continue
                h = e // 2
                if h not in pw:
                    q = {(): 1}
                    for _ in range(h):
                        q = self.pmul(q, r)
                    pw[h] = q
                rest = tuple((i, x if i != hit else e % 2) for i, x in k if i != hit or e % 2)
                for k2, v2 in pw[h].items():
                    kk = mmul(rest, k2)
                    out[kk] = out.get(kk, 0) + v * v2
            p = {k: v for k, v in out.items() if v}

    def primitive(self, p):
        """-> (coef, monomial, primitive poly or None when constant)"""
        ks = list(p)
        if len(ks) == 1:
            return Fraction(p[ks[0]]), ks[0], None
        den = 1
        for v in p.values():
            if type(v) is Fraction:
                den = den * v.denominator // math.gcd(den, v.denominator)
        g = 0
        q = {}
        for k, v in p.items():
            x = int(v * den)
            q[k] = x
            g = math.gcd(g, x)
        common = dict(ks[0])
        for k in ks[1:]:
            d = dict(k)
            for i in list(common):
                e = d.get(i, 0)
                if common[i] > 0:
                    m = min(common[i], e)
                    if m <= 0:
                        del common[i]
                    else:
                        common[i] = m
            if not common:
                break
        mono = tuple(sorted(common.items()))
        inv = tuple((i, -e) for i, e in mono)
        lead = max(q)
        if q[lead] < 0:
            g = -g
        if mono:
            q = {mmul(k, inv): v // g for k, v in q.items()}
        elif g != 1:
            q = {k: v // g for k, v in q.items()}
        return Fraction(g, den), mono, q

    def factor(self, q):
        key = frozenset(q.items())
        f = self.facs.get(key)
        if f is None:
            f = self.facs[key] = len(self.fpoly)
            self.fpoly.append(q)
        return f

    # ---- values: (coef Fraction, {('a',i)|('f',j): exp})
    def one(self):
        return (Fraction(1), {})

    def vmul(self, a, b, s=1):
        if not a[0] or not b[0]:
            if s < 0 and not b[0]:
                raise Give('division by zero')
            return (Fraction(0), {})
        d = dict(a[1])
        for k, e in b[1].items():
            x = d.get(k, 0) + s * e
            if x:
                d[k] = x
            else:
                d.pop(k, None)
        c = a[0] * b[0] if s > 0 else a[0] / b[0]
        return self.vreduce((c, d))

    def vreduce(self, v):
        """apply the square rules to bare atoms"""
        c, d = v
        for k in list(d):
            if k[0] == 'a' and k[1] in self.rules and (d[k] >= 2 or d[k] < 0):
                e = d.pop(k)
                h = e // 2
                r = self.frompoly(self.rules[k[1]])
                if e - 2 * h:
                    d[k] = 1
                w = (c, d)
                x = self.vpow(r, h)
                return self.vmul(w, x)
        return v

    def vpow(self, a, n):
        if not a[0]:
            if n <= 0:
                raise Give('0^%d' % n)
            return a
        return self.vreduce((a[0] ** n, {k: e * n for k, e in a[1].items()}))

    def frompoly(self, p):
        if not p:
            return (Fraction(0), {})
        c, mono, q = self.primitive(p)
        d = {('a', i): e for i, e in mono}
        if q is not None:
            k = ('f', self.factor(q))
            d[k] = d.get(k, 0) + 1
        return (c, d)

    def expand(self, v, skip=None):
        """value with nonnegative exponents -> Poly"""
        c, d = v
        p = {(): c}
        mono = {}
        for k, e in d.items():
            if k[0] == 'a':
                mono[k[1]] = e
        mono = tuple(sorted(mono.items()))
        p = {mono: c if c.denominator != 1 else int(c)}
        p = self.reduce(p)
        for k, e in sorted(d.items()):
            if k[0] == 'f':
                for _ in range(e):
                    p = self.pmul(p, self.fpoly[k[1]])
        return p

    def vsum(self, a, b, sb=1):
        if not b[0]:
            return a
        if not a[0]:
            return (b[0] * sb, b[1])
        if a[1] == b[1]:
            c = a[0] + sb * b[0]
            return (c, a[1] if c else {})
        com = {}
        for k in set(a[1]) | set(b[1]):
            m = min(a[1].get(k, 0), b[1].get(k, 0))
            if m:
                com[k] = m
        ra = (a[0], {k: e - com.get(k, 0) for k, e in a[1].items() if e - com.get(k, 0)})
        rb = (b[0] * sb, {k: e - com.get(k, 0) for k, e in b[1].items() if e - com.get(k, 0)})
        for k, e in com.items():
            for src, r in ((a, ra), (b, rb)):
                if k not in src[1] and e < 0:
                    r[1][k] = -e
        p = self.padd(self.expand(ra), self.expand(rb))
        if not p:
            return (Fraction(0), {})
        # cancel factors of the common denominator where they divide
        w = self.frompoly(p)
        return self.vmul((Fraction(1), com), w)

    # ---- functions
    def canon(self, v):
        return (v[0], frozenset(v[1].items()))

    def log(self, v):
        if not v[0]:
            raise Give('log 0')
        out = (Fraction(0), {})
        c = abs(v[0])
        if c != 1:
            out = self.vsum(out, self.logint(c))
        for k, e in v[1].items():
            if k[0] == 'a':
                nm = 'log(%s)' % self.atoms[k[1]]
                i = k[1]
                if i in self.rules:       # log sqrt(x) = 1/2 log x
                    l = self.log(self.frompoly(self.rules[i]))
                    l = (l[0] / 2, l[1])
                else:
                    l = (Fraction(1), {('a', self.atom(nm)): 1})
            else:
                l = (Fraction(1), {('a', self.atom('log(f%d)' % k[1])): 1})
            out = self.vsum(out, (l[0] * e, l[1]))
        return out

    def logint(self, c):
        out = (Fraction(0), {})
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            p = 2
            while n > 1 and p < 2000:
                while n % p == 0:
                    n //= p
                    out = self.vsum(out, (Fraction(s), {('a', self.atom('log(%d)' % p if p != 2 else 'ln2')): 1}))
                p += 1
            if n > 1:
                out = self.vsum(out, (Fraction(s), {('a', self.atom('log(%d)' % n)): 1}))
        return out

    def sqrt(self, v):
        c, d = v
        if not c:
            return v
        out = {}
        rest = {}
        for k, e in d.items():
            if e % 2 == 0 and (k[0] == 'a' and k[1] not in self.rules or False):
                out[k] = e // 2
            else:
                h = e // 2
                if k[0] == 'a' and h:
                    out[k] = h
                    e -= 2 * h
                rest[k] = e
        # odd exponents inside; even factor exponents stay inside (sign unknown)
        num = (c, {})
        den = {}
        for k, e in rest.items():
            if e < 0:
                x = -e
                # 1/sqrt(f^x) = sqrt(f^x)/f^x
                den[k] = x
                num[1][k] = x
            else:
                num[1][k] = e
        cc = num[0]
        n, dd = cc.numerator, cc.denominator
        coef = Fraction(1)
        # c = n/dd -> sqrt(n*dd)/dd
        if cc < 0:
            m = n * dd
        else:
            m = n * dd
            r = math.isqrt(m)
            if r * r == m:
                coef = Fraction(r, dd)
                m = 1
                dd = 1
            else:
                s = 1
                p = 2
                mm = m
                while p * p <= mm and p < 100:
                    while mm % (p * p) == 0:
                        mm //= p * p
                        s *= p
                    p += 1
                coef = Fraction(s, dd)
                m = mm
        inner = (Fraction(m), num[1])
        res = (coef, out)
        if inner[0] != 1 or inner[1]:
            if not inner[1] and inner[0] in (2, 3, 5):
                a = self.atom('r%d' % inner[0])
            else:
                nm = 'sqrt%s' % (self.canonname(inner),)
                a = self.atom(nm)
                if a not in self.rules:
                    self.rules[a] = self.expand(inner)
            res = self.vmul(res, (Fraction(1), {('a', a): 1}))
        if den:
            res = self.vmul(res, (Fraction(1), den), -1)
        return res

    def canonname(self, v):
        return str((v[0], sorted(v[1].items())))

    def trig(self, name, v):
        if not v[0]:
            return (Fraction(0), {}) if name in ('sin', 'tan') else self.one()
        if name == 'tan':
            return self.vmul(self.trig('sin', v), self.trig('cos', v), -1)
        # sin/cos of atan
        if len(v[1]) == 1 and abs(v[0]) == 1:
            (k, e), = v[1].items()
            if k[0] == 'a' and e == 1 and self.atoms[k[1]] in self.pol and self.pol[self.atoms[k[1]]][0] == 'atan':
                t = self.pol[self.atoms[k[1]]][1]
                r = self.sqrt(self.vsum(self.one(), self.vmul(t, t)))
                if name == 'cos':
                    return self.vmul(self.one(), r, -1)
                x = self.vmul(t, r, -1)
                return (x[0] * v[0], x[1])
        sg = 1
        if v[0] < 0:
            v = (-v[0], v[1])
            sg = -1 if name == 'sin' else 1
        if v[0].denominator == 1 and v[0] % 2 == 0 and v[0] <= 8:
            h = (v[0] / 2, v[1])
            s, c = self.trig('sin', h), self.trig('cos', h)
            if name == 'sin':
                x = self.vmul(s, c)
                return (2 * sg * x[0], x[1])
            return self.vsum(self.vmul(c, c), self.vmul(s, s), -1)
        nm = self.canonname(v)
        cs, sn = self.atom('cos' + nm), self.atom('sin' + nm)
        self.rules[sn] = {(): 1, ((cs, 2),): -1}
        return (Fraction(sg), {('a', cs if name == 'cos' else sn): 1})

    def fabs(self, v):
        # sign of bare positive variables is known
        c = abs(v[0])
        out, rest = {}, {}
        for k, e in v[1].items():
            if e % 2 == 0 or (k[0] == 'a' and self.ispos(k[1])):
                out[k] = e
            else:
                rest[k] = e
        res = (c, out)
        if rest:
            a = self.atom('abs' + self.canonname((Fraction(1), rest)))
            if a not in self.rules and all(e > 0 for e in rest.values()):
                self.rules[a] = self.expand((Fraction(1), {k: 2 * e for k, e in rest.items()}))
            res = self.vmul(res, (Fraction(1), {('a', a): 1}))
        return res

    def ispos(self, i):
        n = self.atoms[i]
        return n in self.positive or n.startswith('sqrt') or n in ('pi', 'r2', 'r3', 'r5', 'ln2', 'z3') or n.startswith('abs')

    def fn(self, name, args):
        if name == 'log':
            return self.log(args[0])
        if name == 'sqrt':
            return self.sqrt(args[0])
        if name in ('sin', 'cos', 'tan'):
            return self.trig(name, args[0])
        if name == 'fabs':
            return self.fabs(args[0])
        if name == 'dilog':                 # Re Li2(1-u) = -log(u)^2/2 - Re Li2(1-1/u) for u > 0: one of the two forms
            u = self.vsum(self.one(), args[0], -1)
            if u[0] > 0 and u[1] and all(k[0] == 'a' and self.ispos(k[1]) for k in u[1]):
                w = self.vpow(u, -1)
                if self.canonname(w) < self.canonname(u):
                    l = self.log(u)
                    l2 = self.vmul(l, l)
                    nm = 'dilog1-' + self.canonname(w)
                    self.pol[nm] = (name,) + tuple(args)
                    return self.vsum((-l2[0] / 2, l2[1]), (Fraction(1), {('a', self.atom(nm)): 1}), -1)
                nm = 'dilog1-' + self.canonname(u)
                self.pol[nm] = (name,) + tuple(args)
                return (Fraction(1), {('a', self.atom(nm)): 1})
            if not args[0][0]:
                return (Fraction(0), {})
        if name == 'pow':
            b, e = args
            if not e[1] and e[0].denominator <= 2 and abs(e[0]) < 40:
                if e[0].denominator == 1:
                    return self.vpow(b, int(e[0]))
                return self.vpow(self.sqrt(b), int(2 * e[0]))
        if name in ('atan', 'asin') and args[0][0] == 0:
            return (Fraction(0), {})
        sg = 1
        if name in ('atan', 'asin') and args[0][0] < 0:
            args = [(-args[0][0], args[0][1])]
            sg = -1
        nm = '%s%s' % (name, tuple(self.canonname(a) for a in args))
        self.pol[nm] = (name,) + tuple(args)
        return (Fraction(sg), {('a', self.atom(nm)): 1})

    # ---- terms
    def ev(self, roots, env=None):
        """env: variable -> value (or variable name); ite conditions must have been resolved"""
        memo = self.memo
        env = env or {}
        for n in T.topo(roots):
            if n.id in memo or n.sort != 'f':
                continue
            o, a = n.op, n.args
            if o in ('sitofp', 'uitofp'):
                memo[n.id] = (Fraction(1), {('a', self.atom('int%d' % n.id)): 1})
                self.keep.append(n)
                continue
            if o == 'c':
                q, sym = const_of(a[0])
                v = (q, {('a', self.atom(s)): e for s, e in sym.items()}) if q else (Fraction(0), {})
                v = self.vreduce(v)
            elif o == 'negzero':
                v = (Fraction(0), {})
            elif o == 'v':
                v = env.get(a[0])
                if v is None:
                    v = (Fraction(1), {('a', self.atom(a[0])): 1})
                elif isinstance(v, (int, Fraction)):
                    v = (Fraction(v), {})
                elif isinstance(v, str):
                    v = (Fraction(1), {('a', self.atom(v)): 1})
            elif o == 'add':
                v = self.vsum(memo[a[0].id], memo[a[1].id])
            elif o == 'sub':
                v = self.vsum(memo[a[0].id], memo[a[1].id], -1)
            elif o == 'mul':
                v = self.vmul(memo[a[0].id], memo[a[1].id])
            elif o == 'div':
                v = self.vmul(memo[a[0].id], memo[a[1].id], -1)
            elif o == 'neg':
                x = memo[a[0].id]
                v = (-x[0], x[1])
            elif o == 'fn':
                v = self.fn(a[0], [memo[x.id] for x in a[1:]])
            else:
                raise Give('unresolved %s' % T.show(n, 2))
            memo[n.id] = v
            self.keep.append(n)
        return [memo[r.id] for r in roots]

    def show(self, p, n=4):
        out = []
        for k, c in sorted(p.items(), key=lambda t: -abs(t[1]))[:n]:
            out.append('%.6g*%s' % (float(c), '*'.join('%s^%d' % (self.atoms[i], e) if e != 1 else self.atoms[i]
                                                       for i, e in k)))
        return ' + '.join(out) + (' + ... (%d terms)' % len(p) if len(p) > n else '')

    def diff(self, a, b):
        """-> (numerator Poly of a-b over the common denominator, scale: largest coefficient of either side)"""
        com = {}
        for k in set(a[1]) | set(b[1]):
            if not a[0]:
                m = b[1].get(k, 0)
            elif not b[0]:
                m = a[1].get(k, 0)
            else:
                m = min(a[1].get(k, 0), b[1].get(k, 0))
            if m:
                com[k] = m
        ps = []
        for v in (a, b):
            d = {}
            for k in set(v[1]) | set(com):
                e = v[1].get(k, 0) - com.get(k, 0)
                if e:
                    d[k] = e
            ps.append(self.expand((v[0], d)) if v[0] else {})
        sc = max([abs(x) for p in ps for x in p.values()] or [1])
        return self.padd(ps[0], ps[1], 1, -1), sc


CONSTS = {'pi': Fraction('3.14159265358979323846264338327950288419716939937511'),
          'r2': Fraction('1.41421356237309504880168872420969807856967187537694'),
          'r3': Fraction('1.73205080756887729352744634150587236694280525381038'),
          'r5': Fraction('2.23606797749978969640917366873127623544061835961153'),
          'ln2': Fraction('0.69314718055994530941723212145817656807550013436026'),
          'z3': Fraction('1.20205690315959428539973816151144999076498629234050')}


def fold(sp, p):
    """insert the numerical values of the mathematical constants"""
    q = {}
    for k, c in p.items():
        kk = []
        for i, e in k:
            x = CONSTS.get(sp.atoms[i])
            if x is None:
                kk.append((i, e))
            else:
                c = c * x ** e
        kk = tuple(kk)
        q[kk] = q.get(kk, 0) + c
    return {k: c for k, c in q.items() if c}


def decide(rep, sp, p, scale, tol=1e-10):
    """Z3: can the residual exceed tol*scale with every atom monomial in [-1,1]?"""
    p = fold(sp, p)
    tol = Fraction(tol) * Fraction(scale)
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 60000)
    terms = []
    small = Fraction(0)
    for i, (k, c) in enumerate(p.items()):
        if abs(c) < tol / (10 * max(1, len(p))):
            small += abs(c)
            continue
        v = z3.Real('m%d' % i)
        s.add(v >= -1, v <= 1)
        terms.append(z3.RealVal(Fraction(c)) * v)
    e = z3.Sum(terms) if terms else z3.RealVal(0)
    t = z3.RealVal(tol - small)
    s.add(z3.Or(e > t, e < -t))
    r = rep.query(s)
    return r == z3.unsat if r != z3.unknown else None


def equal(rep, name, a, b, positive=(), env=None, tol=1e-10, on_diff=None, space=None):
    """obligation a == b (terms, no open ites); on_diff(text) is called with the residual when not"""
    sp = space or Space(positive)
    try:
        va, vb = sp.ev([a, b], env)
        p, sc = sp.diff(va, vb)
    except (Give, ZeroDivisionError) as e:
        if on_diff:         # the caller replays natively
            on_diff('undecided, normal form: %s' % e)
        else:
            rep.unknown(name, 'normal form: %s' % e)
        return None
    r = decide(rep, sp, p, sc, tol)
    if r:
        rep.ok(name)
    elif r is None and not on_diff:
        rep.unknown(name, 'solver gave up')
    elif on_diff:
        on_diff(sp.show(p))
    else:
        rep.unknown(name, 'sides differ: ' + sp.show(p))
    return r
