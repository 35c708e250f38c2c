"""Limits of rational expressions with logarithms and dilogarithms: one positive variable tends to another.

A value of ratf (num/den with factorised den) is expanded in eps after  x -> y (1 + eps):  log x = log y + log(1+eps),
Li2(1-u) from its differential equation.  The limit claimed is right iff num(eps) - limit*den(eps) vanishes to the order
of the zero of den; the coefficients are polynomials and go to Z3 (ratf.decide)."""
from fractions import Fraction
from . import ratf


class Ser:
    """eps-series with polynomial coefficients, truncated after order n"""

    def __init__(self, sp, n, x, y):
        self.sp, self.n, self.x, self.y = sp, n, sp.atom(x), sp.atom(y)
        self.inv = {}           # atom index -> polynomial it inverts
        self.memo = {}
        self.lg = [Fraction(0)] + [Fraction((-1) ** (k + 1), k) for k in range(1, n + 1)]

    def const(self, p):
        return [p] + [{} for _ in range(self.n)]

    def num(self, cs):
        return [{(): c} if c else {} for c in cs]

    def add(self, a, b, cb=1):
        return [self.sp.padd(u, v, 1, cb) for u, v in zip(a, b)]

    def mul(self, a, b):
        out = [{} for _ in range(self.n + 1)]
        for i, u in enumerate(a):
            if not u:
                continue
            for j, v in enumerate(b[:self.n + 1 - i]):
                if v:
                    out[i + j] = self.sp.padd(out[i + j], self.sp.pmul(u, v))
        return out

    def power(self, s):
        """(1+eps)^s, s integer"""
        r, c = [], Fraction(1)
        for k in range(self.n + 1):
            r.append(c)
            c = c * (s - k) / (k + 1)
        return self.num(r)

    def deriv(self, a):
        return [{k: c * (i + 1) for k, c in a[i + 1].items()} for i in range(self.n)] + [{}]

    def integ(self, a):
        return [{}] + [{k: Fraction(c) / (i + 1) for k, c in a[i].items()} for i in range(self.n)]

    def logmono(self, m):
        """log of a monomial {atom: exp} (old names) -> series"""
        sp = self.sp
        out = self.const({})
        for i, e in m.items():
            j = self.y if i == self.x else i
            out = self.add(out, self.const({((sp.atom('log(%s)' % sp.atoms[j]), 1),): e}))
            if i == self.x:
                out = self.add(out, self.num([e * c for c in self.lg]))
        return out

    def atom(self, i):
        """series of an atom, None when it does not depend on x"""
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = r = self._atom(i)
        return r

    def _atom(self, i):
        sp = self.sp
        n = sp.atoms[i]
        xn = sp.atoms[self.x]
        if i == self.x:
            return [sp.pmul(c, {((self.y, 1),): 1}) if c else c for c in self.power(1)]
        if n == 'log(%s)' % xn:
            return self.logmono({self.x: 1})
        if n.startswith('dilog1-'):
            u = sp.vsum(sp.one(), sp.pol[n][1], -1)
            if n != 'dilog1-' + sp.canonname(u):
                u = sp.vpow(u, -1)
            if ('a', self.x) not in u[1]:
                return None
            m = {k[1]: e for k, e in u[1].items()}
            if u[0] != 1:
                raise ratf.Give('dilogarithm with a factor')
            s = m[self.x]
            m0 = dict(m)
            del m0[self.x]
            m0[self.y] = m0.get(self.y, 0) + s
            if not m0[self.y]:
                del m0[self.y]
            w = self.power(s)
            ser = Ser(sp, self.n + 1, xn, sp.atoms[self.y]) if not m0 else self
            if not m0:              # u = (1+eps)^s: g' = log(u) u'/(1-u), regular
                lu = [s * c for c in ser.lg]
                ww = [c.get((), Fraction(0)) for c in ser.power(s)]
                a, b = lu[1:], [-c for c in ww[1:]]       # log(u)/eps, (1-u)/eps
                q = []
                for k in range(self.n + 1):
                    q.append((a[k] - sum(q[t] * b[k - t] for t in range(k))) / b[0])
                d = [(k + 1) * ww[k + 1] for k in range(self.n + 1)]
                g = [sum(q[t] * d[k - t] for t in range(k + 1)) for k in range(self.n + 1)]
                return self.num([Fraction(0)] + [g[k] / (k + 1) for k in range(self.n)])
            mono = tuple(sorted(m0.items()))
            den = {(): 1, mono: -1}                        # 1 - u0
            nm = 'inv(1-%s)' % (mono,)
            d = sp.atom(nm)
            self.inv[d] = den
            # 1/(1-u0 w) = D sum (u0 D (w-1))^k
            w1 = [{}] + w[1:]
            step = [sp.pmul(c, {sp_mul(mono, ((d, 1),)): 1}) if c else c for c in w1]
            acc, t = self.const({(): 1}), self.const({(): 1})
            for _ in range(self.n):
                t = self.mul(t, step)
                acc = self.add(acc, t)
            acc = [sp.pmul(c, {((d, 1),): 1}) if c else c for c in acc]
            du = [sp.pmul(c, {mono: 1}) if c else c for c in self.deriv(w)]
            g = self.integ(self.mul(self.mul(self.logmono(m), du), acc))
            g0 = (Fraction(1), dict([(('a', i2), e) for i2, e in m0.items()]))
            li = sp.fn('dilog', [sp.vsum(sp.one(), g0, -1)])
            g[0] = sp.expand(li)
            return g
        if '(%s)' % xn in n or n.startswith('log(f') or n.startswith('sqrt') or n.startswith('abs') or n.startswith('dilog('):
            raise ratf.Give('series of ' + n)
        return None

    def mono_pow(self, i, e):
        k = (i, e)
        if k not in self.memo:
            r = self.const({(): 1})
            s = self.atom(i)
            if e < 0:
                if i != self.x:
                    raise ratf.Give('negative power')
                r = [sp_shift(self.sp, c, ((self.y, e),)) for c in self.power(e)]
            else:
                r = s if e == 1 else self.mul(self.mono_pow(i, e - 1), s)
            self.memo[k] = r
        return self.memo[k]

    def poly(self, p):
        """series of a polynomial"""
        groups = {}
        for k, c in p.items():
            dep = tuple((i, e) for i, e in k if self.atom(i) is not None)
            rest = tuple((i, e) for i, e in k if self.atom(i) is None)
            groups.setdefault(dep, {})[rest] = c
        out = self.const({})
        for dep, q in groups.items():
            s = self.const({(): 1})
            for i, e in dep:
                s = self.mul(s, self.mono_pow(i, e))
            out = self.add(out, [self.sp.pmul(c, q) if c else c for c in s])
        return out

    def clear(self, p):
        """multiply out the inverses and the negative powers"""
        sp = self.sp
        for d, den in self.inv.items():
            top = max([dict(k).get(d, 0) for k in p] or [0])
            if not top:
                continue
            pw = [{(): 1}]
            for _ in range(top):
                pw.append(sp.pmul(pw[-1], den))
            out = {}
            for k, c in p.items():
                e = dict(k).get(d, 0)
                rest = tuple((i, x) for i, x in k if i != d)
                out = sp.padd(out, sp.pmul({rest: c}, pw[top - e]))
            p = out
        low = {}
        for k in p:
            for i, e in k:
                if e < low.get(i, 0):
                    low[i] = e
        if low:
            p = sp.pmul(p, {tuple(sorted((i, -e) for i, e in low.items())): 1})
        return p


def sp_mul(a, b):
    return ratf.mmul(a, b)


def sp_shift(sp, p, m):
    return {ratf.mmul(k, m): c for k, c in p.items()}


def split(sp, v):
    """value -> numerator polynomial, denominator [(polynomial, exponent)]"""
    c, d = v
    num = {k: e for k, e in d.items() if e > 0}
    den = []
    for k, e in d.items():
        if e < 0:
            den.append(({((k[1], 1),): 1} if k[0] == 'a' else sp.fpoly[k[1]], -e))
    return sp.expand((c, num)), den


def check(rep, sp, gen, lim, x, y, tol=1e-10):
    """does gen tend to lim for x -> y?  -> (True/False/None, text)"""
    num, den = split(sp, gen)
    # order of the zero of the denominator
    order, lead = 0, []
    for p, e in den:
        n = 2
        while True:
            s = Ser(sp, n, x, y).poly(p)
            v = next((i for i, c in enumerate(s) if ratf.fold(sp, c)), None)
            if v is not None:
                break
            n += 4
            if n > 30:
                raise ratf.Give('denominator vanishes')
        order += v * e
        lead.append((s[v], e))
    S = Ser(sp, order, x, y)
    ser = S.poly(num)
    top = max([abs(c) for c in num.values()] or [1])
    for j in range(order):
        p = S.clear(ser[j])
        sc = max([abs(c) for c in ser[j].values()] + [top])
        r = ratf.decide(rep, sp, p, sc, tol)
        if not r:
            return r, 'diverges like eps^%d: %s' % (j - order, sp.show(p))
    ln, ld = split(sp, lim)
    dk = {(): 1}
    for p, e in lead:
        for _ in range(e):
            dk = sp.pmul(dk, p)
    a = ser[order]
    for p, e in ld:
        for _ in range(e):
            a = sp.pmul(a, p)
    b = sp.pmul(ln, dk)
    diff = S.clear(sp.padd(a, b, 1, -1))
    sc = max([abs(c) for c in list(a.values()) + list(b.values())] + [top])
    r = ratf.decide(rep, sp, diff, sc, tol)
    return r, sp.show(ratf.fold(sp, diff)) if not r else ''
