"""Front end to native/ring.cpp: evaluate terms in the ring of (truncated) Laurent polynomials over Q."""
import os
import subprocess
import math
from fractions import Fraction
from . import terms as T
from . import build

_bin = []


def binary():
    if not _bin:
        src = os.path.join(build.HERE, 'symx/native/ring.cpp')
        import hashlib
        key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        out = os.path.join(build.cachedir(), 'ring.' + key)
        if not os.path.exists(out):
            t = out + '.tmp%d' % os.getpid()
            build.run(['g++', '-O2', '-o', t, src, '-lgmpxx', '-lgmp'])
            os.rename(t, out)
        _bin.append(out)
    return _bin[0]


_rat = {}


def rat(q):
    """doubles written in the source as rounded decimals are read as the simplest rational
    that rounds to the same double (denominator <= 10^7), else exactly"""
    if q.denominator < (1 << 12):
        return q
    r = _rat.get(q)
    if r is None:
        f = float(q)
        r = q
        for lim in (1000, 100000, 10000000):
            c = q.limit_denominator(lim)
            if float(c) == f or abs(c - q) <= abs(q) * Fraction(1, 1 << 52):
                r = c
                break
        _rat[q] = r
    return r


class RingError(Exception):
    pass


class Ring:
    def __init__(self, names, weights=None, K=None, logs=None, primes=None, limit=None):
        self.names = list(names)
        self.ix = {n: i for i, n in enumerate(self.names)}
        self.w = [0] * len(self.names)
        for n, x in (weights or {}).items():
            self.w[self.ix[n]] = x
        self.K = K
        self.logs = logs or {}
        self.primes = primes or {}
        self.limit = limit

    def mono(self, **kw):
        e = [0] * len(self.names)
        for k, v in kw.items():
            e[self.ix[k]] = v
        return tuple(e)

    def poly(self, *terms):
        """poly((coef, {name:exp}),...)"""
        d = {}
        for c, kw in terms:
            k = self.mono(**kw)
            d[k] = d.get(k, Fraction(0)) + Fraction(c)
        return d

    def ev(self, roots, env, fnmap=None, rationalise=True, timeout=None):
        """env: variable name -> ring variable name (str) | poly dict | Fraction
        fnmap(node) -> None or replacement term for 'fn' nodes the ring does not know"""
        L = ['v %d' % len(self.names)]
        if self.K is not None:
            L.append('t %d %s' % (self.K, ' '.join(map(str, self.w))))
        if self.limit:
            L.append('m %d' % self.limit)
        for a, b in self.logs.items():
            L.append('l %d %d' % (self.ix[a], self.ix[b]))
        for p, b in self.primes.items():
            L.append('q %d %d' % (p, self.ix[b]))
        order = T.topo(roots)
        last = {}
        for i, n in enumerate(order):
            for a in n.args:
                if type(a) is T.Node:
                    last[a.id] = i
        keep = {r.id for r in roots}
        for i, n in enumerate(order):
            o, a, d = n.op, n.args, n.id
            if n.sort != 'f':
                continue
            if o == 'c':
                q = rat(a[0]) if rationalise else a[0]
                L.append('c %d %d/%d' % (d, q.numerator, q.denominator))
            elif o == 'v':
                if a[0] not in env:
                    raise RingError('unbound variable ' + a[0])
                v = env[a[0]]
                if isinstance(v, (int, Fraction)):
                    v = Fraction(v)
                    L.append('c %d %d/%d' % (d, v.numerator, v.denominator))
                else:
                    if isinstance(v, str):
                        v = self.poly((1, {v: 1}))
                    L.append('p %d %d %s' % (d, len(v), ' '.join(
                        '%d/%d %s' % (c.numerator, c.denominator, ' '.join(map(str, k))) for k, c in v.items())))
            elif o in ('add', 'sub', 'mul', 'div'):
                L.append('%s %d %d %d' % ({'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[o], d, a[0].id, a[1].id))
            elif o == 'neg':
                L.append('n %d %d' % (d, a[0].id))
            elif o == 'fn' and a[0] == 'log':
                L.append('L %d %d' % (d, a[1].id))
            elif o == 'fn' and a[0] == 'sqrt':
                L.append('S %d %d' % (d, a[1].id))
            elif o == 'fn' and a[0] == 'pow' and a[2].op == 'c':
                q = a[2].args[0].limit_denominator(1000)
                L.append('e %d %d %d %d' % (d, a[1].id, q.numerator, q.denominator))
            else:
                raise RingError('ring cannot express %s' % T.show(n, 2))
            for x in a:
                if type(x) is T.Node and last.get(x.id) == i and x.id not in keep:
                    L.append('d %d' % x.id)
        for r in roots:
            L.append('o %d' % r.id)
        p = subprocess.run([binary()], input='\n'.join(L) + '\n', capture_output=True, text=True, timeout=timeout)
        if p.returncode != 0:
            raise RingError('ring evaluator failed: ' + p.stderr[-500:] + p.stdout[-200:])
        res = {}
        it = iter(p.stdout.split('\n'))
        self.maxterms = 0
        for ln in it:
            f = ln.split(' ')
            if f[0] == 'ERR':
                raise RingError(ln)
            if f[0] == 'MAX':
                self.maxterms = int(f[1])
            if f[0] == 'OUT':
                d = {}
                for _ in range(int(f[2])):
                    g = next(it).split(' ')
                    d[tuple(map(int, g[1:]))] = Fraction(g[0])
                res[int(f[1])] = d
        return [res[r.id] for r in roots]

    # ---- polynomial helpers on dicts
    def reduce_pow(self, p, var, n, repl):
        """replace var^n by polynomial repl (dict) until the exponent of var is in [0,n)"""
        i = self.ix[var]
        while True:
            out = {}
            again = False
            for k, c in p.items():
                if k[i] >= n:
                    again = True
                    b = list(k)
                    b[i] -= n
                    for k2, c2 in repl.items():
                        kk = tuple(x + y for x, y in zip(b, k2))
                        out[kk] = out.get(kk, 0) + c * c2
                else:
                    out[k] = out.get(k, 0) + c
            p = {k: c for k, c in out.items() if c != 0}
            if not again:
                return p

    def scale(self, p, kw):
        m = self.mono(**kw)
        return {tuple(x + y for x, y in zip(k, m)): c for k, c in p.items()}

    def show(self, p, n=6):
        out = []
        for k, c in list(sorted(p.items(), key=lambda t: -abs(t[1])))[:n]:
            out.append('%s*%s' % (c if c.denominator < 10 ** 6 else '%.8g' % float(c),
                                  '*'.join('%s^%d' % (a, e) if e != 1 else a for a, e in zip(self.names, k) if e)))
        return ' + '.join(out) + (' + ... (%d terms)' % len(p) if len(p) > n else '')
