"""Mass dimensions of terms: behaviour under a common rescaling of all dimensionful inputs.

f(l^d_1 x_1, ..., l^d_n x_n) = l^D f(x_1, ..., x_n) for all l > 0 by induction over the term: every value carries the linear
form of its degree in the degrees of the inputs; sums, branches, comparisons and arguments of functions give the linear side
conditions.  Z3 decides that the declared degrees of the inputs entail all of them.  A sum whose operands differ in degree is
taken to its normal form first (a cancellation may restore the scaling)."""
from fractions import Fraction as Fr
import z3
from . import diff, ratf, terms as T

ANY = None      # the degree of zero: every degree
ZERO = ()
BAD = ('bad',)    # does not scale by itself


def vec(d):
    return tuple(sorted((k, v) for k, v in d.items() if v))


def lin(a, b, s=1):
    if a is BAD or b is BAD:
        return BAD
    if a is ANY or b is ANY:
        return ANY
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + s * v
    return vec(d)


def mul(a, s):
    return a if a is ANY or a is BAD else vec({k: v * s for k, v in a})


class Scaling:
    """deg: {input name: degree}; rules: {function: f(self, node, degrees of the arguments) -> degree}"""

    def __init__(self, deg, rules=None, tiny=1e-8, positive=()):
        self.deg, self.rules, self.tiny, self.positive = deg, rules or {}, tiny, positive
        self.memo, self.con, self.keep, self.zero_tests = {}, {}, [], 0
        self.nodes = 0
        self.why, self.normals, self.failed = {}, {}, []

    def value(self, v):
        return sum((c * (1 if k == '1' else self.deg[k]) for k, c in v), Fr(0)) if v is not ANY else ANY

    def same(self, a, b, n):
        """side condition: a and b have one degree"""
        if a is ANY:
            return b
        if b is not ANY and a != b:
            self.con.setdefault((a, b), n)
        return a

    def flat(self, a, n):
        self.same(a, ZERO, n)

    def atom(self, n):
        o, a = n.op, n.args
        if o == 'v':
            if a[0] not in self.deg:
                raise ratf.Give('no degree for ' + a[0])
            return ((a[0], Fr(1)),) if self.deg[a[0]] else ZERO
        if o == 'c':
            return ANY if a[0] == 0 else ZERO
        if o in ('sitofp', 'uitofp', 'ite_i'):
            return ZERO
        return ANY              # nan, inf, -0

    def fn(self, n, d):
        f = n.args[0]
        if f in self.rules:
            return self.rules[f](self, n, d)
        if f == 'sqrt':
            return mul(d[0], Fr(1, 2))
        if f in ('fabs', 'copysign', 'trunc'):
            return self.settle(n.args[1])
        if f in ('log', 'dilog', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log1p', 'cl2'):
            if f == 'log':
                if d[0] is BAD:
                    return BAD
                if d[0] is not ANY and self.value(d[0]):      # a logarithm of a mass: not by itself
                    self.why.setdefault(n.id, 'logarithm of degree %s: %s' % (self.value(d[0]), T.show(n, 3)[:200]))
                    return BAD
            self.flat(d[0], n)
            return ZERO
        if f in ('atan2', 'hypot', 'fmax', 'fmin', 'fmod'):
            r = self.same(d[0], d[1], n)
            return ZERO if f == 'atan2' else r
        if f == 'pow':
            e = T.cval(n.args[2]) if T.is_const(n.args[2]) else None
            if e is not None:
                return mul(d[0], Fr(e).limit_denominator(64))
            self.flat(d[0], n)
            self.flat(d[1], n)
            return ZERO
        raise ratf.Give('function ' + str(f))

    def cond(self, n):
        if n.op == 'fcmp':
            x, y = n.args[1], n.args[2]
            for u, w in ((x, y), (y, x)):
                if T.is_const(u) and 0 < abs(T.cval(u)) <= self.tiny:
                    self.zero_tests += 1
                    return
            self.same(self.settle(x), self.settle(y), n)

    def sum(self, n, x, y):
        a, b = self.memo[x.id], self.memo[y.id]
        if a is BAD or b is BAD:
            return BAD
        if a is ANY or b is ANY or a == b or self.value(a) == self.value(b):
            return self.same(a, b, n)
        self.why.setdefault(n.id, 'degrees %s and %s meet in %s' % (self.value(a), self.value(b), T.show(n, 3)[:300]))
        return BAD

    def settle(self, n):
        """degree of a value whose parts do not scale alike: from its normal form"""
        d = self.memo[n.id]
        if d is not BAD:
            return d
        if n.id not in self.normals:
            r = self.normal(n)
            if r is BAD:
                r = self.logs(n)
            self.normals[n.id] = r
            if r is BAD:
                w = [self.why[k.id] for k in T.topo([n]) if k.id in self.why]
                self.failed.append('; '.join(w[:3]) or T.show(n, 3)[:300])
        self.memo[n.id] = ANY if self.normals[n.id] is BAD else self.normals[n.id]      # one report is enough
        return self.memo[n.id]

    def normal(self, n):
        """normal form with every input x replaced by s^deg(x) x: a power of s times something free of s?"""
        sp = ratf.Space(set(self.positive) | {'$s'}, expand_limit=30000)
        try:
            m, env = {}, {}
            for k in T.topo([n]):       # values behind functions (but logarithms) and branches are atoms of known degree
                if k.sort != 'f':
                    m[k.id] = k
                    continue
                if k.op == 'v' or k.op == 'ite' or k.op == 'fn' and k.args[0] not in ('log', 'sqrt'):
                    d = self.value(self.memo[k.id])
                    v = k
                    if k.op != 'v':
                        v = T.var('$%d' % k.id)
                        if k.op == 'fn' and k.args[0] == 'fabs':
                            sp.positive = set(sp.positive) | {v.args[0]}
                    m[k.id] = v
                    e = {('a', sp.atom(v.args[0])): 1}
                    if d:
                        if d.denominator != 1:
                            return BAD
                        e[('a', sp.atom('$s'))] = int(d)
                    env[v.args[0]] = (Fr(1), e)
                    continue
                m[k.id] = T.rebuild(k, [m[x.id] if type(x) is T.Node and x.id in m else x for x in k.args])
            c, fac = sp.ev([m[n.id]], env)[0]
            if not c:
                return ANY
            bad = {i for i, nm in enumerate(sp.atoms) if '$s' in nm}
            tot = Fr(0)
            for (t, i), e in fac.items():
                if t == 'a' and sp.atoms[i] == '$s':
                    tot += e
                elif t == 'a' and i in bad or t == 'f' and any(j in bad for mo in sp.fpoly[i] for j, _ in mo):
                    return BAD
            return (('1', tot),) if tot else ZERO
        except (ratf.Give, ArithmeticError, KeyError):
            return BAD

    def logs(self, n):
        """the shifts of the logarithms log x -> log x + deg(x) l cancel (derivative identically zero), and the rest scales"""
        m, deg, move, back = {}, dict(self.deg), {}, {}
        for k in T.topo([n]):
            if k.sort != 'f':
                m[k.id] = k
            elif k.op == 'ite' or k.op == 'fn' and (k.args[0] != 'sqrt' or self.memo[k.id] is BAD):
                v = '$%d' % k.id
                if k.op == 'fn' and k.args[0] == 'log':
                    x = self.memo[k.args[1].id]
                    if x is BAD:
                        return BAD
                    deg[v] = Fr(0)
                    back[v] = k
                    if x is not ANY and self.value(x):
                        move[v] = T.fconst(self.value(x))
                elif self.memo[k.id] is BAD:
                    return BAD
                else:
                    deg[v] = self.value(self.memo[k.id]) or Fr(0)
                m[k.id] = T.var(v)
            else:
                m[k.id] = T.rebuild(k, [m[x.id] if type(x) is T.Node and x.id in m else x for x in k.args])
        if not move:
            return BAD
        try:
            sp = ratf.Space(self.positive, expand_limit=400000)
            d = T.subst(diff.d([m[n.id]], move), back)[0]
            if d is not T.ZERO and sp.ev([d])[0][0]:
                return BAD
            sc = Scaling(deg, self.rules, self.tiny, self.positive)
            r = sc.run([m[n.id]])[0]
        except (ratf.Give, ArithmeticError, ValueError):
            return BAD
        if sc.failed or any(self_value != 0 for self_value in
                            [(sc.value(a) or 0) - (sc.value(b) or 0) for a, b in sc.con if a is not ANY and b is not ANY]):
            return BAD
        return r if r is ANY else (('1', sc.value(r)),) if sc.value(r) else ZERO

    def run(self, roots):
        m = self.memo
        for n in T.topo(roots):
            if n.id in m:
                continue
            self.nodes += 1
            self.keep.append(n)
            if n.sort != 'f':
                m[n.id] = ANY
                self.cond(n)
                continue
            o, a = n.op, n.args
            if o in ('add', 'sub'):
                r = self.sum(n, *a)
            elif o == 'mul':
                r = lin(m[a[0].id], m[a[1].id])
            elif o == 'div':
                r = ANY if m[a[0].id] is ANY else lin(m[a[0].id], m[a[1].id] or ZERO, -1)
            elif o == 'neg':
                r = m[a[0].id]
            elif o == 'ite':
                r = self.same(self.settle(a[1]), self.settle(a[2]), n)
            elif o == 'fn':
                r = self.fn(n, [m[x.id] if a[0] in ('log', 'sqrt', 'fabs') else self.settle(x) for x in a[1:]])
            else:
                r = self.atom(n)
            m[n.id] = r
        return [self.settle(r) for r in roots]

    def decide(self, rep, roots, want):
        """Z3: do the declared degrees entail the side conditions and the wanted degree of each root? -> failed [(text, root or None)]"""
        got = self.run([r for r in roots if isinstance(r, T.Node)])
        S = z3.Solver()
        S.set('timeout', 20000)
        v = {k: z3.Real('deg_' + k) for k in self.deg}
        v['1'] = z3.RealVal(1)
        for k, d in self.deg.items():
            S.add(v[k] == z3.RealVal(str(Fr(d))))

        def e(x):
            return sum((z3.RealVal(str(c)) * v[k] for k, c in x), z3.RealVal(0))
        claims = [(e(a) == e(b), 'degrees %s and %s meet in %s' % (self.value(a), self.value(b), T.show(n, 3)[:300])) for (a, b), n in self.con.items()]
        claims += [(e(g) == z3.RealVal(str(Fr(w))), 'degree %s, not %s' % (self.value(g), w)) for g, w in zip(got, want) if g is not ANY]
        S.add(z3.Not(z3.And([c for c, _ in claims])) if claims else z3.BoolVal(False))
        r = rep.query(S)
        if str(r) == 'unsat':
            return list(self.failed)
        if str(r) != 'sat':
            return self.failed + ['solver: ' + str(r)]
        mo = S.model()
        return self.failed + [t for c, t in claims if not z3.is_true(mo.eval(c, True))]
