"""Terms -> Z3 (reals; library functions uninterpreted; sqrt and fabs axiomatised on demand) and case splits."""
from fractions import Fraction
import z3
from . import terms as T


class Smt:
    def __init__(self, rationalise=True):
        self.memo = {}
        self.ufs = {}
        self.ax = []        # side conditions (definitions of sqrt/fabs/div results)
        self.keep = []
        self.rat = rationalise
        self.vars = {}
        self.strict = True

    def uf(self, name, n):
        k = (name, n)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(str(name), *([z3.RealSort()] * (n + 1)))
        return self.ufs[k]

    def real(self, name):
        if name not in self.vars:
            self.vars[name] = z3.Real(name)
        return self.vars[name]

    def __call__(self, root):
        return self.many([root])[0]

    def many(self, roots):
        from .ring import rat
        m = self.memo

        def g(x):
            if type(x) is T.Node:
                return m[x.id]
            return x
        for n in T.topo(roots):
            if n.id in m:
                continue
            o, a = n.op, n.args
            if o == 'c':
                r = z3.RealVal(rat(a[0]) if self.rat else a[0])
            elif o == 'negzero':
                r = z3.RealVal(0)
            elif o == 'v':
                r = self.real(a[0])
            elif o == 'iv':
                r = z3.BitVec(a[0], a[1]) if len(a) > 1 else z3.BitVec(a[0], n.sort[1])
            elif o == 'bv':
                r = z3.Bool(a[0])
            elif o == 'add':
                r = g(a[0]) + g(a[1])
            elif o == 'sub':
                r = g(a[0]) - g(a[1])
            elif o == 'mul':
                r = g(a[0]) * g(a[1])
            elif o == 'div':
                y = g(a[1])
                if a[1].op == 'c':
                    r = g(a[0]) / y
                else:
                    r = self.uf('div', 2)(g(a[0]), y)
                    self.ax.append(z3.Implies(y != 0, r * y == g(a[0])))
            elif o == 'neg':
                r = -g(a[0])
            elif o == 'fn':
                if a[0] == 'fabs':
                    x = g(a[1])
                    r = z3.If(x >= 0, x, -x)
                else:
                    r = self.uf(a[0], len(a) - 1)(*[g(x) for x in a[1:]])
                    if a[0] == 'sqrt':
                        x = g(a[1])
                        self.ax.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            elif o == 'ite':
                c, x, y = g(a[0]), g(a[1]), g(a[2])
                if type(n.sort) is tuple:
                    w = n.sort[1]
                    x = z3.BitVecVal(x, w) if isinstance(x, int) else x
                    y = z3.BitVecVal(y, w) if isinstance(y, int) else y
                if n.sort == 'b':
                    x, y = self.b(x), self.b(y)
                r = z3.If(self.b(c), x, y)
            elif o == 'fcmp':
                x, y = g(a[1]), g(a[2])
                p = a[0]
                if p == 'ord':
                    r = z3.BoolVal(True)
                elif p == 'uno':
                    r = z3.BoolVal(False)
                else:
                    r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
            elif o == 'icmp':
                r = self.icmp(a[0], a[1], g(a[2]), g(a[3]))
            elif o == 'iop':
                r = self.iop(a[0], a[1], g(a[2]), g(a[3]))
            elif o == 'icast':
                x = g(a[3])
                if a[0] == 'zext' and a[1] == 1:
                    r = z3.If(self.b(x), z3.BitVecVal(1, a[2]), z3.BitVecVal(0, a[2]))
                elif a[0] == 'sext' and a[1] == 1:
                    r = z3.If(self.b(x), z3.BitVecVal(-1, a[2]), z3.BitVecVal(0, a[2]))
                elif a[0] == 'zext':
                    r = z3.ZeroExt(a[2] - a[1], x)
                elif a[0] == 'sext':
                    r = z3.SignExt(a[2] - a[1], x)
                else:
                    r = z3.Extract(a[2] - 1, 0, x)
            elif o in ('sitofp', 'uitofp'):
                r = z3.ToReal(z3.BV2Int(g(a[1]), o == 'sitofp'))
            elif o == 'and':
                r = z3.And([self.b(g(x)) for x in a])
            elif o == 'or':
                r = z3.Or([self.b(g(x)) for x in a])
            elif o == 'not':
                r = z3.Not(self.b(g(a[0])))
            elif o in ('nan', 'inf'):
                r = self.real('_%s%s' % (o, a[0] if a else ''))
            else:
                raise ValueError('smt: ' + o)
            m[n.id] = r
            self.keep.append(n)
        return [g(r) if type(r) is T.Node else r for r in roots]

    @staticmethod
    def b(x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    @staticmethod
    def bv(x, w):
        return z3.BitVecVal(x, w) if isinstance(x, int) else x

    def icmp(self, p, w, x, y):
        if w == 1:
            x, y = self.b(bool(x) if isinstance(x, int) else x), self.b(bool(y) if isinstance(y, int) else y)
            return x == y if p == 'eq' else x != y
        x, y = self.bv(x, w), self.bv(y, w)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
                'sgt': lambda: x > y, 'sge': lambda: x >= y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[p]()

    def iop(self, op, w, x, y):
        if w == 1:
            x, y = self.b(bool(x) if isinstance(x, int) else x), self.b(bool(y) if isinstance(y, int) else y)
            return {'and': lambda: z3.And(x, y), 'or': lambda: z3.Or(x, y), 'xor': lambda: z3.Xor(x, y)}[op]()
        x, y = self.bv(x, w), self.bv(y, w)
        return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
                'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
                'ashr': lambda: x >> y, 'sdiv': lambda: x / y, 'udiv': lambda: z3.UDiv(x, y),
                'srem': lambda: z3.SRem(x, y), 'urem': lambda: z3.URem(x, y)}[op]()


def solver(ms=20000, logic=None):
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set('timeout', ms)
    return s


def prove(rep, claim, assume=(), smt=None, ms=20000):
    """-> (True|False|None, model)"""
    s = solver(ms)
    for a in (smt.ax if smt else ()):
        s.add(a)
    for a in assume:
        s.add(a)
    s.add(z3.Not(claim))
    r = rep.query(s)
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        return False, s.model()
    return None, None


# ------------------------------------------------------------------ case splits
def replace(roots, dec):
    """dec: node id -> bool for boolean nodes"""
    memo = {}
    for n in T.topo(roots):
        if n.id in dec:
            memo[n.id] = dec[n.id]
            continue
        memo[n.id] = T.rebuild(n, [memo[x.id] if type(x) is T.Node else x for x in n.args])
    return [memo[r.id] if type(r) is T.Node else r for r in roots]


def open_atom(roots):
    """an undecided comparison that an ite below the roots depends on (topmost first)"""
    order = T.topo(roots)
    for n in reversed(order):
        if n.op == 'ite':
            for m in T.topo([n.args[0]]):
                if m.op in ('fcmp', 'bv', 'icmp') and not any(
                        type(x) is T.Node and k.op == 'ite' for x in m.args if type(x) is T.Node for k in T.topo([x])):
                    return m
    for n in order:
        if n.op == 'ite':
            for m in T.topo([n.args[0]]):
                if m.op in ('fcmp', 'bv', 'icmp'):
                    return m
    return None


def cases(roots, decide=None, limit=256):
    """split on the comparisons the roots depend on -> [([(cond, bool)], roots)]
    decide(cond) may return True/False to prune, None to split"""
    out = []
    work = [([], list(roots))]
    while work:
        cs, rs = work.pop()
        at = open_atom([r for r in rs if type(r) is T.Node])
        if at is None:
            out.append((cs, rs))
            if len(out) > limit:
                raise ValueError('too many cases')
            continue
        d = decide(at, cs) if decide else None
        for v in ((True, False) if d is None else (d,)):
            r2 = replace([r for r in rs if type(r) is T.Node], {at.id: v})
            it = iter(r2)
            work.append((cs + [(at, v)], [next(it) if type(r) is T.Node else r for r in rs]))
    return out


class Feasible:
    """branch pruning: is the condition possible under the path condition? (unknown counts as possible)"""

    def __init__(self, timeout=2000):
        self.S = Smt()
        self.timeout = timeout
        self.memo = {}
        self.queries = 0

    def __call__(self, pc, c):
        key = (tuple(x.id if type(x) is T.Node else x for x in pc), c.id if type(c) is T.Node else c)
        if key not in self.memo:
            try:
                zs = self.S.many([x for x in list(pc) + [c] if type(x) is T.Node])
                s = solver(self.timeout)
                for x in self.S.ax:
                    s.add(x)
                s.add([self.S.b(z) for z in zs])
                self.queries += 1
                self.memo[key] = s.check() != z3.unsat
            except Exception:
                self.memo[key] = True
        return self.memo[key]


class Checker:
    """is a conjunction of conditions impossible? Decided per group of conditions which share variables, remembered per group"""

    def __init__(self, rep, ms=10000):
        self.rep, self.ms = rep, ms
        self.memo = {}
        self.fv = {}

    def vars(self, n):
        if n.id not in self.fv:
            self.fv[n.id] = frozenset(m.args[0] for m in T.topo([n]) if m.op in ('v', 'iv', 'bv'))
        return self.fv[n.id]

    def groups(self, conds, seed=None):
        flat = []
        for n, v in conds:
            if type(n) is not T.Node:
                if bool(n) != v:
                    return None
                continue
            while n.op == 'not' and type(n.args[0]) is T.Node:
                n, v = n.args[0], not v
            if n.op == 'and' and v or n.op == 'or' and not v:
                for x in n.args:
                    while type(x) is T.Node and x.op == 'not':
                        flat.append((x.args[0], not v))
                        break
                    else:
                        flat.append((x, v))
            else:
                flat.append((n, v))
        have = {n.id: v for n, v in flat}
        if any(have[n.id] != v for n, v in flat):
            return None
        gs = []
        for n, v in flat:
            vs, mem = set(self.vars(n)), [(n, v)]
            rest = []
            for g in gs:
                if g[0] & vs:
                    vs |= g[0]
                    mem = g[1] + mem
                else:
                    rest.append(g)
            gs = rest + [(vs, mem)]
        if seed is not None:
            sv = self.vars(seed)
            gs = [g for g in gs if g[0] & sv or not sv]
        return gs

    def unsat(self, conds, seed=None):
        """conds: [(node, bool)]; seed: only the group of this node"""
        gs = self.groups(conds, seed)
        return gs is None or any(self.group(g[1]) for g in gs)

    def group(self, mem):
        key = frozenset((n.id, v) for n, v in mem)
        if key not in self.memo:
            try:
                S = Smt()
                zs = S.many([n for n, _ in mem])
                s = solver(self.ms)
                for x in S.ax:
                    s.add(x)
                s.add([S.b(z) if v else z3.Not(S.b(z)) for z, (_, v) in zip(zs, mem)])
                self.memo[key] = self.rep.query(s) == z3.unsat
            except Exception:
                self.memo[key] = False
        return self.memo[key]
