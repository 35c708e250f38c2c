"""Code entry and reference entry of a harness, both executed symbolically over the same inputs (with the routines
beneath redirected to uninterpreted stand-ins), compared path by path and output by output; differences are replayed natively."""
import copy
import ctypes
import math
import random
import re
import z3
from . import build, check, par, ratf, smt, terms as T
from .execu import EngineError


def cstring(ex, st, p, mod):
    r = ''
    while True:
        c = ex.load(st, mod, ('i', 8), type(p)(p.obj, p.off + len(r)))
        if c == 0:
            return r
        r += chr(c)


def uf_stub(ex, st, a, i):
    tag = cstring(ex, st, a[0], i[2])
    n = a[2]
    args = [ex.load(st, i[2], ('f', 64), type(a[1])(a[1].obj, a[1].off + 8 * k)) for k in range(n)]
    return T.fn(tag, *args)


class Twin:
    """tus: IR translation units (harness first); redirects: {regex on the demangled name: stand-in | handler}"""

    def __init__(self, tus, redirects=(), native=None, names=par.NAMES, positive=(), setup=None, prune=False, rewrite=None):
        self.E = par.Entry(tus)
        self.redirects = list(redirects.items()) if isinstance(redirects, dict) else list(redirects)
        self.names, self.positive = names, positive
        self.extra_setup = setup
        self.native = native
        self.prune = prune
        self.rewrite = rewrite        # {terms} -> terms, applied to outputs before they are compared

    def setup(self, ex):
        if self.prune:
            ex.feasible = smt.Feasible()
        ex.stub('uf', uf_stub)
        for pat, h in self.redirects:
            ex.restub(pat, h)
        if self.extra_setup:
            self.extra_setup(ex)

    def run(self, fn, ints, nout, env=None, extra=()):
        return self.E.sym(fn, ints, nout, env=env, setup=self.setup, extra=extra, names=self.names)

    def compare(self, rep, name, code, ref, ints, labels, env=None, extra=(), points=None, assume=(), tol=1e-9, nat_extra=None,
                rel=1e-7, floor=None, alts=None, only0=False):
        """labels: names of the outputs; points(rng) -> dict of inputs for the native replay;
        only0: outputs mean something only where the entries return 0;
        alts {label: (index of a further reference output, finding key, text)}: deviations recorded as known findings"""
        alts = alts or {}
        n = len(labels) + len(alts)
        A = self.run(code, ints, n, env, extra)
        B = self.run(ref, ints, n, env, extra)
        A, B = self.split(A), self.split(B)
        assume = assume() if callable(assume) else assume
        diffs = []
        hints = []
        S = smt.Smt()
        self.K = smt.Checker(rep)
        feas = 0
        la = {id(o): lits(o.st.pc) for o, _ in A}
        nb = {id(o): {-x for x in lits(o.st.pc)} for o, _ in B}
        for oa, ta in A:
            for ob, tb in B:
                pcs = [c for c in list(oa.st.pc) + list(ob.st.pc) + list(assume) if c is not True]
                if la[id(oa)] & nb[id(ob)]:
                    continue                      # a condition against its negation
                if pcs and self.K.unsat([(c, True) for c in pcs]):
                    continue
                feas += 1
                n0 = len(diffs)
                self.pend = []
                if oa.kind == 'ret' and not self.same_val(rep, S, pcs, oa.val, ob.val):
                    diffs.append('return value %s instead of %s' % (str(oa.val)[:40], str(ob.val)[:40]))
                    hints.append(hint(S, pcs))
                    continue
                if oa.kind != ob.kind:
                    diffs.append('%s instead of %s' % (oa.kind, ob.kind))
                    hints.append(hint(S, pcs))
                    continue
                if oa.kind != 'ret':
                    rep.ok('%s: both leave with an exception' % name)
                    continue
                if only0 and oa.val != 0:
                    rep.ok('%s: both refuse' % name)
                    continue
                self.outputs(rep, name, labels, ta, tb, pcs, diffs, tol, alts)
                if len(diffs) > n0 and len(hints) < 12:
                    for cs in self.pend or [[]]:
                        hints.append(hint(S, pcs, cs))
        rep.witness('%s: reachable' % name, feas > 0)
        if diffs:
            self.replay(rep, name, code, ref, ints, labels, diffs, points, nat_extra, rel, floor, alts, hints)
        return not diffs

    @staticmethod
    def split(outs):
        """a return value chosen by conditions: one outcome per value"""
        r, work = [], list(outs)
        while work:
            o, t = work.pop(0)
            if o.kind != 'ret' or not isinstance(o.val, T.Node) or o.val.op != 'ite' or len(r) > 200:
                r.append((o, t))
                continue
            c, x, y = o.val.args
            for b, v in ((c, x), (T.bnot(c), y)):
                if b is not False:
                    p = copy.copy(o)
                    p.st = o.st.fork()
                    p.st.pc = o.st.pc + (() if b is True else (b,))
                    p.val = v
                    work.append((p, t))
        return r

    def outputs(self, rep, name, labels, ta, tb, pcs, diffs, tol, alts=()):
        sp = ratf.Space(self.positive)
        dec = self.decider(rep, pcs)
        for lab, x, y in zip(labels, ta, tb):
            if lab in alts:
                k, key, text = alts[lab]
                sub = []
                if x is not y:
                    self.outputs(check.Sub(rep), name, [lab], [x], [y], pcs, sub, tol)
                if sub:
                    z = tb[k]
                    sub = []
                    if x is not z:
                        self.outputs(rep, name, [lab + ' as recorded'], [x], [z], pcs, sub, tol)
                    if sub:
                        diffs += sub
                    else:
                        rep.known_or_violation('%s: %s' % (name, lab), key, text, {'output': lab})
                    continue
                rep.ok('%s: %s' % (name, lab))
                continue
            if x is y or (unset(x) and unset(y)) or (not isinstance(x, T.Node) and not isinstance(y, T.Node) and x == y):
                rep.ok('%s: %s' % (name, lab))
                continue
            if x is None or y is None:
                diffs.append(lab + ' is not set')
                continue
            decided = {c.id: True for c in pcs if isinstance(c, T.Node)}
            for c in pcs:
                if isinstance(c, T.Node) and c.op == 'not' and isinstance(c.args[0], T.Node):
                    decided[c.args[0].id] = False
            try:
                cs = smt.cases(smt.replace([x, y], decided), decide=dec)
            except ValueError as e:
                diffs.append('%s: %s' % (lab, e))
                continue
            good = True
            for conds, (u, w) in cs:
                if self.rewrite:
                    u, w = self.rewrite([u, w])
                if u is w:
                    continue
                bad = []
                ratf.equal(rep, '%s: %s' % (name, lab), u, w, space=sp, on_diff=bad.append, tol=tol)
                if bad and self.zequal(rep, pcs, conds, u, w):
                    continue
                if bad:
                    good = False
                    diffs.append('%s: %s' % (lab, bad[0]))
                    self.pend.append(conds)
                    break
            if good:
                rep.ok('%s: %s' % (name, lab))

    def same_val(self, rep, S, pcs, a, b):
        if a is b or (not isinstance(a, T.Node) and not isinstance(b, T.Node)):
            return a is b or a == b
        za, zb = [S(x) if isinstance(x, T.Node) else x for x in (a, b)]
        if not isinstance(a, T.Node):
            za = z3.BitVecVal(a, zb.size())
        if not isinstance(b, T.Node):
            zb = z3.BitVecVal(b, za.size())
        s = smt.solver(10000)
        for x in S.ax:
            s.add(x)
        s.add([S.b(z) for z in S.many(list(pcs))] + [za != zb])
        return rep.query(s) == z3.unsat

    def zequal(self, rep, pcs, conds, u, w):
        """equal on the domain of this case, though not as formulas?"""
        try:
            c = T.fcmp('une', T._lift(u), T._lift(w))
            if type(c) is bool:
                return not c
            return smt.Checker(rep, 5000).unsat([(x, True) for x in pcs] + list(conds) + [(c, True)], c)
        except EngineError:
            return False

    def decider(self, rep, pcs):
        base = [(c, True) for c in pcs]
        K = self.K
        memo = {}

        def decide(at, cs):
            key = (at.id, frozenset((c.id, v) for c, v in cs))
            if key not in memo:
                memo[key] = None
                for v in (True, False):
                    if K.unsat(base + cs + [(at, not v)], at):
                        memo[key] = v
                        break
            return memo[key]
        return decide

    def replay(self, rep, name, code, ref, ints, labels, diffs, points, nat_extra, rel, floor, alts=(), hints=()):
        rng = random.Random(rep.seed)
        nat = self.native() if callable(self.native) else self.native
        tried = 0
        for k in range(300):
            p = points(rng, k) if points else default_point(rng, k)
            if k >= 10 and hints and k % 2:
                p.update(hints[k // 2 % len(hints)])      # inputs which follow the deviating path
            ex = nat_extra(rng, k) if nat_extra else ()
            ii = [rng.randint(-2, 5) if isinstance(x, T.Node) else x for x in ints]
            ra, va = nat(code, p, ii, len(labels) + len(alts), names=self.names, extra=ex)
            rb, vb = nat(ref, p, ii, len(labels) + len(alts), names=self.names, extra=ex)
            rep.replays += 1
            tried += 1
            if ra != rb:
                rep.violate(name, 'the code %s, the reference %s' % (('throws' if ra else 'returns'), 'throws' if rb else 'returns'),
                            {'point': p, 'ints': list(ii), 'extra': list(ex)})
                return
            if ra:
                continue
            for q, lab in enumerate(labels):
                if lab in alts and check.close(va[q], vb[alts[lab][0]], rel, 1e-300):
                    continue
                f = floor(p, lab, va, vb) if floor else 1e-12
                if not check.close(va[q], vb[q], rel, f):
                    rep.violate('%s: %s' % (name, lab), 'code %.12g, reference %.12g' % (va[q], vb[q]),
                                {'point': p, 'ints': list(ii), 'extra': list(ex), 'output': lab, 'code': va[q], 'reference': vb[q]})
                    return
        rep.unknown(name, 'symbolic difference (%s) not reproduced natively at %d points' % ('; '.join(diffs[:3]), tried))


def lits(pc):
    r = set()
    for c in pc:
        for x in (c.args if isinstance(c, T.Node) and c.op == 'and' else (c,)):
            if isinstance(x, T.Node):
                r.add(-x.args[0].id if x.op == 'not' else x.id)
    return r


def unset(x):
    return isinstance(x, T.Node) and x.op == 'v' and x.args[0].startswith('undef#')


def hint(S, pcs, cs=()):
    """values of the parameters a path condition speaks about, from a model near the default point"""
    s = smt.solver(3000)
    s.add([S.b(z) for z in S.many([c for c in pcs])])
    s.add([S.b(z) if v else z3.Not(S.b(z)) for z, (_, v) in zip(S.many([c for c, _ in cs]), cs)])
    for x in S.ax:
        s.add(x)
    near = {}
    for n in par.POINT:
        if n in S.vars:
            v = par.POINT[n]
            near[z3.Bool('near_' + n)] = z3.And(S.vars[n] >= min(0.7 * v, 1.3 * v), S.vars[n] <= max(0.7 * v, 1.3 * v))
    for b, c in near.items():
        s.add(z3.Implies(b, c))
    lits = list(near)
    for _ in range(40):
        r = s.check(*lits)
        if r == z3.sat:
            break
        core = set(str(x) for x in s.unsat_core()) if r == z3.unsat else set()
        if not core:
            return {}
        lits = [x for x in lits if str(x) not in core]
    else:
        return {}
    m = s.model()
    out = {}
    for n, v in S.vars.items():
        if n in par.POINT:
            x = m.eval(v, model_completion=False)
            if z3.is_rational_value(x):
                out[n] = float(x.as_fraction())
            elif z3.is_algebraic_value(x):
                out[n] = float(x.approx(20).as_fraction())
    used = vars_of(list(pcs) + [c for c, _ in cs])
    return {n: v for n, v in out.items() if n in used}


def vars_of(ts):
    return {n.args[0] for n in T.topo([t for t in ts if isinstance(t, T.Node)]) if n.op == 'v'}


def default_point(rng, k):
    p = dict(par.POINT)
    if k:
        for n in p:
            p[n] *= math.exp(rng.uniform(-0.25, 0.25))
    for a in ('MSt', 'MSb', 'MStau'):
        if p[a + '0'] > p[a + '1']:
            p[a + '0'], p[a + '1'] = p[a + '1'], p[a + '0']
    for a in ('s2t', 's2b', 's2tau'):
        t = rng.uniform(-0.7, 0.7)
        p['theta_' + a[2:]] = t
        p[a] = math.sin(2 * t)
    return p
