"""Flat parameter vector of harness/par.hpp and calls of harness entries of the form
int f(const double* par, const int* flags, double* out)."""
import ctypes
from . import build, terms as T
from .execu import Exec, State, Ptr, EngineError

NAMES = ("scale mu g1 g2 g3 vd vu mq20 mq21 mq22 md20 md21 md22 mu20 mu21 mu22 ml20 ml21 ml22 me20 me21 me22 Au Ad Ae "
         "Yu Yd Ye M1 M2 MG MW MZ Mt Mb Mtau MA MSt0 MSt1 MSb0 MSb1 MStau0 MStau1 s2t s2b s2tau theta_t theta_b "
         "theta_tau").split()
# a typical, valid point (GeV)
POINT = dict(scale=1500., mu=900., g1=0.46, g2=0.64, g3=1.05, vd=24., vu=240., mq20=2.2e6, mq21=2.2e6, mq22=2.0e6,
             md20=2.3e6, md21=2.3e6, md22=2.4e6, mu20=2.1e6, mu21=2.1e6, mu22=1.4e6, ml20=1.0e6, ml21=1.0e6, ml22=9e5,
             me20=1.1e6, me21=1.1e6, me22=8e5, Au=1700., Ad=400., Ae=300., Yu=0.85, Yd=0.12, Ye=0.1, M1=300., M2=500.,
             MG=1700., MW=79., MZ=90., Mt=144., Mb=2.2, Mtau=1.7, MA=1100., MSt0=1150., MSt1=1450., MSb0=1400., MSb1=1560.,
             MStau0=890., MStau1=960., s2t=0.6, s2b=-0.2, s2tau=0.3, theta_t=0.32, theta_b=-0.1, theta_tau=0.15)


def symenv(**kw):
    e = {n: T.var(n) for n in NAMES}
    for k, v in kw.items():
        e[k] = v if isinstance(v, T.Node) else T.fconst(v)
    return e


class Entry:
    """tus: IR translation units; the first one is the harness"""

    def __init__(self, tus):
        self.tus = tus
        self.ms = build.modules(*tus)
        self.steps = 0
        self.funcs = {}

    def sym(self, name, ints, nout, env=None, setup=None, extra=(), names=NAMES, keep=None):
        """-> [(Outcome, [terms])]; ints may contain symbolic ints"""
        ex = Exec(self.ms)
        if setup:
            setup(ex)
        st = State()
        env = env or {n: T.var(n) for n in names}
        vals = [env[n] for n in names] + list(extra)
        pp = ex.new_obj(st, 8 * max(1, len(vals)))
        ip = ex.new_obj(st, 4 * max(1, len(ints)))
        op = ex.new_obj(st, 8 * max(1, nout), None)
        for i, v in enumerate(vals):
            ex.store(st, self.ms[0], ('f', 64), v, Ptr(pp.obj, 8 * i))
        for i, v in enumerate(ints):
            ex.store(st, self.ms[0], ('i', 32), v, Ptr(ip.obj, 4 * i))
        if keep is not None:
            keep['ex'] = ex
        ex.call_fn(st, name, [pp, ip, op])
        outs = ex.run(st)
        self.steps += ex.steps
        for k, v in ex.called.items():
            self.funcs[ex.dem(k)] = self.funcs.get(ex.dem(k), 0) + v
        res = []
        for o in outs:
            r = []
            for i in range(nout):
                r.append(ex.load(o.st, self.ms[0], ('f', 64), Ptr(op.obj, 8 * i)))
            res.append((o, r))
        return res

    def sym1(self, *a, **k):
        r = self.sym(*a, **k)
        if len(r) != 1 or r[0][0].kind != 'ret':
            raise EngineError('unexpected outcomes %r' % [(o.kind, o.info) for o, _ in r])
        return r[0][1]

    def note(self, rep):
        rep.steps += self.steps
        for k, v in self.funcs.items():
            rep.funcs[k] = rep.funcs.get(k, 0) + v
        self.steps, self.funcs = 0, {}


class Native:
    def __init__(self, name, tus, link=()):
        self.so = ctypes.CDLL(build.shared(name, list(tus) + ['guard.cpp'], link=link))

    def __call__(self, fn, vals, ints, nout, names=NAMES, extra=()):
        v = [float(vals[n]) for n in names] + [float(x) for x in extra]
        P = (ctypes.c_double * max(1, len(v)))(*v)
        I = (ctypes.c_int * max(1, len(ints)))(*[int(x) for x in ints])
        O = (ctypes.c_double * max(1, nout))()
        r = self.so.guarded(getattr(self.so, fn), P, I, O)
        return r, list(O)
