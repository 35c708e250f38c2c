"""Hash-consed terms.

Sorts: floats 'f', integers ('i',w), booleans 'b'.
  float : c (Fraction) | nan | inf(+1/-1) | v name | add sub mul div neg | fn name args | ite | sitofp/uitofp
  int   : python int (constant) | iv (name,w) | iop | icast | fptosi | ite
  bool  : python bool           | bv name | fcmp | icmp | and or not | ite
"""
import math
from fractions import Fraction

_tab = {}
_cnt = [0]
MODE = ['real']        # 'real' or 'fp': constant folding policy


class Node:
    __slots__ = ('op', 'args', 'id', 'sort')

    def __repr__(self):
        return show(self, 4)


def reset():
    _tab.clear()


def mk(op, args, sort):
    key = (op, tuple(a.id if type(a) is Node else ('k', a) for a in args), sort)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.sort = sort
        _cnt[0] += 1
        n.id = _cnt[0]
        _tab[key] = n
    return n


def show(n, d=6):
    if type(n) is not Node:
        return str(n)
    if n.op == 'c':
        f = n.args[0]
        return str(f) if f.denominator < 1000 else repr(float(f))
    if n.op in ('v', 'iv', 'bv'):
        return str(n.args[0])
    if d == 0:
        return '...'
    return '(%s %s)' % (n.op, ' '.join(show(a, d - 1) for a in n.args))


def is_const(n):
    return type(n) is not Node or n.op in ('c', 'nan', 'inf')


def fconst(x):
    """float or Fraction -> node"""
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return mk('inf', (1 if x > 0 else -1,), 'f')
        if MODE[0] == 'fp' and x == 0 and math.copysign(1, x) < 0:
            return mk('negzero', (), 'f')
        return mk('c', (Fraction(x),), 'f')
    return mk('c', (Fraction(x),), 'f')


NAN = None


def _init():
    global NAN, ZERO, ONE
    NAN = mk('nan', (), 'f')
    ZERO = fconst(0)
    ONE = fconst(1)


def var(name):
    return mk('v', (name,), 'f')


def ivar(name, w=32):
    return mk('iv', (name, w), ('i', w))


def bvar(name):
    return mk('bv', (name,), 'b')


def cval(n):
    return n.args[0]


def fl(n):
    """constant node -> python float"""
    if n.op == 'c':
        return float(n.args[0])
    if n.op == 'nan':
        return math.nan
    if n.op == 'negzero':
        return -0.0
    return math.inf * n.args[0]


def _fp():
    return MODE[0] == 'fp'


def _special(n):
    return n.op in ('nan', 'inf', 'negzero')


def _cfold(op, a, b):
    x, y = fl(a), fl(b)
    try:
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x / y
    except ZeroDivisionError:
        r = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
    except OverflowError:
        r = math.inf
    return fconst(r)


def fbin(op, a, b):
    ca = a.op == 'c'
    cb = b.op == 'c'
    if _fp() or _special(a) or _special(b):
        if (ca or _special(a)) and (cb or _special(b)):
            return _cfold(op, a, b)
        if not _fp() and (a.op == 'nan' or b.op == 'nan'):
            return NAN
        return mk(op, (a, b), 'f')
    if ca and cb:
        x, y = a.args[0], b.args[0]
        if op == 'add':
            return fconst(x + y)
        if op == 'sub':
            return fconst(x - y)
        if op == 'mul':
            return fconst(x * y)
        if y != 0:
            return fconst(x / y)
        return _cfold(op, a, b)
    if op == 'add':
        if ca and a.args[0] == 0:
            return b
        if cb and b.args[0] == 0:
            return a
    elif op == 'sub':
        if cb and b.args[0] == 0:
            return a
        if ca and a.args[0] == 0:
            return fneg(b)
        if a is b:
            return ZERO
    elif op == 'mul':
        if ca:
            if a.args[0] == 0:
                return ZERO
            if a.args[0] == 1:
                return b
            if a.args[0] == -1:
                return fneg(b)
        if cb:
            if b.args[0] == 0:
                return ZERO
            if b.args[0] == 1:
                return a
            if b.args[0] == -1:
                return fneg(a)
        if b.id < a.id:
            a, b = b, a
    elif op == 'div':
        if cb and b.args[0] == 1:
            return a
        if ca and a.args[0] == 0:
            return ZERO
        if cb and b.args[0] == -1:
            return fneg(a)
    if op == 'add' and b.id < a.id:
        a, b = b, a
    return mk(op, (a, b), 'f')


def fneg(a):
    if a.op == 'c':
        if _fp() and a.args[0] == 0:
            return fconst(-0.0)
        return fconst(-a.args[0])
    if a.op == 'nan':
        return a
    if a.op == 'negzero':
        return fconst(0.0)
    if a.op == 'inf':
        return mk('inf', (-a.args[0],), 'f')
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), 'f')


def fadd(a, b):
    return fbin('add', a, b)


def fsub(a, b):
    return fbin('sub', a, b)


def fmul(a, b):
    return fbin('mul', a, b)


def fdiv(a, b):
    return fbin('div', a, b)


def fn(name, *args):
    if name == 'fabs':
        a = args[0]
        if a.op == 'c':
            return fconst(abs(a.args[0]))
        if a.op == 'nan':
            return a
        if a.op == 'negzero':
            return fconst(0.0)
        if a.op == 'inf':
            return mk('inf', (1,), 'f')
        if a.op == 'fn' and a.args[0] == 'fabs':
            return a
        if a.op == 'neg':
            return fn('fabs', a.args[0])
        return mk('fn', ('fabs', a), 'f')
    if name == 'pow' and not _fp():
        x, y = args
        if y.op == 'c' and y.args[0].denominator == 1 and abs(y.args[0]) <= 16:
            k = int(y.args[0])
            r = ONE
            for _ in range(abs(k)):
                r = fmul(r, x)
            return r if k >= 0 else fdiv(ONE, r)
        if y.op == 'c' and y.args[0] == Fraction(1, 2):
            return fn('sqrt', x)
    if not _fp():
        if name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'log', 'exp') and args[0].op == 'nan':
            return args[0]
        if name == 'log' and args[0].op == 'c' and args[0].args[0] == 1:
            return ZERO
        if name in ('sin', 'tan', 'atan', 'asin') and args[0].op == 'c' and args[0].args[0] == 0:
            return ZERO
        if name == 'sqrt' and args[0].op == 'c' and args[0].args[0] >= 0:
            f = args[0].args[0]
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return fconst(Fraction(p, q))
        if name == 'tan' and args[0].op == 'fn' and args[0].args[0] == 'atan':
            return args[0].args[1]
    elif all(a.op in ('c', 'nan', 'inf', 'negzero') for a in args) and name in ('sqrt', 'log'):
        x = fl(args[0])
        try:
            return fconst(math.sqrt(x) if name == 'sqrt' else math.log(x))
        except ValueError:
            return NAN if x != 0 else mk('inf', (-1,), 'f')
    return mk('fn', (name,) + tuple(args), 'f')


# ------------------------------------------------------------------ booleans
def bnot(a):
    if type(a) is not Node:
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'b')


def _flat(op, args):
    out = []
    for a in args:
        if type(a) is Node and a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def band(*args):
    out = []
    seen = set()
    for a in _flat('and', args):
        if type(a) is not Node:
            if not a:
                return False
            continue
        if a.id in seen:
            continue
        seen.add(a.id)
        out.append(a)
    for a in out:
        if a.op == 'not' and a.args[0].id in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('and', tuple(out), 'b')


def bor(*args):
    out = []
    seen = set()
    for a in _flat('or', args):
        if type(a) is not Node:
            if a:
                return True
            continue
        if a.id in seen:
            continue
        seen.add(a.id)
        out.append(a)
    for a in out:
        if a.op == 'not' and a.args[0].id in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    # factor common conjuncts:  (p & x) | (p & y) -> p & (x|y)
    sets = [set(x.id for x in (a.args if a.op == 'and' else (a,))) for a in out]
    common = set.intersection(*sets)
    if common:
        byid = {}
        rest = []
        for a in out:
            parts = a.args if a.op == 'and' else (a,)
            for x in parts:
                byid[x.id] = x
            rest.append(band(*[x for x in parts if x.id not in common]))
        return band(*([byid[i] for i in sorted(common)] + [bor(*rest)]))
    # absorb: a | (not a & y) -> a | y
    for i, a in enumerate(out):
        if a.op == 'and':
            parts = [x for x in a.args if bnot(x).id not in seen]
            if len(parts) < len(a.args):
                return bor(*(out[:i] + [band(*parts)] + out[i + 1:]))
    out.sort(key=lambda x: x.id)
    return mk('or', tuple(out), 'b')


def ite(c, a, b):
    """works for any sort; a, b may be python constants"""
    if type(c) is not Node:
        return a if c else b
    if a is b or (type(a) is not Node and type(b) is not Node and a == b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    srt = a.sort if type(a) is Node else (b.sort if type(b) is Node else None)
    if srt is None:
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else bnot(c)
        raise ValueError('ite on int constants needs a width')
    if srt == 'b':
        return bor(band(c, a), band(bnot(c), b))
    if type(a) is Node and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if type(b) is Node and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), srt)


def iite(c, a, b, w):
    if type(c) is not Node:
        return a if c else b
    if type(a) is not Node and type(b) is not Node:
        if a == b:
            return a
        return mk('ite', (c, a, b), ('i', w))
    return ite(c, a, b)


def fcmp(pred, a, b):
    """IEEE predicate; in real mode everything but explicit nan constants is ordered"""
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    ca = a.op in ('c', 'nan', 'inf', 'negzero')
    cb = b.op in ('c', 'nan', 'inf', 'negzero')
    if ca and cb:
        if a.op == 'c' and b.op == 'c':
            x, y = a.args[0], b.args[0]
        else:
            x, y = fl(a), fl(b)
        un = x != x or y != y
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        o, rel = pred[0], pred[1:]
        if un:
            return o == 'u'
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[rel]
    if not _fp():
        if a.op == 'nan' or b.op == 'nan':
            return pred[0] == 'u'
        if pred == 'ord':
            return True
        if pred == 'uno':
            return False
        rel = pred[1:]
        for x, y, r in ((a, b, rel), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(rel, rel))):
            if y.op == 'inf':
                if r == 'eq':
                    return False
                if r == 'ne':
                    return True
                return (r in ('lt', 'le')) == (y.args[0] > 0)
        if a is b:
            return rel in ('eq', 'le', 'ge')
        # canonical forms: lt, le, eq only
        if rel == 'gt':
            return fcmp('olt', b, a)
        if rel == 'ge':
            return fcmp('ole', b, a)
        if rel == 'ne':
            return bnot(fcmp('oeq', a, b))
        if rel == 'le':
            return bnot(mk('fcmp', ('olt', b, a), 'b'))
        if rel == 'eq' and b.id < a.id:
            a, b = b, a
        return mk('fcmp', ('o' + rel, a, b), 'b')
    # fp: canonicalise
    if pred in ('ord', 'uno'):
        if pred == 'uno':
            return bnot(fcmp('ord', a, b))
        if cb and b.op != 'nan' and ca is False:
            b = a
        return mk('fcmp', ('ord', a, b), 'b')
    if pred[0] == 'u':
        inv = {'ueq': 'one', 'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt'}[pred]
        return bnot(fcmp(inv, a, b))
    if pred == 'ogt':
        return fcmp('olt', b, a)
    if pred == 'oge':
        return fcmp('ole', b, a)
    if a.op == 'nan' or b.op == 'nan':
        return False
    return mk('fcmp', (pred, a, b), 'b')


# ------------------------------------------------------------------ integers
def _s(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def ibin(op, w, a, b):
    if w == 1:
        a_, b_ = tobool(a), tobool(b)
        if op == 'and':
            return band(a_, b_)
        if op == 'or':
            return bor(a_, b_)
        if op in ('xor', 'add', 'sub'):
            if type(b_) is not Node:
                return bnot(a_) if b_ else a_
            if type(a_) is not Node:
                return bnot(b_) if a_ else b_
            return bor(band(a_, bnot(b_)), band(bnot(a_), b_))
    m = (1 << w) - 1
    if type(a) is not Node and type(b) is not Node:
        a, b = int(a), int(b)
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b if b < w else 0
        elif op == 'lshr':
            r = a >> b
        elif op == 'ashr':
            r = _s(a, w) >> b
        elif op == 'udiv':
            r = a // b
        elif op == 'urem':
            r = a % b
        elif op in ('sdiv', 'srem'):
            x, y = _s(a, w), _s(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            r = q if op == 'sdiv' else x - q * y
        return r & m
    if type(b) is not Node:
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
            return a
        if op in ('mul', 'sdiv', 'udiv') and b == 1:
            return a
    # distribute over ite with constants (keeps loop counters small)
    return mk('iop', (op, w, a, b), ('i', w))


def icmp(pred, w, a, b):
    if w == 1 and (isinstance(a, bool) or isinstance(b, bool) or (type(a) is Node and a.sort == 'b') or (
            type(b) is Node and b.sort == 'b')):
        a, b = tobool(a), tobool(b)
        if pred == 'eq':
            return bnot(ibin('xor', 1, a, b))
        if pred == 'ne':
            return ibin('xor', 1, a, b)
        a, b = b2i(a, 1), b2i(b, 1)
    if type(a) is not Node and type(b) is not Node:
        a, b = int(a), int(b)
        if pred[0] == 's':
            a, b = _s(a, w), _s(b, w)
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
            pred if len(pred) == 2 else pred[1:]]
    if a is b:
        return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
    if pred == 'ne':
        return bnot(icmp('eq', w, a, b))
    # push comparison with a constant into an ite of constants
    for x, y, sw in ((a, b, False), (b, a, True)):
        if type(x) is Node and x.op == 'ite' and type(y) is not Node:
            l, r = (x.args[1], y), (x.args[2], y)
            if sw:
                l, r = l[::-1], r[::-1]
            return ite(x.args[0], icmp(pred, w, *l), icmp(pred, w, *r))
    if pred == 'eq' and type(a) is Node and type(b) is Node and b.id < a.id:
        a, b = b, a
    return mk('icmp', (pred, w, a, b), 'b')


def tobool(x):
    if type(x) is Node:
        if x.sort == 'b':
            return x
        return icmp('ne', x.sort[1], x, 0)
    return bool(x)


def b2i(x, w):
    """bool -> int of width w"""
    if type(x) is not Node:
        return int(x)
    return mk('ite', (x, 1, 0), ('i', w))


def icast(op, fw, tw, a):
    if type(a) is Node and a.sort == 'b':
        if tw == 1:
            return a
        if op == 'zext':
            return b2i(a, tw)
        if op == 'sext':
            return mk('ite', (a, (1 << tw) - 1, 0), ('i', tw))
    if type(a) is not Node:
        a = int(a)
        if op == 'trunc':
            a &= (1 << tw) - 1
            return bool(a) if tw == 1 else a
        if op == 'zext':
            return a
        return _s(a, fw) & ((1 << tw) - 1)
    if a.op == 'ite':
        return iite(a.args[0], icast(op, fw, tw, a.args[1]), icast(op, fw, tw, a.args[2]), tw)
    if op == 'trunc' and tw == 1:
        return icmp('ne', fw, ibin('and', fw, a, 1), 0)
    if op == 'trunc' and a.op == 'icast' and a.args[0] in ('zext', 'sext') and a.args[1] == tw:
        return a.args[3]
    return mk('icast', (op, fw, tw, a), ('i', tw))


def itof(op, w, a):
    if type(a) is Node and a.sort == 'b':
        return ite(a, fconst(1) if op == 'uitofp' or w > 1 else fconst(-1), fconst(0))
    if type(a) is not Node:
        return fconst(_s(int(a), w) if op == 'sitofp' else int(a))
    if a.op == 'ite':
        return ite(a.args[0], itof(op, w, a.args[1]), itof(op, w, a.args[2]))
    return mk(op, (w, a), 'f')


_init()


# ------------------------------------------------------------------ utilities
def topo(roots):
    """all nodes below roots, children first"""
    out = []
    seen = set()
    for r in roots:
        if type(r) is not Node or r.id in seen:
            continue
        st = [(r, 0)]
        seen.add(r.id)
        while st:
            n, k = st.pop()
            a = n.args
            pushed = False
            while k < len(a):
                x = a[k]
                k += 1
                if type(x) is Node and x.id not in seen:
                    seen.add(x.id)
                    st.append((n, k))
                    st.append((x, 0))
                    pushed = True
                    break
            if not pushed:
                out.append(n)
    return out


def free_vars(roots):
    return sorted({n.args[0] for n in topo(roots) if n.op in ('v', 'iv', 'bv')})


def subst(roots, env):
    """env: name -> Node (or constant) for variables"""
    memo = {}
    for n in topo(roots):
        o = n.op
        if o in ('v', 'iv', 'bv'):
            r = env.get(n.args[0], n)
            if isinstance(r, (float, Fraction)):
                r = fconst(r)
        else:
            a = [memo[x.id] if type(x) is Node else x for x in n.args]
            r = rebuild(n, a)
        memo[n.id] = r
    return [memo[r.id] if type(r) is Node else r for r in roots]


def rebuild(n, a):
    o = n.op
    if o in ('c', 'nan', 'inf', 'negzero', 'v', 'iv', 'bv'):
        return n
    if o in ('add', 'sub', 'mul', 'div'):
        return fbin(o, a[0], a[1])
    if o == 'neg':
        return fneg(a[0])
    if o == 'fn':
        return fn(*a)
    if o == 'ite':
        if type(n.sort) is tuple:
            return iite(a[0], a[1], a[2], n.sort[1])
        return ite(a[0], a[1], a[2])
    if o in ('sitofp', 'uitofp'):
        return itof(o, a[0], a[1])
    if o == 'fcmp':
        return fcmp(a[0], a[1], a[2])
    if o == 'icmp':
        return icmp(*a)
    if o == 'iop':
        return ibin(*a)
    if o == 'icast':
        return icast(*a)
    if o == 'and':
        return band(*a)
    if o == 'or':
        return bor(*a)
    if o == 'not':
        return bnot(a[0])
    return mk(o, tuple(a), n.sort)


MATH = {'log': math.log, 'sqrt': math.sqrt, 'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
        'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2, 'pow': math.pow,
        'fabs': abs, 'log1p': math.log1p, 'expm1': math.expm1, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
        'hypot': math.hypot, 'fmod': math.fmod, 'floor': math.floor, 'ceil': math.ceil}


def evalf(roots, env, funcs=None):
    """concrete IEEE-double evaluation of terms"""
    val = {}
    inf = math.inf
    nan = math.nan

    def g(x):
        return val[x.id] if type(x) is Node else x

    for n in topo(roots):
        o = n.op
        a = n.args
        try:
            if o == 'c':
                r = float(a[0])
            elif o in ('v', 'iv', 'bv'):
                r = env[a[0]]
            elif o == 'add':
                r = g(a[0]) + g(a[1])
            elif o == 'sub':
                r = g(a[0]) - g(a[1])
            elif o == 'mul':
                r = g(a[0]) * g(a[1])
            elif o == 'div':
                x, y = g(a[0]), g(a[1])
                if y == 0:
                    r = nan if x == 0 or x != x else math.copysign(inf, x) * math.copysign(1, y)
                else:
                    r = x / y
            elif o == 'neg':
                r = -g(a[0])
            elif o == 'fn':
                f = (funcs or {}).get(a[0]) or MATH.get(a[0])
                if f is None:
                    raise KeyError('no numeric semantics for ' + str(a[0]))
                r = f(*[g(x) for x in a[1:]])
            elif o == 'ite':
                r = g(a[1]) if g(a[0]) else g(a[2])
            elif o in ('sitofp', 'uitofp'):
                x = int(g(a[1]))
                r = float(_s(x, a[0]) if o == 'sitofp' else x)
            elif o == 'fcmp':
                x, y = g(a[1]), g(a[2])
                p = a[0]
                un = x != x or y != y
                if p == 'ord':
                    r = not un
                elif un:
                    r = p[0] == 'u'
                else:
                    r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
            elif o == 'icmp':
                r = icmp(a[0], a[1], int(g(a[2])), int(g(a[3])))
            elif o == 'iop':
                r = ibin(a[0], a[1], int(g(a[2])), int(g(a[3])))
            elif o == 'icast':
                r = icast(a[0], a[1], a[2], int(g(a[3])))
            elif o == 'and':
                r = all(g(x) for x in a)
            elif o == 'or':
                r = any(g(x) for x in a)
            elif o == 'not':
                r = not g(a[0])
            elif o == 'nan':
                r = nan
            elif o == 'inf':
                r = inf * a[0]
            elif o == 'negzero':
                r = -0.0
            else:
                raise KeyError('evalf ' + o)
        except (ValueError, OverflowError):
            r = nan
        val[n.id] = r
    return [g(r) for r in roots]


# ------------------------------------------------------------------ operators (for writing reference formulas)
def _lift(x):
    if type(x) is Node:
        return x
    return fconst(x if isinstance(x, Fraction) else float(x) if isinstance(x, float) else Fraction(x))


def _pow(a, n):
    if isinstance(n, int):
        if n < 0:
            return fdiv(fconst(1.0), _pow(a, -n))
        r = None
        while n:
            if n & 1:
                r = a if r is None else fmul(r, a)
            a = fmul(a, a) if n > 1 else a
            n >>= 1
        return r if r is not None else fconst(1.0)
    return fn('pow', a, _lift(n))


Node.__add__ = lambda a, b: fadd(a, _lift(b))
Node.__radd__ = lambda a, b: fadd(_lift(b), a)
Node.__sub__ = lambda a, b: fsub(a, _lift(b))
Node.__rsub__ = lambda a, b: fsub(_lift(b), a)
Node.__mul__ = lambda a, b: fmul(a, _lift(b))
Node.__rmul__ = lambda a, b: fmul(_lift(b), a)
Node.__truediv__ = lambda a, b: fdiv(a, _lift(b))
Node.__rtruediv__ = lambda a, b: fdiv(_lift(b), a)
Node.__neg__ = lambda a: fneg(a)
Node.__pow__ = _pow


def log(x):
    return fn('log', _lift(x))


def sqrt(x):
    return fn('sqrt', _lift(x))


def fabs(x):
    return fn('fabs', _lift(x))
