"""Symbolic executor for the parsed LLVM IR.

Paths fork at symbolic branches and are merged again (ite) when they reach the
same program point with the same call stack.  Pointers are (object, offset)
pairs, possibly guarded (PIte).  Exceptions are followed through landing pads."""
import heapq
import re
import struct
import subprocess
from . import terms as T
from .terms import Node


class EngineError(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return type(o) is Ptr and o.obj == self.obj and o.off == self.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj, self.off)


NULL = Ptr(0, 0)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'PIte(%s,%s)' % (self.a, self.b)


class FnPtr:
    __slots__ = ('name', 'module')

    def __init__(self, name, module):
        self.name = name
        self.module = module

    def __eq__(self, o):
        return type(o) is FnPtr and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class _U:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _U()


class _Poison(_U):
    def __repr__(self):
        return 'POISON'


POISON = _Poison()     # value lost in a merge


def is_ptr(v):
    return type(v) in (Ptr, PIte, FnPtr)


def pite(c, a, b):
    if type(c) is not Node:
        return a if c else b
    if a == b:
        return a
    return PIte(c, a, b)


class Obj:
    __slots__ = ('size', 'cells', 'fill', 'owner', 'name', 'freed')

    def __init__(self, size, fill=None, name=''):
        self.size = size
        self.cells = {}
        self.fill = fill
        self.owner = None
        self.name = name
        self.freed = False

    def clone(self, owner):
        o = Obj(self.size, self.fill, self.name)
        o.cells = dict(self.cells)
        o.owner = owner
        o.freed = self.freed
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'retinst', 'code', 'uid')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.idx, f.retinst, f.code, f.uid = self.fn, self.blk, self.idx, self.retinst, self.code, self.uid
        f.regs = dict(self.regs)
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'exc', 'tok', 'tags')
    _n = [0]

    def __init__(self):
        State._n[0] += 1
        self.tok = State._n[0]
        self.frames = []
        self.mem = {}
        self.pc = ()
        self.exc = None
        self.tags = {}

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.exc = self.exc
        s.tags = dict(self.tags)
        # both sides lose ownership
        State._n[0] += 1
        self.tok = State._n[0]
        return s

    def key(self):
        return tuple((f.fn.name, f.blk, f.idx) for f in self.frames)

    def prio(self):
        return tuple(x for f in self.frames for x in (f.fn.rpo[f.blk], f.idx))


class Outcome:
    """kind: 'ret' | 'throw' | 'abort'"""

    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info

    @property
    def pc(self):
        return T.band(*self.st.pc)


class Fork:
    """returned by stubs: [(cond, thunk(ex, st)->value or Throw)]"""

    def __init__(self, alts):
        self.alts = alts


class Throw:
    def __init__(self, tname, obj=NULL):
        self.tname = tname
        self.obj = obj


class Abort:
    def __init__(self, why):
        self.why = why


EXC_BASES = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
}


def leaves(p):
    return leaves(p.a) + leaves(p.b) if type(p) is PIte else [p]


def shift_ptr(p, k):
    return PIte(p.c, shift_ptr(p.a, k), shift_ptr(p.b, k)) if type(p) is PIte else Ptr(p.obj, p.off + k)


class Exec:
    def __init__(self, modules, mode='real', feasible=None, merge=True, max_steps=20_000_000):
        self.modules = modules
        self.mode = mode
        T.MODE[0] = mode
        self.feasible = feasible
        self.merge = merge
        self.max_steps = max_steps
        self.steps = 0
        self.nobj = 0
        self.gobj = {}          # (mod path, name) -> initial Obj
        self.stubs = {}         # mangled name -> handler
        self.restubs = []       # (regex on demangled, handler)
        self.cache = {}
        self.demang = {}
        self.const_syms = {}    # demangled-ish global name -> symbol name for named constants
        self.called = {}
        self.stubbed = {}
        self.undef_n = 0
        self.merges = 0
        self.forks = 0
        self.unwind_tids = {}
        self.obligations = []   # (pc, cond, text): conditions that must hold
        self.loopcount = {}
        self.index = {}
        for m in modules:
            for f in m.funcs.values():
                if f.name not in self.index:
                    self.index[f.name] = f
        from . import stubs
        stubs.install(self)

    # ------------------------------------------------------------ names
    def demangle_all(self):
        names = set()
        for m in self.modules:
            names |= set(m.funcs) | set(m.decls)
        names = sorted(names)
        out = subprocess.run(['llvm-cxxfilt-18' if False else '/usr/lib/llvm-18/bin/llvm-cxxfilt'],
                             input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            self.demang[n] = d

    def dem(self, name):
        if not self.demang:
            self.demangle_all()
        return self.demang.get(name, name)

    def find(self, pat):
        """mangled names of defined functions whose demangled name matches the regex"""
        if not self.demang:
            self.demangle_all()
        r = re.compile(pat)
        return [n for n in self.index if r.search(self.demang.get(n, n))]

    def find1(self, pat):
        x = self.find(pat)
        if len(x) != 1:
            raise EngineError('find1 %s: %s' % (pat, [self.dem(n) for n in x][:5]))
        return x[0]

    def stub(self, name, handler):
        self.stubs[name] = handler

    def restub(self, pat, handler):
        self.restubs.insert(0, (re.compile(pat), handler))
        self.cache.clear()

    def resolve(self, mod, name):
        """-> ('stub',h) | ('fn',Func)"""
        key = (mod.path, name)
        r = self.cache.get(key)
        if r is not None:
            return r
        r = self._resolve(mod, name)
        self.cache[key] = r
        return r

    def _resolve(self, mod, name):
        if name in self.stubs:
            return ('stub', self.stubs[name])
        d = self.dem(name)
        for pat, h in self.restubs:
            if pat.search(d):
                if isinstance(h, str):      # redirect to a stand-in of the harness with the same signature
                    return ('fn', self.index[h])
                return ('stub', h)
        if name in mod.funcs:
            return ('fn', mod.funcs[name])
        if name in mod.aliases:
            return self._resolve(mod, mod.aliases[name][1])
        f = self.index.get(name)
        if f is not None:
            return ('fn', f)
        for m in self.modules:
            if name in m.aliases:
                return self._resolve(m, m.aliases[name][1])
        raise EngineError('no body or stub for %s  [%s]' % (name, d))

    # ------------------------------------------------------------ types
    def sizeof(self, mod, ty):
        k = ty[0]
        if k == 'i':
            n = ty[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k == 'f':
            return {64: 8, 32: 4, 80: 16, 16: 2, 128: 16}[ty[1]]
        if k == 'ptr':
            return 8
        if k == 'arr' or k == 'vec':
            return ty[1] * self.sizeof(mod, ty[2])
        if k == 'named':
            key = (mod.path, ty[1])
            c = self.cache.get(('sz',) + key)
            if c is None:
                c = self.sizeof(mod, mod.named(ty[1]))
                self.cache[('sz',) + key] = c
            return c
        if k == 'st':
            return self.layout(mod, ty)[1]
        raise EngineError('sizeof %r' % (ty,))

    def alignof(self, mod, ty):
        k = ty[0]
        if k in ('i', 'f', 'ptr'):
            return self.sizeof(mod, ty)
        if k == 'arr':
            return self.alignof(mod, ty[2])
        if k == 'vec':
            return self.sizeof(mod, ty)
        if k == 'named':
            return self.alignof(mod, mod.named(ty[1]))
        if k == 'st':
            return 1 if ty[2] else max([self.alignof(mod, t) for t in ty[1]] or [1])
        raise EngineError('alignof')

    def layout(self, mod, ty):
        key = ('lay', mod.path, ty)
        c = self.cache.get(key)
        if c:
            return c
        off = 0
        offs = []
        al = 1
        for t in ty[1]:
            if not ty[2]:
                a = self.alignof(mod, t)
                al = max(al, a)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.sizeof(mod, t)
        if not ty[2]:
            off = (off + al - 1) // al * al
        c = (offs, off)
        self.cache[key] = c
        return c

    def strip(self, mod, ty):
        while ty[0] == 'named':
            ty = mod.named(ty[1])
        return ty

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, fill=None, name=''):
        self.nobj += 1
        o = Obj(size, fill, name)
        o.owner = st.tok
        st.mem[self.nobj] = o
        return Ptr(self.nobj, 0)

    def get_obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if type(oid) is tuple:
                o = self.gobj.get(oid)
                if o is None:
                    o = self.make_global(oid)
            else:
                raise EngineError('dangling/null object %r' % (oid,))
        return o

    def wr_obj(self, st, oid):
        o = st.mem.get(oid)
        if o is not None and o.owner == st.tok:
            return o
        if o is None:
            o = self.get_obj(st, oid)
        o = o.clone(st.tok)
        st.mem[oid] = o
        return o

    def global_ptr(self, mod, name):
        m = mod
        if name not in m.globals:
            if name in m.funcs or name in m.decls or name in m.aliases:
                return FnPtr(name, m)
            raise EngineError('global? ' + name)
        if m.globals[name][1]:      # external declaration: find the definition
            for k in self.modules:
                if name in k.globals and not k.globals[name][1]:
                    m = k
                    break
        if not m.globals[name][2]:
            # linkonce/external: one object program-wide
            for k in self.modules:
                if name in k.globals and not k.globals[name][1] and not k.globals[name][2]:
                    m = k
                    break
        return Ptr(('g', m.path, name), 0)

    def module_by_path(self, p):
        for m in self.modules:
            if m.path == p:
                return m

    def make_global(self, oid):
        _, path, name = oid
        m = self.module_by_path(path)
        ty, init = m.global_info(name)
        o = Obj(self.sizeof(m, ty), None, name)
        self.gobj[oid] = o
        if init is None:
            if name in self.stubs.get('@extern_globals', {}):
                pass
            o.fill = 0
        else:
            self.init_cells(m, o, 0, ty, init)
        hook = self.const_syms.get(name)
        if hook is not None:
            o.cells = {0: (8, T.var(hook))}
        return o

    def init_cells(self, m, o, off, ty, v):
        ty = self.strip(m, ty)
        k = v[0]
        if k in ('undef',):
            return
        if k == 'zero' or (k == 'null'):
            sz = self.sizeof(m, ty)
            self.zero_cells(m, o, off, ty)
            return
        if k == 'agg':
            if ty[0] == 'st':
                offs, _ = self.layout(m, ty)
                for (et, ev), eo in zip(v[1], offs):
                    self.init_cells(m, o, off + eo, et, ev)
            else:
                es = self.sizeof(m, ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(m, o, off + i * es, et, ev)
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        o.cells[off] = (self.sizeof(m, ty), self.const(m, ty, v))

    def zero_cells(self, m, o, off, ty):
        ty = self.strip(m, ty)
        k = ty[0]
        if k == 'st':
            offs, _ = self.layout(m, ty)
            for t, e in zip(ty[1], offs):
                self.zero_cells(m, o, off + e, t)
        elif k in ('arr', 'vec'):
            es = self.sizeof(m, ty[2])
            if ty[1] > 4096:
                o.fill = 0
                return
            for i in range(ty[1]):
                self.zero_cells(m, o, off + i * es, ty[2])
        else:
            o.cells[off] = (self.sizeof(m, ty), self.zero(m, ty))

    def zero(self, m, ty):
        ty = self.strip(m, ty)
        k = ty[0]
        if k == 'i':
            return False if ty[1] == 1 else 0
        if k == 'f':
            return T.fconst(0.0)
        if k == 'ptr':
            return NULL
        if k == 'st':
            return [self.zero(m, t) for t in ty[1]]
        if k in ('arr', 'vec'):
            return [self.zero(m, ty[2]) for _ in range(ty[1])]
        raise EngineError('zero')

    # ------------------------------------------------------------ constants
    def const(self, m, ty, v):
        k = v[0]
        if k == 'ci':
            if ty[1] == 1:
                return bool(v[1] & 1)
            return v[1] & ((1 << ty[1]) - 1)
        if k == 'cf':
            return T.fconst(v[1])
        if k == 'g':
            return self.global_ptr(m, v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            t = self.strip(m, ty)
            if t[0] == 'st':
                return [self.const(m, x, v) for x in t[1]]
            if t[0] in ('arr', 'vec'):
                return [self.const(m, t[2], v) for _ in range(t[1])]
            return UNDEF
        if k == 'zero':
            return self.zero(m, ty)
        if k == 'agg':
            return [self.const(m, et, ev) for et, ev in v[1]]
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.const(m, v[3][0][0], v[3][0][1])
                return self.gep(m, base, v[2], [(t, self.const(m, t, x)) for t, x in v[3][1:]], None)
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.const(m, v[2], v[3])
            if op in ('trunc', 'zext', 'sext'):
                return T.icast(op, v[2][1], v[4][1], self.const(m, v[2], v[3]))
            a, b = self.const(m, v[2], v[3]), self.const(m, v[2], v[4])
            if is_ptr(a) or is_ptr(b):
                return self.ptr_arith(op, a, b)
            return T.ibin(op, v[2][1], a, b)
        if k == 'str':
            return list(v[1])
        raise EngineError('const %r' % (v,))

    def ptr_arith(self, op, a, b):
        if op == 'sub' and type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            return (a.off - b.off) & ((1 << 64) - 1)
        if op == 'sub' and type(a) is Ptr and type(b) is int:
            return Ptr(a.obj, a.off - b)
        if op == 'add' and type(a) is Ptr and type(b) is int:
            return Ptr(a.obj, a.off + T._s(b, 64))
        if op == 'add' and type(b) is Ptr and type(a) is int:
            return Ptr(b.obj, b.off + T._s(a, 64))
        if op == 'and' and type(a) is Ptr and type(b) is int:
            # alignment masks: objects are 16-byte aligned
            if b < 16:
                return a.off & b
            nb = (~b) & ((1 << 64) - 1)
            if nb < 16:
                return Ptr(a.obj, a.off - (a.off & nb))
        if op in ('urem', 'srem') and type(a) is Ptr and type(b) is int and b <= 16:
            return a.off % b
        raise EngineError('pointer arithmetic %s %r %r' % (op, a, b))

    # ------------------------------------------------------------ gep / load / store
    def gep(self, m, base, bt, idx, st):
        if type(base) is PIte:
            return PIte(base.c, self.gep(m, base.a, bt, idx, st), self.gep(m, base.b, bt, idx, st))
        if type(base) is not Ptr:
            if type(base) is FnPtr and not idx:
                return base
            raise EngineError('gep base %r' % (base,))
        off = 0
        ty = bt
        sym = []          # (stride, node, width, count)
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = self.sizeof(m, ty)
                if type(iv) is Node:
                    sym.append((sz, iv, it[1], None))
                else:
                    if type(iv) is not int:
                        raise EngineError('gep idx %r' % (iv,))
                    off += sz * T._s(iv, it[1])
                continue
            ty = self.strip(m, ty)
            if ty[0] == 'st':
                off += self.layout(m, ty)[0][iv]
                ty = ty[1][iv]
            else:
                sz = self.sizeof(m, ty[2])
                if type(iv) is Node:
                    sym.append((sz, iv, it[1], ty[1]))
                else:
                    off += sz * T._s(iv, it[1])
                ty = ty[2]
        if not sym:
            return Ptr(base.obj, base.off + off)
        if len(sym) > 1:
            raise EngineError('two symbolic indices')
        sz, iv, w, cnt = sym[0]
        o = self.get_obj(st, base.obj)
        b0 = base.off + off
        # candidate indices inside the object
        lo = -(b0 // sz) if sz else 0
        hi = (o.size - b0) // sz
        if hi - lo > 256:
            raise EngineError('symbolic index into object of size %d' % o.size)
        res = None
        oks = []
        allowed = self.index_values(st, iv, w, lo, hi) if hi - lo > 4 else None
        for k in range(hi - 1, lo - 1, -1):
            c = T.icmp('eq', w, iv, k & ((1 << w) - 1))
            if c is False or (allowed is not None and k not in allowed):
                continue
            oks.append(c)
            p = Ptr(base.obj, b0 + k * sz)
            res = p if res is None else pite(c, p, res)
        if res is None:
            raise EngineError('symbolic index out of bounds')
        self.obligations.append((st.pc, T.bor(*oks), 'index within %s' % (o.name or o.size)))
        return res

    def index_values(self, st, iv, w, lo, hi):
        """index values inside the object which the path condition admits (None: not decided)"""
        import z3
        from . import smt
        S = smt.Smt()
        try:
            zs = S.many(list(st.pc) + [iv])
            s = smt.solver(5000)
            s.add([S.b(z) for z in zs[:-1]])
            for x in S.ax:
                s.add(x)
            x = zs[-1]
            s.add(x >= lo, x < hi)
        except Exception:
            return None
        got = set()
        while True:
            r = s.check()
            if r == z3.unknown:
                return None
            if r == z3.unsat:
                return got
            v = s.model().eval(x, model_completion=True)
            got.add(v.as_signed_long())
            s.add(x != v)

    def load(self, st, m, ty, p):
        ty = self.strip(m, ty)
        k = ty[0]
        if type(p) is PIte:
            a = self.load(st, m, ty, p.a)
            b = self.load(st, m, ty, p.b)
            return self.mergeval(p.c, a, b, ty)
        if k == 'st':
            offs, _ = self.layout(m, ty)
            return [self.load(st, m, t, Ptr(p.obj, p.off + o)) for t, o in zip(ty[1], offs)]
        if k in ('arr', 'vec'):
            es = self.sizeof(m, ty[2])
            return [self.load(st, m, ty[2], Ptr(p.obj, p.off + i * es)) for i in range(ty[1])]
        if type(p) is not Ptr:
            raise EngineError('load from %r' % (p,))
        o = self.get_obj(st, p.obj)
        n = self.sizeof(m, ty)
        c = o.cells.get(p.off)
        if c is not None and c[0] == n:
            return self.coerce(c[1], ty)
        if p.off < 0 or p.off + n > o.size:
            raise EngineError('load out of bounds %r size %d of object %s(%d)' % (p, n, o.name, o.size))
        return self.load_slow(o, p.off, n, ty, m)

    def load_slow(self, o, off, n, ty, m):
        bs = self.get_bytes(o, off, n)
        if bs is None:
            # no overlap at all -> undefined or zero
            return self.zero(m, ty) if o.fill == 0 else self.undef(ty)
        return self.coerce(int.from_bytes(bs, 'little'), ty)

    def undef(self, ty):
        if ty[0] == 'f':
            self.undef_n += 1
            return T.var('undef#%d' % self.undef_n)
        return UNDEF

    def get_bytes(self, o, off, n):
        out = bytearray(n)
        have = [False] * n
        anyc = False
        for k in range(max(0, off - 16), off + n):
            c = o.cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            anyc = True
            v = c[1]
            if isinstance(v, bool):
                v = int(v)
            if type(v) is Node and v.op == 'c' and c[0] == 8:
                v = int.from_bytes(struct.pack('<d', T.fl(v)), 'little')
            if v == NULL:
                v = 0
            if not isinstance(v, int):
                if v is UNDEF:
                    v = 0
                else:
                    raise EngineError('partial read of %r in %s at %d (want %d@%d)' % (v, o.name, k, n, off))
            b = (v & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], 'little')
            for j in range(c[0]):
                if off <= k + j < off + n:
                    out[k + j - off] = b[j]
                    have[k + j - off] = True
        if not anyc:
            return None
        if not all(have) and o.fill != 0:
            pass        # undefined padding bytes read as zero
        return bytes(out)

    def coerce(self, v, ty):
        k = ty[0]
        if k == 'f':
            if type(v) is Node:
                if v.sort == 'f':
                    return v
                if v.op == 'fbits':
                    return v.args[0]
                raise EngineError('int term read as float')
            if isinstance(v, int):
                if ty[1] == 64:
                    return T.fconst(struct.unpack('<d', struct.pack('<Q', v))[0])
                if ty[1] == 32:
                    return T.fconst(struct.unpack('<f', struct.pack('<I', v))[0])
                if v == 0:
                    return T.fconst(0.0)
            if v is UNDEF or v is POISON:
                return v if v is POISON else self.undef(ty)
            raise EngineError('float from %r' % (v,))
        if k == 'ptr':
            if v == 0 and isinstance(v, int):
                return NULL
            if isinstance(v, int):
                return Ptr(0, v)
            return v
        if k == 'i':
            if type(v) is Node and v.sort == 'f':
                if v.op == 'c':
                    return int.from_bytes(struct.pack('<d', T.fl(v)), 'little')
                return T.mk('fbits', (v,), ('i', ty[1]))
            if ty[1] == 1 and not isinstance(v, bool) and isinstance(v, int):
                return bool(v & 1)
            if ty[1] > 1 and isinstance(v, bool):
                return int(v)
            if type(v) is Node and v.sort == 'b' and ty[1] > 1:
                return T.b2i(v, ty[1])
            return v
        raise EngineError('coerce')

    def store(self, st, m, ty, v, p):
        ty = self.strip(m, ty)
        if type(p) is PIte:
            for q, c in ((p.a, p.c), (p.b, T.bnot(p.c))):
                old = self.load(st, m, ty, q)
                self.store(st, m, ty, self.mergeval(c, v, old, ty), q)
            return
        k = ty[0]
        if k == 'st':
            offs, _ = self.layout(m, ty)
            for t, o, x in zip(ty[1], offs, v):
                self.store(st, m, t, x, Ptr(p.obj, p.off + o))
            return
        if k in ('arr', 'vec'):
            es = self.sizeof(m, ty[2])
            for i, x in enumerate(v):
                self.store(st, m, ty[2], x, Ptr(p.obj, p.off + i * es))
            return
        if type(p) is not Ptr:
            raise EngineError('store to %r' % (p,))
        o = self.wr_obj(st, p.obj)
        n = self.sizeof(m, ty)
        if p.off < 0 or p.off + n > o.size:
            raise EngineError('store out of bounds %r size %d of object %s(%d)' % (p, n, o.name, o.size))
        self.clear(o, p.off, n)
        o.cells[p.off] = (n, v)

    def clear(self, o, off, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            return
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + n:
                del cells[k]
            else:
                # split partially overwritten concrete cells into bytes
                v = c[1]
                if type(v) is Node and v.op == 'c' and c[0] == 8:
                    v = int.from_bytes(struct.pack('<d', T.fl(v)), 'little')
                if v == NULL:
                    v = 0
                if v is UNDEF:
                    v = 0
                if not isinstance(v, int):
                    raise EngineError('partial overwrite of %r' % (v,))
                b = (int(v) & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], 'little')
                del cells[k]
                for j in range(c[0]):
                    if not off <= k + j < off + n:
                        cells[k + j] = (1, b[j])

    def real_cells(self, st, p, n):
        if type(p) is not Ptr:
            return False
        o = self.get_obj(st, p.obj)
        for k in range(p.off, p.off + n, 8):
            c = o.cells.get(k)
            if c is None:
                if o.fill == 0 or not any(q in o.cells for q in range(k - 7, k + 8)):
                    continue
                return False
            if c[0] != 8 or not isinstance(c[1], Node) or c[1].sort != 'f':
                return False
        return True

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if type(d) is not Ptr or type(s) is not Ptr:
            if n % 8 or n > 128 or not all(self.real_cells(st, p, n) for p in leaves(d) + leaves(s)):
                raise EngineError('memcpy with guarded pointers')
            m = self.modules[0]
            vals = [self.load(st, m, ('f', 64), shift_ptr(s, k)) for k in range(0, n, 8)]
            for k, v in enumerate(vals):
                self.store(st, m, ('f', 64), v, shift_ptr(d, 8 * k))
            return
        so = self.get_obj(st, s.obj)
        new = []
        covered = 0
        for k, c in so.cells.items():
            if k >= s.off and k + c[0] <= s.off + n:
                new.append((k - s.off + d.off, c))
                covered += c[0]
            elif k < s.off + n and k + c[0] > s.off:
                bs = self.get_bytes(so, max(k, s.off), min(k + c[0], s.off + n) - max(k, s.off))
                for j, x in enumerate(bs):
                    new.append((max(k, s.off) + j - s.off + d.off, (1, x)))
        do = self.wr_obj(st, d.obj)
        if d.off + n > do.size:
            raise EngineError('memcpy out of bounds')
        self.clear(do, d.off, n)
        for k in range(d.off, d.off + n):
            if k in do.cells:
                del do.cells[k]
        for k, c in new:
            do.cells[k] = c
        if covered < n and so.fill == 0 and do.fill != 0:
            have = set()
            for k, c in new:
                have.update(range(k, k + c[0]))
            for k in range(d.off, d.off + n):
                if k not in have:
                    do.cells[k] = (1, 0)

    def memset(self, st, d, b, n):
        if n == 0:
            return
        if type(b) is Node:
            raise EngineError('symbolic memset')
        o = self.wr_obj(st, d.obj)
        if d.off == 0 and n == o.size and b == 0:
            o.cells.clear()
            o.fill = 0
            return
        self.clear(o, d.off, n)
        for k in range(d.off, d.off + n):
            o.cells.pop(k, None)
        k = 0
        while k + 8 <= n and (d.off + k) % 8 == 0:
            o.cells[d.off + k] = (8, int.from_bytes(bytes([b & 255] * 8), 'little'))
            k += 8
        while k < n:
            o.cells[d.off + k] = (1, b & 255)
            k += 1

    # ------------------------------------------------------------ merging
    def mergeval(self, c, a, b, ty=None):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if a is POISON or b is POISON:
            return POISON
        if ta is list and tb is list:
            return [self.mergeval(c, x, y) for x, y in zip(a, b)]
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if is_ptr(a) and is_ptr(b):
            return pite(c, a, b)
        if is_ptr(a) and isinstance(b, int) and b == 0:
            return pite(c, a, NULL)
        if is_ptr(b) and isinstance(a, int) and a == 0:
            return pite(c, NULL, b)
        if is_ptr(a) or is_ptr(b):
            return POISON
        fa = ta is Node and a.sort == 'f'
        fb = tb is Node and b.sort == 'f'
        if fa != fb:
            return POISON
        if fa:
            return T.ite(c, a, b)
        ba = ta is bool or (ta is Node and a.sort == 'b')
        bb = tb is bool or (tb is Node and b.sort == 'b')
        if ba and bb:
            return T.ite(c, a, b) if (ta is Node or tb is Node) else (a if a == b else (c if a else T.bnot(c)))
        w = None
        for x in (a, b):
            if type(x) is Node and type(x.sort) is tuple:
                w = x.sort[1]
        if w is None and ty is not None and ty[0] == 'i':
            w = ty[1]
        if ta is int and tb is int and a == b:
            return a
        if w is None:
            w = 64 if max(int(a) if ta is not Node else 0, int(b) if tb is not Node else 0) >= 1 << 32 else None
        if w is None:
            return self.lazyint(c, a, b)
        if ba:
            a = T.b2i(a, w)
        if bb:
            b = T.b2i(b, w)
        return T.iite(c, a, b, w)

    def lazyint(self, c, a, b):
        # width unknown (register of either width): 32-bit unless fixed up by use
        return T.mk('ite', (c, int(a), int(b)), ('i', 0))

    def fixw(self, v, w):
        """give a width to width-less merged integers"""
        if type(v) is Node and v.sort == ('i', 0):
            return T.iite(v.args[0], self.fixw(v.args[1], w), self.fixw(v.args[2], w), w)
        return v

    def try_merge(self, s1, s2):
        # common prefix of path conditions
        p1, p2 = s1.pc, s2.pc
        i = 0
        while i < len(p1) and i < len(p2) and p1[i] is p2[i]:
            i += 1
        g1 = T.band(*p1[i:])
        g2 = T.band(*p2[i:])
        if s1.exc != s2.exc:
            return None
        if s1.tags != s2.tags:
            for k in set(s1.tags) | set(s2.tags):
                a, b = s1.tags.get(k), s2.tags.get(k)
                if a is b or a == b:
                    continue
                if type(a) is tuple or type(b) is tuple or a is None or b is None:
                    return None
        n = State()
        n.exc = s1.exc
        n.tags = {}
        for k in set(s1.tags) | set(s2.tags):
            a, b = s1.tags.get(k), s2.tags.get(k)
            n.tags[k] = a if (a is b or a == b) else self.mergeval(g1, a, b)
        d = T.bor(g1, g2)
        n.pc = p1[:i] + ((d,) if d is not True else ())
        for f1, f2 in zip(s1.frames, s2.frames):
            f = f1.copy()
            r2 = f2.regs
            for k, v in f1.regs.items():
                w = r2.get(k, UNDEF)
                if v is not w and v != w:
                    f.regs[k] = self.mergeval(g1, v, w)
            for k, w in r2.items():
                if k not in f1.regs:
                    f.regs[k] = w
            n.frames.append(f)
        mem = dict(s1.mem)
        for k, o2 in s2.mem.items():
            o1 = mem.get(k)
            if o1 is None:
                if type(k) is tuple:
                    o1 = self.get_obj(s1, k)
                else:
                    mem[k] = o2
                    continue
            if o1 is o2:
                continue
            mem[k] = self.merge_obj(g1, o1, o2, n.tok)
        for k, o1 in s1.mem.items():
            if type(k) is tuple and k not in s2.mem:
                o2 = self.get_obj(s2, k)
                if o1 is not o2:
                    mem[k] = self.merge_obj(g1, o1, o2, n.tok)
        n.mem = mem
        self.merges += 1
        return n

    def merge_obj(self, g, o1, o2, tok):
        o = Obj(o1.size, o1.fill if o1.fill == o2.fill else None, o1.name)
        o.owner = tok
        o.freed = o1.freed and o2.freed
        for k in set(o1.cells) | set(o2.cells):
            a, b = o1.cells.get(k), o2.cells.get(k)
            if a is not None and b is not None and a[0] == b[0]:
                x, y = a[1], b[1]
                if x is y or (type(x) is not Node and type(y) is not Node and type(x) is type(y) and x == y):
                    o.cells[k] = a
                else:
                    ty = ('i', a[0] * 8)
                    if type(x) is Node and x.sort == 'f' and isinstance(y, int):
                        y = self.coerce(y, ('f', a[0] * 8))
                    if type(y) is Node and y.sort == 'f' and isinstance(x, int):
                        x = self.coerce(x, ('f', a[0] * 8))
                    o.cells[k] = (a[0], self.mergeval(g, x, y, ty))
                continue
            if a is None and b is None:
                continue
            # present on one side only / different sizes
            src, oth, first = (a, o2, True) if a is not None else (b, o1, False)
            if a is not None and b is not None:
                o.cells[k] = (max(a[0], b[0]), POISON)
                continue
            try:
                bs = self.get_bytes(oth, k, src[0])
            except EngineError:
                o.cells[k] = (src[0], POISON)
                continue
            if bs is None:
                if oth.fill == 0:
                    z = 0
                else:
                    o.cells[k] = src
                    continue
            else:
                z = int.from_bytes(bs, 'little')
            v = src[1]
            if type(v) is Node and v.sort == 'f':
                z = self.coerce(z, ('f', src[0] * 8))
            elif is_ptr(v):
                z = NULL if z == 0 else Ptr(0, z)
            x, y = (v, z) if first else (z, v)
            o.cells[k] = (src[0], self.mergeval(g, x, y, ('i', src[0] * 8)))
        return o

    # ------------------------------------------------------------ running
    def call_fn(self, st, name, args, mod=None):
        """push a frame for function `name` (mangled)"""
        f = self.index[name] if mod is None else mod.funcs[name]
        self.push(st, f, args, None)

    def push(self, st, f, args, inst):
        f.blocks
        self.called[f.name] = self.called.get(f.name, 0) + 1
        fr = Frame()
        fr.fn = f
        fr.blk = f.order[0]
        fr.idx = 0
        fr.code = f._blocks[fr.blk]
        fr.retinst = inst
        fr.regs = {}
        fr.uid = None
        if len(f.params) > len(args):
            raise EngineError('arity of ' + f.name)
        for (ty, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                sz = self.sizeof(f.module, at['byval'])
                q = self.new_obj(st, sz, None, nm)
                self.memcpy(st, q, v, sz)
                v = q
            fr.regs[nm] = v
        if len(st.frames) > 200:
            raise EngineError('call depth')
        st.frames.append(fr)

    def run(self, st):
        """explore from st; returns list of Outcomes"""
        T.MODE[0] = self.mode
        base = len(st.frames)
        outs = []
        work = [st]
        while work:
            if len(work) == 1:
                s = work.pop()
            else:
                best = min(range(len(work)), key=lambda i: work[i].prio())
                s = work.pop(best)
                if self.merge:
                    k = s.key()
                    if s.frames[-1].idx >= 0:
                        j = 0
                        while j < len(work):
                            if work[j].key() == k:
                                n = self.try_merge(s, work[j])
                                if n is not None:
                                    s = n
                                    work.pop(j)
                                    continue
                            j += 1
            try:
                res = self.advance(s, bool(work))
            except EngineError as e:
                tr = ' <- '.join('%s:%s:%d' % (self.dem(f.fn.name)[:60], f.blk, f.idx) for f in reversed(s.frames[-4:]))
                raise EngineError('%s   [at %s]' % (e, tr))
            for r in res:
                if type(r) is Outcome:
                    outs.append(r)
                else:
                    work.append(r)
            if len(work) > 5000:
                raise EngineError('too many paths')
        return outs

    def goto(self, st, fr, blk):
        prev = fr.blk
        code = fr.fn._blocks[blk]
        regs = fr.regs
        i = 0
        if code[0][1] == 'phi':
            vals = []
            n = len(code)
            while i < n and code[i][1] == 'phi':
                ins = code[i]
                for b, v in ins[3]:
                    if b == prev:
                        vals.append((ins[0], self.val(st, fr, ins[2], v)))
                        break
                else:
                    raise EngineError('phi')
                i += 1
            for d, v in vals:
                regs[d] = v
        fr.blk = blk
        fr.code = code
        fr.idx = i

    def val(self, st, fr, ty, v):
        if v[0] == 'l':
            return fr.regs[v[1]]
        return self.const(fr.fn.module, ty, v)

    def unwind(self, st):
        """st.exc set: pop frames until an invoke; False if none left"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.code[fr.idx]
            if ins[1] == 'call' and ins[6] is not None and not (ins[0] == '#consumed'):
                self.goto(st, fr, ins[6])
                return True
            st.frames.pop()
        return False

    def tid(self, name):
        if name is None:
            name = '*'
        if name not in self.unwind_tids:
            self.unwind_tids[name] = len(self.unwind_tids) + 1
        return self.unwind_tids[name]

    def advance(self, st, others):
        """run st until it forks, ends or (if others wait) leaves a block"""
        val = self.val
        while True:
            fr = st.frames[-1]
            regs = fr.regs
            m = fr.fn.module
            code = fr.code
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise EngineError('step limit')
                ins = code[fr.idx]
                k = ins[1]
                d = ins[0]
                if k == 'fbin':
                    a, b = val(st, fr, ins[3], ins[4]), val(st, fr, ins[3], ins[5])
                    if type(a) is not Node or type(b) is not Node:
                        if type(a) is list:
                            regs[d] = [self.fop(ins[2], x, y) for x, y in zip(a, b)]
                            fr.idx += 1
                            continue
                        raise EngineError('float op on %r %r' % (a, b))
                    regs[d] = self.fop(ins[2], a, b)
                elif k == 'load':
                    regs[d] = self.load(st, m, ins[2], val(st, fr, ('ptr',), ins[3]))
                    if regs[d] is POISON:
                        raise EngineError('value lost in merge loaded')
                elif k == 'gep':
                    ops = ins[3]
                    regs[d] = self.gep(m, val(st, fr, ops[0][0], ops[0][1]), ins[2],
                                       [(t, self.fixw(val(st, fr, t, v), t[1])) for t, v in ops[1:]], st)
                elif k == 'store':
                    v = val(st, fr, ins[2], ins[3])
                    if ins[2][0] == 'i':
                        v = self.fixw(v, ins[2][1])
                    self.store(st, m, ins[2], v, val(st, fr, ('ptr',), ins[4]))
                elif k == 'call':
                    r = self.do_call(st, fr, ins)
                    if r is None:
                        pass            # value stored; continue
                    elif r == 'pushed':
                        break           # new frame
                    elif r == 'throw':
                        if not self.unwind(st):
                            return [Outcome('throw', st, None, st.exc)]
                        break
                    elif type(r) is Outcome:
                        return [r]
                    else:
                        return r        # list of states/outcomes
                    if ins[5] is not None:
                        self.goto(st, fr, ins[5])
                        break
                elif k == 'alloca':
                    n = 1
                    if ins[3] is not None:
                        n = self.const(m, ('i', 64), ins[3]) if ins[3][0] != 'l' else regs[ins[3][1]]
                    regs[d] = self.new_obj(st, self.sizeof(m, ins[2]) * n, None, d)
                elif k == 'ret':
                    v = None if ins[2] is None else val(st, fr, ins[2], ins[3])
                    if ins[2] is not None and ins[2][0] == 'i':
                        v = self.fixw(v, ins[2][1])
                    st.frames.pop()
                    if not st.frames:
                        return [Outcome('ret', st, v)]
                    cf = st.frames[-1]
                    ci = cf.code[cf.idx]
                    if ci[0] is not None:
                        cf.regs[ci[0]] = v
                    if ci[5] is not None:
                        self.goto(st, cf, ci[5])
                    else:
                        cf.idx += 1
                    if others:
                        return [st]
                    break
                elif k == 'br':
                    self.goto(st, fr, ins[2])
                    if others:
                        return [st]
                    break
                elif k == 'cbr':
                    c = T.tobool(val(st, fr, ('i', 1), ins[2]))
                    if type(c) is not Node:
                        self.goto(st, fr, ins[3] if c else ins[4])
                        if others:
                            return [st]
                        break
                    nc = T.bnot(c)
                    ok1, ok2 = self.may(st, c), self.may(st, nc)
                    if ok1 and ok2:
                        self.forks += 1
                        s2 = st.fork()
                        st.pc = st.pc + (c,)
                        s2.pc = s2.pc + (nc,)
                        self.goto(st, st.frames[-1], ins[3])
                        self.goto(s2, s2.frames[-1], ins[4])
                        return [st, s2]
                    if not ok1 and not ok2:
                        return []
                    self.goto(st, fr, ins[3] if ok1 else ins[4])
                    if others:
                        return [st]
                    break
                elif k == 'switch':
                    w = ins[2][1]
                    v = self.fixw(val(st, fr, ins[2], ins[3]), w)
                    if type(v) is not Node:
                        t = ins[4]
                        for cv, lb in ins[5]:
                            if (cv & ((1 << w) - 1)) == int(v):
                                t = lb
                                break
                        self.goto(st, fr, t)
                        if others:
                            return [st]
                        break
                    out = []
                    neg = []
                    byl = {}
                    for cv, lb in ins[5]:
                        c = T.icmp('eq', w, v, cv & ((1 << w) - 1))
                        neg.append(T.bnot(c))
                        byl.setdefault(lb, []).append(c)
                    alts = [(T.bor(*cs), lb) for lb, cs in byl.items()] + [(T.band(*neg), ins[4])]
                    for c, lb in alts:
                        if c is False or not self.may(st, c):
                            continue
                        s2 = st.fork()
                        if c is not True:
                            s2.pc = s2.pc + (c,)
                        self.goto(s2, s2.frames[-1], lb)
                        out.append(s2)
                    self.forks += max(0, len(out) - 1)
                    return out
                elif k == 'fcmp':
                    a, b = val(st, fr, ins[3], ins[4]), val(st, fr, ins[3], ins[5])
                    regs[d] = T.fcmp(ins[2], a, b)
                elif k == 'icmp':
                    a, b = val(st, fr, ins[3], ins[4]), val(st, fr, ins[3], ins[5])
                    regs[d] = self.icmp(ins[2], ins[3], a, b)
                elif k == 'ibin':
                    w = ins[3][1] if ins[3][0] == 'i' else None
                    a, b = val(st, fr, ins[3], ins[4]), val(st, fr, ins[3], ins[5])
                    if is_ptr(a) or is_ptr(b):
                        regs[d] = self.ptr_arith(ins[2], a, b)
                    elif a is UNDEF or b is UNDEF:
                        # literal undef padding of a coerced struct: 'and undef, mask' may be taken as 0
                        regs[d] = 0 if ins[2] == 'and' and (ins[4][0] == 'undef' or ins[5][0] == 'undef') else UNDEF
                    else:
                        if w is None:
                            regs[d] = [T.ibin(ins[2], ins[3][2][1], x, y) for x, y in zip(a, b)]
                        else:
                            regs[d] = T.ibin(ins[2], w, self.fixw(a, w), self.fixw(b, w))
                elif k == 'fneg':
                    a = val(st, fr, ins[2], ins[3])
                    regs[d] = T.fneg(a) if type(a) is Node else [T.fneg(x) for x in a]
                elif k == 'cast':
                    if ins[2] == 'zext' and ins[4][0] == 'undef':
                        regs[d] = 0
                    else:
                        regs[d] = self.cast(st, ins[2], ins[3], val(st, fr, ins[3], ins[4]), ins[5])
                elif k == 'extractvalue':
                    v = val(st, fr, ins[2], ins[3])
                    for i in ins[4]:
                        v = v[i]
                    regs[d] = v
                elif k == 'insertvalue':
                    v = val(st, fr, ins[2], ins[3])
                    e = val(st, fr, ins[4], ins[5])
                    regs[d] = self.insval(v, ins[6], e)
                elif k == 'select':
                    c = val(st, fr, ('i', 1), ins[3])
                    a, b = val(st, fr, ins[2], ins[4]), val(st, fr, ins[2], ins[5])
                    c = T.tobool(c)
                    if type(c) is not Node:
                        regs[d] = a if c else b
                    else:
                        regs[d] = self.mergeval(c, a, b, ins[2])
                elif k == 'landingpad':
                    tname, obj = st.exc
                    sel = None
                    for ck, cv in ins[3]:
                        if ck != 'catch':
                            continue
                        if cv[0] == 'null':
                            sel = self.tid(None)
                            break
                        nm = cv[1]
                        if nm == tname or nm in EXC_BASES.get(tname, []):
                            sel = self.tid(nm)
                            break
                    if sel is None:
                        if not ins[4]:
                            # not caught here: keep unwinding
                            st.frames.pop()
                            if not self.unwind(st):
                                return [Outcome('throw', st, None, st.exc)]
                            break
                        sel = 0
                    regs[d] = [obj, sel]
                elif k == 'resume':
                    st.frames.pop()
                    if not self.unwind(st):
                        return [Outcome('throw', st, None, st.exc)]
                    break
                elif k == 'unreachable':
                    return [Outcome('abort', st, None, 'unreachable')]
                elif k == 'freeze':
                    regs[d] = val(st, fr, ins[2], ins[3])
                elif k == 'extractelement':
                    regs[d] = val(st, fr, ins[2], ins[3])[val(st, fr, ('i', 64), ins[4])]
                elif k == 'insertelement':
                    v = list(val(st, fr, ins[2], ins[3]))
                    v[val(st, fr, ('i', 64), ins[5])] = val(st, fr, ins[2][2], ins[4])
                    regs[d] = v
                elif k == 'atomicrmw':
                    p = val(st, fr, ('ptr',), ins[4])
                    old = self.load(st, m, ins[3], p)
                    nv = val(st, fr, ins[3], ins[5])
                    if ins[2] != 'xchg':
                        nv = T.ibin(ins[2], ins[3][1], old, nv)
                    self.store(st, m, ins[3], nv, p)
                    regs[d] = old
                elif k == 'fence':
                    pass
                else:
                    raise EngineError('inst ' + k)
                fr.idx += 1

    def insval(self, v, idx, e):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insval(v[idx[0]], idx[1:], e)
        return v

    def fop(self, op, a, b):
        if type(a) is not Node or type(b) is not Node:
            if a is UNDEF or b is UNDEF:
                return self.undef(('f', 64))
            raise EngineError('float op on %r %r' % (a, b))
        if op == 'frem':
            return T.fn('fmod', a, b)
        return T.fbin(op[1:], a, b)

    def may(self, st, c):
        if type(c) is bool:
            return c
        for x in st.pc:
            if type(x) is Node:
                if x.op == 'not' and x.args[0] is c:
                    return False
                if c.op == 'not' and c.args[0] is x:
                    return False
                if x.op == 'and':
                    for y in x.args:
                        if (y.op == 'not' and y.args[0] is c) or (c.op == 'not' and c.args[0] is y):
                            return False
        if self.feasible is None:
            return True
        return self.feasible(st.pc, c)

    def icmp(self, pred, ty, a, b):
        if type(a) is PIte:
            return T.ite(a.c, self.icmp(pred, ty, a.a, b), self.icmp(pred, ty, a.b, b)) \
                if True else None
        if type(b) is PIte:
            return T.ite(b.c, self.icmp(pred, ty, a, b.a), self.icmp(pred, ty, a, b.b))
        if is_ptr(a) or is_ptr(b):
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if pred in ('eq', 'ne'):
                return (a == b) == (pred == 'eq')
            if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
                return T.icmp(pred, 64, a.off, b.off)
            if type(a) is Ptr and type(b) is Ptr:
                # unrelated objects: fixed arbitrary order
                return T.icmp(pred, 64, hash(str(a.obj)) & 0xffffffff, hash(str(b.obj)) & 0xffffffff)
            raise EngineError('pointer compare')
        if a is UNDEF or b is UNDEF:
            raise EngineError('compare of undefined value')
        w = ty[1] if ty[0] == 'i' else 64
        return T.icmp(pred, w, self.fixw(a, w), self.fixw(b, w))

    def cast(self, st, op, ft, v, tt):
        if op in ('bitcast', 'addrspacecast'):
            if ft[0] == 'f' or tt[0] == 'f':
                return self.coerce(v, tt)
            return v
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, int):
                return NULL if v == 0 else Ptr(0, v)
            if op == 'ptrtoint' and v == NULL:
                return 0
            return v
        if op in ('trunc', 'zext', 'sext'):
            if v is UNDEF:
                return UNDEF
            if is_ptr(v):
                return v
            return T.icast(op, ft[1], tt[1], self.fixw(v, ft[1]))
        if op in ('sitofp', 'uitofp'):
            return T.itof(op, ft[1], self.fixw(v, ft[1]))
        if op in ('fpext', 'fptrunc'):
            if self.mode == 'fp' and not T.is_const(v):
                raise EngineError('float width change')
            return v
        if op in ('fptosi', 'fptoui'):
            if v.op == 'c':
                return int(v.args[0]) & ((1 << tt[1]) - 1)
            if v.op in ('sitofp', 'uitofp') and v.args[0] == tt[1]:
                return v.args[1]
            return T.mk('fptosi', (v, tt[1]), ('i', tt[1]))
        raise EngineError('cast ' + op)

    def do_call(self, st, fr, ins):
        rt, callee = ins[2], ins[3]
        m = fr.fn.module
        if callee[0] == 'g':
            name = callee[1]
            mod = m
            if name.startswith('llvm.'):
                return self.intrinsic(st, fr, ins, name)
        else:
            fp = self.val(st, fr, ('ptr',), callee)
            if type(fp) is not FnPtr:
                raise EngineError('indirect call through %r' % (fp,))
            name, mod = fp.name, fp.module
        kind, tgt = self.resolve(mod, name)
        args = []
        for t, v, at in ins[4]:
            x = self.val(st, fr, t, v)
            if t[0] == 'i':
                x = self.fixw(x, t[1])
            args.append(x)
        if kind == 'fn':
            self.push(st, tgt, args, ins)
            return 'pushed'
        self.stubbed[name] = self.stubbed.get(name, 0) + 1
        r = tgt(self, st, args, (name, rt, m))
        return self.finish(st, fr, ins, r)

    def finish(self, st, fr, ins, r):
        if type(r) is Throw:
            st.exc = (r.tname, r.obj)
            return 'throw'
        if type(r) is Abort:
            return Outcome('abort', st, None, r.why)
        if type(r) is Fork:
            out = []
            for c, thunk in r.alts:
                if c is False or (c is not True and not self.may(st, c)):
                    continue
                s2 = st.fork()
                if c is not True:
                    s2.pc = s2.pc + (c,)
                f2 = s2.frames[-1]
                v = thunk(self, s2)
                k = self.finish(s2, f2, ins, v)
                if k is None:
                    if ins[5] is not None:
                        self.goto(s2, f2, ins[5])
                    else:
                        f2.idx += 1
                    out.append(s2)
                elif k == 'throw':
                    if self.unwind(s2):
                        out.append(s2)
                    else:
                        out.append(Outcome('throw', s2, None, s2.exc))
                elif type(k) is Outcome:
                    out.append(k)
                else:
                    out.extend(k)
            return out
        if ins[0] is not None:
            fr.regs[ins[0]] = r
        return None

    def intrinsic(self, st, fr, ins, name):
        A = [self.val(st, fr, t, v) if t[0] != 'metadata' else None for t, v, _ in ins[4]]
        d = ins[0]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant',
                            'llvm.va_', 'llvm.prefetch', 'llvm.donothing')):
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, A[0], A[1], A[2])
            return None
        if name.startswith('llvm.memset'):
            self.memset(st, A[0], A[1], A[2])
            return None
        if name.startswith('llvm.fabs'):
            r = T.fn('fabs', A[0])
        elif name.startswith('llvm.fmuladd') or name.startswith('llvm.fma.'):
            r = T.fadd(T.fmul(A[0], A[1]), A[2])
        elif name.startswith('llvm.copysign'):
            r = T.ite(T.fcmp('olt', A[1], T.fconst(0)), T.fneg(T.fn('fabs', A[0])), T.fn('fabs', A[0]))
        elif name.startswith('llvm.is.fpclass'):
            r = self.fpclass(A[0], A[1])
        elif name.startswith('llvm.eh.typeid.for'):
            r = self.tid(ins[4][0][1][1] if ins[4][0][1][0] == 'g' else None)
        elif name.startswith('llvm.expect'):
            r = A[0]
        elif name.startswith(('llvm.maxnum', 'llvm.minnum')):
            c = T.fcmp('olt', A[0], A[1])
            r = T.ite(c, A[1], A[0]) if 'max' in name else T.ite(c, A[0], A[1])
        elif name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            w = ins[2][1]
            c = T.icmp(('s' if name[5] == 's' else 'u') + 'lt', w, A[0], A[1])
            r = T.iite(c, A[1], A[0], w) if 'max' in name else T.iite(c, A[0], A[1], w)
        elif name.startswith('llvm.abs.'):
            w = ins[2][1]
            r = T.iite(T.icmp('slt', w, A[0], 0), T.ibin('sub', w, 0, A[0]), A[0], w)
        elif name.startswith(('llvm.sqrt', 'llvm.log.', 'llvm.exp.', 'llvm.pow.', 'llvm.sin.', 'llvm.cos.',
                              'llvm.floor', 'llvm.ceil')):
            r = T.fn(name.split('.')[1], *A)
        elif name.startswith('llvm.powi'):
            r = T.fn('pow', A[0], T.fconst(T._s(A[1], 32)))
        elif name.startswith('llvm.trap'):
            return Outcome('abort', st, None, 'trap')
        elif name.startswith(('llvm.stacksave',)):
            r = NULL
        elif name.startswith(('llvm.stackrestore',)):
            return None
        elif name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.smul.with.overflow',
                              'llvm.sadd.with.overflow')):
            w = ins[4][0][0][1]
            a, b = A
            full = a * b if 'mul' in name else a + b
            r = [full & ((1 << w) - 1), full >= (1 << w)]
        elif name.startswith('llvm.objectsize'):
            r = (1 << 64) - 1
        elif name.startswith('llvm.load.relative'):
            raise EngineError(name)
        elif name.startswith('llvm.threadlocal.address'):
            r = A[0]
        else:
            raise EngineError('intrinsic ' + name)
        if d is not None:
            fr.regs[d] = r
        return None

    def fpclass(self, x, mask):
        # bits: 0 sNaN 1 qNaN 2 -inf 3 -normal 4 -subn 5 -0 6 +0 7 +subn 8 +normal 9 +inf
        mask = int(mask)
        inf = T.mk('inf', (1,), 'f')
        parts = []
        if (mask & 3) == 3:
            parts.append(T.fcmp('uno', x, x))
        if (mask & 0x204) == 0x204:
            parts.append(T.fcmp('oeq', T.fn('fabs', x), inf))
            mask &= ~0x204
        elif mask & 0x200:
            parts.append(T.fcmp('oeq', x, inf))
        elif mask & 4:
            parts.append(T.fcmp('oeq', x, T.fneg(inf)))
        fin = mask & 0x1f8
        if fin == 0x1f8:
            parts.append(T.band(T.fcmp('ord', x, x), T.fcmp('olt', T.fn('fabs', x), inf)))
        elif fin:
            raise EngineError('fpclass mask %x' % mask)
        return T.bor(*parts)
