"""Textual LLVM-IR (LLVM 18, opaque pointers) -> Python structures.

Function bodies are parsed lazily, i.e. only if the executor enters them."""
import re
import struct
from fractions import Fraction

# ---------------------------------------------------------------- types
# ('i',n) ('f',64|32|80) ('ptr',) ('void',) ('arr',n,T) ('st',[T],packed)
# ('named',name) ('vec',n,T) ('label',) ('metadata',) ('fn',)

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+|\{)?)
 | (?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d*(?:e[+-]?\d+)?)?)
 | (?P<attr>\#\d+)
 | (?P<word>[a-zA-Z_$][-a-zA-Z0-9_$.]*)
 | (?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise ValueError('tokenize: %r' % s[pos:pos + 60])
        pos = m.end()
        out.append(m.group(m.lastgroup))
    return out


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if x != y:
            raise ValueError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))


FLT = {'double': ('f', 64), 'float': ('f', 32), 'x86_fp80': ('f', 80), 'half': ('f', 16), 'fp128': ('f', 128)}


def parse_type(p):
    t = p.next()
    if t == 'void':
        ty = ('void',)
    elif t == 'ptr':
        ty = ('ptr',)
        if p.peek() == 'addrspace':
            p.next(); p.next(); p.next(); p.next()
    elif t in FLT:
        ty = FLT[t]
    elif t in ('label', 'metadata', 'token'):
        ty = (t,)
    elif t[0] == 'i' and t[1:].isdigit():
        ty = ('i', int(t[1:]))
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = ('arr', n, e)
    elif t == '{':
        ty = ('st', tuple(parse_list(p, '}')), False)
    elif t == '<':
        if p.peek() == '{':
            p.next()
            ty = ('st', tuple(parse_list(p, '}')), True)
            p.expect('>')
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            ty = ('vec', n, e)
    elif t[0] == '%':
        ty = ('named', t[1:].strip('"'))
    elif t == 'opaque':
        ty = ('st', (), False)
    else:
        raise ValueError('type? %s in %s' % (t, ' '.join(map(str, p.t[max(0, p.i - 5):p.i + 10]))))
    # function type  "T (args)"
    if p.peek() == '(' and ty[0] != 'metadata':
        # only treat as function type when caller wants it; look ahead for call syntax
        pass
    return ty


def parse_list(p, end):
    out = []
    if p.accept(end):
        return out
    while True:
        out.append(parse_type(p))
        if p.accept(','):
            continue
        p.expect(end)
        return out


ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'byref', 'inalloca',
              'elementtype', 'allocsize', 'memory', 'nofpclass', 'initializes', 'range'}
ATTR_WORDS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
              'zeroext', 'inreg', 'returned', 'immarg', 'noreturn', 'nounwind', 'swiftself', 'nest', 'nofree',
              'allocalign', 'allocptr', 'captures', 'dead_on_unwind', 'writable'}


def skip_attrs(p):
    """skip parameter attributes, return dict of the interesting ones"""
    at = {}
    while True:
        t = p.peek()
        if t in ATTR_WORDS:
            p.next()
            at[t] = True
        elif t in ATTR_PAREN:
            p.next()
            if p.peek() == '(':
                p.next()
                if t in ('byval', 'sret'):
                    at[t] = parse_type(p)
                    p.expect(')')
                else:
                    d = 1
                    while d:
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
            elif t == 'align':
                p.next()
        elif t is not None and t[0] == '"':
            p.next()
            if p.accept('='):
                p.next()
        else:
            return at


# ---------------------------------------------------------------- operands
# ('l',name) local, ('g',name) global, ('ci',int) ('cf',float,text) ('null',) ('undef',)
# ('zero',) ('agg',[ (T,op) ]) ('str',bytes) ('ce',opcode,...) constant expression

def hexfloat(t):
    if t.startswith('0xK'):
        v = int(t[3:], 16)
        sign = -1 if v >> 79 else 1
        e = (v >> 64) & 0x7fff
        m = v & ((1 << 64) - 1)
        return float(Fraction(m) * Fraction(2) ** (e - 16383 - 63) * sign)
    if t[2] in 'LMHR':
        raise ValueError('float literal ' + t)
    return struct.unpack('<d', struct.pack('<Q', int(t[2:], 16)))[0]


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


CE = {'getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul', 'icmp',
      'select', 'addrspacecast', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


def parse_value(p, ty):
    t = p.next()
    c = t[0]
    if c == '%':
        return ('l', t[1:].strip('"'))
    if c == '@':
        return ('g', t[1:].strip('"'))
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t == 'true':
        return ('ci', 1)
    if t == 'false':
        return ('ci', 0)
    if t == 'none':
        return ('null',)
    if t.startswith('0x'):
        return ('cf', hexfloat(t))
    if c == '-' or c.isdigit():
        if ty[0] == 'f':
            return ('cf', float(t))
        return ('ci', int(t))
    if c == 'c' and t.startswith('c"'):
        return ('str', unescape(t[2:-1]))
    if t == 'splat':
        raise ValueError('splat')
    if t in ('[', '{'):
        end = {'[': ']', '{': '}'}[t]
        out = []
        if p.accept(end):
            return ('agg', out)
        while True:
            et = parse_type(p)
            out.append((et, parse_value(p, et)))
            if p.accept(','):
                continue
            p.expect(end)
            return ('agg', out)
    if t == '<':
        if p.peek() == '{':
            p.next()
            p.i -= 1
            v = parse_value(p, ty)
            p.expect('>')
            return v
        out = []
        while True:
            et = parse_type(p)
            out.append((et, parse_value(p, et)))
            if p.accept(','):
                continue
            p.expect('>')
            return ('agg', out)
    if t in CE:
        if t == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                p.next()
            if p.peek() == 'inrange':
                p.next()
            p.expect('(')
            bt = parse_type(p)
            p.expect(',')
            ops = []
            while True:
                while p.peek() in ('inrange',):
                    p.next()
                    if p.peek() == '(':
                        while p.next() != ')':
                            pass
                ot = parse_type(p)
                ops.append((ot, parse_value(p, ot)))
                if p.accept(','):
                    continue
                p.expect(')')
                break
            return ('ce', 'gep', bt, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            ot = parse_type(p)
            v = parse_value(p, ot)
            p.expect('to')
            nt = parse_type(p)
            p.expect(')')
            return ('ce', t, ot, v, nt)
        while p.peek() in ('nuw', 'nsw', 'exact'):
            p.next()
        p.expect('(')
        at = parse_type(p)
        a = parse_value(p, at)
        p.expect(',')
        btp = parse_type(p)
        b = parse_value(p, btp)
        p.expect(')')
        return ('ce', t, at, a, b)
    if t in ('dso_local_equivalent', 'no_cfi'):
        return parse_value(p, ty)
    raise ValueError('value? %s in %s' % (t, ' '.join(p.t)))


FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
IBIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}
CC = {'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'dso_local', 'weak_odr', 'linkonce_odr', 'internal',
      'private', 'hidden', 'unnamed_addr', 'local_unnamed_addr', 'weak', 'external', 'available_externally',
      'noalias', 'nonnull', 'noundef', 'signext', 'zeroext', 'comdat', 'linkonce', 'protected', 'default'}


def parse_call_rest(p):
    """after 'call'/'invoke' keyword: returns (rettype, callee, [(T,op,attrs)])"""
    while p.peek() in CC or p.peek() in FMF or p.peek() in ATTR_PAREN or p.peek() in ATTR_WORDS:
        skip = p.peek()
        if skip in ATTR_PAREN:
            skip_attrs(p)
        else:
            p.next()
    rt = parse_type(p)
    if p.peek() == '(':
        # function type given explicitly (varargs)
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
    if p.peek() == 'asm':
        raise ValueError('inline asm')
    callee = parse_value(p, ('ptr',))
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            at = parse_type(p)
            attrs = skip_attrs(p)
            if at[0] == 'metadata':
                d = 0
                while p.peek() not in (',', ')') or d:
                    x = p.next()
                    if x in '({':
                        d += 1
                    elif x in ')}':
                        d -= 1
                args.append((at, ('undef',), {}))
            else:
                args.append((at, parse_value(p, at), attrs))
            if p.accept(','):
                continue
            p.expect(')')
            break
    return rt, callee, args


def parse_inst(line):
    """-> (dest or None, opcode, ...)"""
    toks = tokenize(line)
    p = P(toks)
    dest = None
    if len(toks) > 1 and toks[0][0] == '%' and toks[1] == '=':
        dest = toks[0][1:].strip('"')
        p.i = 2
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in FBIN:
        while p.peek() in FMF:
            p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return (dest, 'fbin', op, ty, a, b)
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        ty = parse_type(p)
        return (dest, 'fneg', ty, parse_value(p, ty))
    if op in IBIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return (dest, 'ibin', op, ty, a, b)
    if op == 'load':
        p.accept('atomic'); p.accept('volatile')
        ty = parse_type(p)
        p.expect(',')
        pt = parse_type(p)
        return (dest, 'load', ty, parse_value(p, pt))
    if op == 'store':
        p.accept('atomic'); p.accept('volatile')
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        pt = parse_type(p)
        return (None, 'store', ty, v, parse_value(p, pt))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            ot = parse_type(p)
            ops.append((ot, parse_value(p, ot)))
            if not p.accept(','):
                break
            if p.peek() and p.peek()[0] == '!':
                break
        return (dest, 'gep', bt, ops)
    if op == 'alloca':
        p.accept('inalloca')
        ty = parse_type(p)
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                nt = parse_type(p)
                n = parse_value(p, nt)
        return (dest, 'alloca', ty, n)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return (None, 'br', p.next()[1:].strip('"'))
        ty = parse_type(p)
        c = parse_value(p, ty)
        p.expect(','); p.expect('label')
        a = p.next()[1:].strip('"')
        p.expect(','); p.expect('label')
        b = p.next()[1:].strip('"')
        return (None, 'cbr', c, a, b)
    if op == 'switch':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(','); p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = parse_type(p)
            cv = parse_value(p, ct)
            p.expect(','); p.expect('label')
            cases.append((cv[1], p.next()[1:].strip('"')))
        return (None, 'switch', ty, v, d, cases)
    if op == 'ret':
        ty = parse_type(p)
        if ty[0] == 'void':
            return (None, 'ret', None, None)
        return (None, 'ret', ty, parse_value(p, ty))
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            b = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((b, v))
            if not p.accept(','):
                break
            if p.peek() and p.peek()[0] == '!':
                break
        return (dest, 'phi', ty, inc)
    if op in ('call', 'invoke'):
        rt, callee, args = parse_call_rest(p)
        if op == 'call':
            return (dest, 'call', rt, callee, args, None, None)
        while p.peek() != 'to':
            p.next()
        p.next(); p.expect('label')
        n = p.next()[1:].strip('"')
        p.expect('unwind'); p.expect('label')
        u = p.next()[1:].strip('"')
        return (dest, 'call', rt, callee, args, n, u)
    if op in ('fcmp', 'icmp'):
        while p.peek() in FMF or p.peek() == 'samesign':
            p.next()
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return (dest, op, pred, ty, a, b)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ft = parse_type(p)
        v = parse_value(p, ft)
        p.expect('to')
        return (dest, 'cast', op, ft, v, parse_type(p))
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        ct = parse_type(p)
        c = parse_value(p, ct)
        p.expect(',')
        at = parse_type(p)
        a = parse_value(p, at)
        p.expect(',')
        bt = parse_type(p)
        b = parse_value(p, bt)
        return (dest, 'select', at, c, a, b)
    if op == 'extractvalue':
        at = parse_type(p)
        a = parse_value(p, at)
        idx = []
        while p.accept(','):
            if not p.peek().isdigit():
                break
            idx.append(int(p.next()))
        return (dest, 'extractvalue', at, a, idx)
    if op == 'insertvalue':
        at = parse_type(p)
        a = parse_value(p, at)
        p.expect(',')
        et = parse_type(p)
        e = parse_value(p, et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return (dest, 'insertvalue', at, a, et, e, idx)
    if op == 'extractelement':
        at = parse_type(p)
        a = parse_value(p, at)
        p.expect(',')
        it = parse_type(p)
        return (dest, 'extractelement', at, a, parse_value(p, it))
    if op == 'insertelement':
        at = parse_type(p)
        a = parse_value(p, at)
        p.expect(',')
        et = parse_type(p)
        e = parse_value(p, et)
        p.expect(',')
        it = parse_type(p)
        return (dest, 'insertelement', at, a, e, parse_value(p, it))
    if op == 'landingpad':
        ty = parse_type(p)
        clauses = []
        cleanup = False
        while p.peek() is not None:
            t = p.next()
            if t == 'cleanup':
                cleanup = True
            elif t == 'catch':
                ct = parse_type(p)
                clauses.append(('catch', parse_value(p, ct)))
            elif t == 'filter':
                ct = parse_type(p)
                clauses.append(('filter', parse_value(p, ct)))
        return (dest, 'landingpad', ty, clauses, cleanup)
    if op == 'resume':
        ty = parse_type(p)
        return (None, 'resume', ty, parse_value(p, ty))
    if op == 'unreachable':
        return (None, 'unreachable')
    if op == 'freeze':
        ty = parse_type(p)
        return (dest, 'freeze', ty, parse_value(p, ty))
    if op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()
        pt = parse_type(p)
        a = parse_value(p, pt)
        p.expect(',')
        vt = parse_type(p)
        return (dest, 'atomicrmw', o, vt, a, parse_value(p, vt))
    if op == 'fence':
        return (None, 'fence')
    raise ValueError('inst? ' + line)


class Func:
    __slots__ = ('name', 'module', 'params', 'ret', 'lines', '_blocks', 'order', 'rpo', 'demangled')

    def __init__(self, name, module, ret, params, lines):
        self.name = name
        self.module = module
        self.ret = ret
        self.params = params      # [(type, name, attrs)]
        self.lines = lines
        self._blocks = None
        self.rpo = None
        self.demangled = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        # the entry label is either explicit, or the next unnamed number
        first = None
        nnum = 0
        for _, nm, _ in self.params:
            if nm.isdigit():
                nnum = max(nnum, int(nm) + 1)
        cur = None
        i = 0
        L = self.lines
        while i < len(L):
            ln = L[i]
            s = ln.strip()
            i += 1
            if not s or s[0] == ';':
                continue
            if not ln.startswith(' '):
                m = re.match(r'("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    cur = m.group(1).strip('"')
                    blocks[cur] = []
                    order.append(cur)
                    continue
            if cur is None:
                cur = str(nnum)
                blocks[cur] = []
                order.append(cur)
            # strip metadata attachments / debug records
            if s.startswith('#dbg'):
                continue
            if s.startswith('switch') and s.endswith('['):
                while not s.rstrip().endswith(']'):
                    s += ' ' + L[i].strip()
                    i += 1
            elif ' invoke ' in ' ' + s and ' unwind ' not in s:
                s += ' ' + L[i].strip()
                i += 1
            elif 'landingpad' in s:
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i]):
                    s += ' ' + L[i].strip()
                    i += 1
            k = s.find(', !')
            if k > 0 and '"' not in s[:k]:
                s = s[:k]
            blocks[cur].append(parse_inst(s))
        self._blocks = blocks
        self.order = order
        self._rpo()

    def succs(self, b):
        t = self._blocks[b][-1]
        k = t[1]
        if k == 'br':
            return [t[2]]
        if k == 'cbr':
            return [t[3], t[4]]
        if k == 'switch':
            return [t[4]] + [c[1] for c in t[5]]
        if k == 'call' and t[5] is not None:
            return [t[5], t[6]]
        return []

    def _rpo(self):
        seen = set()
        post = []
        stack = [(self.order[0], iter(self.succs(self.order[0])))]
        seen.add(self.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}      # name -> (type, init-token or None, const?)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._parse(open(path).read().split('\n'))

    def _parse(self, L):
        i = 0
        n = len(L)
        while i < n:
            ln = L[i]
            i += 1
            if ln.startswith('define '):
                j = i
                while L[j] != '}':
                    j += 1
                self._define(ln, L[i:j])
                i = j + 1
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m:
                    self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%'):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                if m:
                    self._global(m.group(1).strip('"'), m.group(2))

    def _global(self, name, rest):
        m = re.match(r'(.*?)\b(global|constant|alias)\b (.*)$', rest)
        if not m:
            return
        if m.group(2) == 'alias':
            mm = re.search(r', ptr (@.*)$', m.group(3))
            self.aliases[name] = parse_value(P(tokenize(mm.group(1))), ('ptr',))
            return
        self.globals[name] = [m.group(3), 'external' in m.group(1).split() or 'extern_weak' in m.group(1).split(),
                              'internal' in m.group(1) or 'private' in m.group(1), m.group(2) == 'constant']

    def global_info(self, name):
        """-> (type, init operand or None)"""
        g = self.globals[name]
        if isinstance(g[0], str):
            s = g[0]
            p = P(tokenize(s))
            ty = parse_type(p)
            init = None
            if not g[1]:
                init = parse_value(p, ty)
            g[0] = (ty, init)
        return g[0]

    def named(self, name):
        t = self.types[name]
        if isinstance(t, str):
            t = parse_type(P(tokenize(t)))
            self.types[name] = t
        return t

    def _define(self, hdr, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
        name = m.group(1).strip('"')
        p = P(tokenize(hdr[m.end():hdr.rindex('{')]))
        params = []
        idx = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                ty = parse_type(p)
                at = skip_attrs(p)
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()[1:].strip('"')
                else:
                    nm = str(idx)
                idx += 1
                params.append((ty, nm, at))
                if p.accept(','):
                    continue
                p.expect(')')
                break
        internal = ' internal ' in hdr or ' private ' in hdr
        f = Func(name, self, None, params, body)
        self.funcs[name] = f
        f.demangled = None
