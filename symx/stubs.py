"""Models of library functions the executor does not enter."""
from . import terms as T
from .execu import NULL, Ptr, FnPtr, Throw, Abort, EngineError, UNDEF


def _math1(name):
    return lambda ex, st, a, i: T.fn(name, a[0])


def install(ex):
    S = ex.stubs
    for n in ('log', 'exp', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'cbrt', 'log1p', 'expm1', 'fabs',
              'floor', 'ceil'):
        S[n] = _math1(n)
        S[n + 'l'] = _math1(n)
    S['sqrt'] = lambda ex, st, a, i: T.fn('sqrt', a[0])
    for n in ('atan2', 'pow', 'hypot', 'fmod'):
        S[n] = (lambda n: lambda ex, st, a, i: T.fn(n, a[0], a[1]))(n)

    def fmax(ex, st, a, i):
        return T.ite(T.fcmp('olt', a[0], a[1]), a[1], a[0])

    def fmin(ex, st, a, i):
        return T.ite(T.fcmp('olt', a[0], a[1]), a[0], a[1])
    S['fmax'] = fmax
    S['fmin'] = fmin

    def opnew(ex, st, a, i):
        if type(a[0]) is not int:
            raise EngineError('symbolic allocation size')
        return ex.new_obj(st, a[0], None, 'heap')
    for n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
        S[n] = opnew
    S['aligned_alloc'] = lambda ex, st, a, i: ex.new_obj(st, a[1], None, 'heap')
    S['calloc'] = lambda ex, st, a, i: ex.new_obj(st, a[0] * a[1], 0, 'heap')

    def opdel(ex, st, a, i):
        return None
    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', 'free', '_ZdlPvmSt11align_val_t'):
        S[n] = opdel

    # exceptions
    S['__cxa_allocate_exception'] = lambda ex, st, a, i: ex.new_obj(st, max(a[0], 16), None, 'exception')
    S['__cxa_free_exception'] = lambda ex, st, a, i: None

    def cxa_throw(ex, st, a, i):
        t = a[1]
        return Throw(t.obj[2] if type(t) is Ptr else str(t), a[0])
    S['__cxa_throw'] = cxa_throw
    S['__cxa_begin_catch'] = lambda ex, st, a, i: a[0]
    S['__cxa_end_catch'] = lambda ex, st, a, i: None

    def rethrow(ex, st, a, i):
        return Throw(st.exc[0], st.exc[1])
    S['__cxa_rethrow'] = rethrow
    S['_ZSt9terminatev'] = lambda ex, st, a, i: Abort('terminate')
    S['__clang_call_terminate'] = lambda ex, st, a, i: Abort('terminate')
    S['abort'] = lambda ex, st, a, i: Abort('abort')
    S['__assert_fail'] = lambda ex, st, a, i: Abort('assert')
    S['__cxa_atexit'] = lambda ex, st, a, i: 0
    for nm, t in (('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
                  ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
                  ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
                  ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
                  ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc'),
                  ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                  ('_ZSt20__throw_system_errori', '_ZTISt12system_error'),
                  ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
                  ('_ZN5Eigen8internal19throw_std_bad_allocEv', '_ZTISt9bad_alloc')):
        S[nm] = (lambda t: lambda ex, st, a, i: Throw(t))(t)

    # complex arithmetic (finite operands)
    def cmulc(ex, st, a, i):
        x, y, u, v = a
        return [T.fsub(T.fmul(x, u), T.fmul(y, v)), T.fadd(T.fmul(x, v), T.fmul(y, u))]

    def cdivc(ex, st, a, i):
        x, y, u, v = a
        n = T.fadd(T.fmul(u, u), T.fmul(v, v))
        return [T.fdiv(T.fadd(T.fmul(x, u), T.fmul(y, v)), n), T.fdiv(T.fsub(T.fmul(y, u), T.fmul(x, v)), n)]

    def csqrtc(ex, st, a, i):
        x, y = a
        m = T.fn('sqrt', T.fadd(T.fmul(x, x), T.fmul(y, y)))
        h = T.fconst(0.5)
        im = T.fn('sqrt', T.fmul(T.fsub(m, x), h))
        return [T.fn('sqrt', T.fmul(T.fadd(m, x), h)), T.ite(T.fcmp('olt', y, T.ZERO), T.fneg(im), im)]
    S['__muldc3'], S['__divdc3'], S['csqrt'] = cmulc, cdivc, csqrtc

    # guards for function-local statics
    def guard_acquire(ex, st, a, i):
        v = ex.load(st, i[2], ('i', 8), a[0])
        if v == 0 or v is UNDEF:
            return 1
        return 0

    def guard_release(ex, st, a, i):
        ex.store(st, i[2], ('i', 8), 1, a[0])
    S['__cxa_guard_acquire'] = guard_acquire
    S['__cxa_guard_release'] = guard_release
    S['__cxa_guard_abort'] = lambda ex, st, a, i: None

    # strings, streams and locale objects are opaque
    def opaque(ex, st, a, i):
        rt = i[1]
        if rt[0] == 'void':
            return None
        if rt[0] == 'ptr':
            return a[0] if a else NULL
        if rt[0] == 'i':
            return False if rt[1] == 1 else 0
        if rt[0] == 'f':
            return T.fconst(0.0)
        return UNDEF
    ex.opaque = opaque
    for pat in (r'^std::__cxx11::basic_string<', r'^std::basic_ostream<', r'^std::ostream::', r'^std::ios_base::',
                r'^std::allocator<char>', r'^std::__new_allocator<char>', r'^std::__cxx11::to_string\(',
                r'^std::(__cxx11::)?basic_[io]*stringstream<', r'^std::basic_ios<', r'^std::locale::',
                r'std::basic_ostream<.*(std::)?operator<<', r'operator<<.*basic_ostream', r'^std::endl',
                r'std::__cxx11::basic_string<.*> std::operator\+<', r'^std::flush',
                r'^std::runtime_error::', r'^std::logic_error::', r'^std::exception::', r'^std::out_of_range::',
                r'^std::invalid_argument::', r'^std::domain_error::', r'^std::overflow_error::',
                r'^std::__detail::__to_chars', r'^std::setprecision', r'^std::terminate', r'^void std::__throw'):
        ex.restub(pat, opaque)
    S['strlen'] = lambda ex, st, a, i: 0
    S['_ZNSt8ios_base4InitC1Ev'] = opaque
    S['_ZNSt8ios_base4InitD1Ev'] = opaque

    # threads
    def mlock(ex, st, a, i):
        k = ('mutex', a[0].obj, a[0].off)
        if st.tags.get(k, 0):
            ex.obligations.append((st.pc, False, 'lock of a mutex already held (self-deadlock)'))
        st.tags[k] = 1
        return 0

    def munlock(ex, st, a, i):
        k = ('mutex', a[0].obj, a[0].off)
        if not st.tags.get(k, 0):
            ex.obligations.append((st.pc, False, 'unlock of a mutex not held'))
        st.tags[k] = 0
        return 0
    S['pthread_mutex_lock'] = mlock
    S['pthread_mutex_unlock'] = munlock
    S['__gthread_active_p'] = lambda ex, st, a, i: 1
    S['_ZL18__gthread_active_pv'] = lambda ex, st, a, i: 1
