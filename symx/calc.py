"""The calculator entries (harness/calc.cpp) with the hierarchy classes abstracted to records of their arguments."""
import os
import re
from . import build, par, terms as T
from .execu import Ptr

HID = dict(h3=0, h32q2g=1, h3q22g=2, h4=3, h5=4, h5g1=5, h6=6, h6b=7, h6b2qg2=8, h6bq22g=9, h6bq2g2=10, h6g2=11, h9=12,
           h9q2=13)
ID2H = {v: 'H' + k[1:] for k, v in HID.items()}
FLAGS = 'threeLoop Mst Dmglst1 Dmsqst1 Dmst12 At lmMsusy Msq Msusy Dmglst2 Dmsqst2 Mgl'.split()
TUS = ['calc.cpp', 'HierarchyCalculator.cpp', 'HierarchyObject.cpp', 'Himalaya_interface.cpp']
POS = [n for n in par.NAMES if n not in ('mu', 'Au', 'Ad', 'Ae', 's2t', 's2b', 's2tau', 'theta_t', 'theta_b', 'theta_tau')]


def ctor_params(H):
    """parameter names of the constructor as declared in the header"""
    s = open(build.SRC + 'hierarchies/%s.hpp' % H).read()
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', ' ', s)
    m = re.search(r'\b%s\s*\(([^)]*expan[^)]*|[^)]*Flags[^)]*)\)' % H, s)
    names = []
    for a in m.group(1).split(','):
        names.append(a.split()[-1].lstrip('&*'))
    return names[1:]


def no_validate(ex):
    ex.restub(r'^himalaya::Parameters::validate', lambda ex, st, a, i: None)


class Recorder:
    """stubs for the hierarchy classes: every construction is recorded, getters return variables"""

    def __init__(self):
        self.made = []      # dict(H, flags, args{name:term/int})
        self.params = {}

    def install(self, ex):
        no_validate(ex)
        ex.restub(r'^himalaya::hierarchies::H\d\w*::H\d\w*\(', self.ctor)
        ex.restub(r'^himalaya::hierarchies::H\d\w*::(getS|calc_)', self.getter)
        self.ex = ex

    def ctor(self, ex, st, a, i):
        name = ex.dem(i[0])
        H = re.search(r'hierarchies::(H\d\w*)::', name).group(1)
        if len(a) < 10:
            raise RuntimeError('copy constructor of ' + H)
        if H not in self.params:
            self.params[H] = ctor_params(H)
        fl = [ex.load(st, i[2], ('i', 32), Ptr(a[1].obj, a[1].off + 4 * k)) for k in range(12)]
        k = len(self.made)
        self.made.append({'H': H, 'flags': fl, 'args': dict(zip(self.params[H], a[2:]))})
        ex.store(st, i[2], ('f', 64), T.var('obj%d' % k), a[0])
        return None

    def getter(self, ex, st, a, i):
        f = re.search(r'::(\w+)\(\)', ex.dem(i[0])).group(1)
        o = ex.load(st, i[2], ('f', 64), a[0])
        return T.var('%s.%s' % (o.args[0], f))



def faulty_native():
    """native calculator whose n-th hierarchy construction throws (linker-wrapped constructors): cf_compare, cf_unc_flags"""
    import subprocess
    src = ['#include <array>', '#include <stdexcept>',
           'static int at, n; static void tick() { if (++n == at) throw std::runtime_error("injected"); }',
           'extern "C" int c_compare(const double*, const int*, double*);',
           'extern "C" int c_unc_flags(const double*, const int*, double*);',
           'extern "C" int cf_compare(const double* d, const int* i, double* o)'
           '{ n = 0; at = i[5]; int r = c_compare(d, i, o); at = 0; return r; }',
           'extern "C" int cf_unc_flags(const double* d, const int* i, double* o)'
           '{ n = 0; at = i[18]; int r = c_unc_flags(d, i, o); at = 0; return r; }']
    link = []
    for H in build.HIER:
        o = build.obj('hierarchies/%s.cpp' % H)
        out = subprocess.run(['nm', o], capture_output=True, text=True).stdout
        syms = [ln.split()[-1] for ln in out.split('\n') if ' T ' in ln and '%d%sC1E' % (len(H), H) in ln]
        for s in syms:
            d = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt', s], capture_output=True, text=True).stdout.strip()
            args = [a.strip() for a in re.sub(r'<[^<>]*>', lambda m: m.group(0).replace(',', ';'),
                                              d[d.index('(') + 1:d.rindex(')')]).split(',')]
            if len(args) < 10:
                continue
            args = [a.replace(';', ',').replace('12ul', '12') for a in args]
            ps = ', '.join('%s a%d' % (t, k) for k, t in enumerate(args))
            cs = ', '.join('a%d' % k for k in range(len(args)))
            src.append('extern "C" void real_%s(void*, %s) asm("__real_%s");' % (H, ', '.join(args), s))
            src.append('extern "C" void wrap_%s(void*, %s) asm("__wrap_%s");' % (H, ', '.join(args), s))
            src.append('void wrap_%s(void* t, %s) { tick(); real_%s(t, %s); }' % (H, ps, H, cs))
            link.append('-Wl,--wrap=' + s)
    p = os.path.join(build.tmpdir(), 'calcfault.cpp')
    with open(p, 'w') as f:
        f.write('\n'.join(src) + '\n')
    return par.Native('calcfault', ['calc.cpp', p] + build.ALL, link)
