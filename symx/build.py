"""Compile the current /repo sources: to LLVM IR for the executor, natively for replay."""
import atexit
import hashlib
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(HERE, 'harness')
SRC = REPO + '/source/himalaya/'
CLANG = 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
INC = ['-I' + REPO + '/include', '-I' + REPO + '/source', '-I' + HARN, '-I/usr/include/eigen3']
# functions the code under test is free to have changed; the flags only fix the
# IR dialect (no optimisation passes besides SROA, no SSE intrinsics from Eigen)
IRFLAGS = ['-std=c++14', '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG',
           '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_MAX_ALIGN_BYTES=0', '-ffp-contract=off', '-w']
_tmp = []


def tmpdir():
    if not _tmp:
        d = tempfile.mkdtemp(prefix='symx.')
        _tmp.append(d)
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _tmp[0]


_h = []


def tree_hash():
    if not _h:
        h = hashlib.sha256()
        for root in (REPO + '/include', REPO + '/source'):
            for dp, dn, fn in sorted(os.walk(root)):
                dn.sort()
                for f in sorted(fn):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
        for f in sorted(os.listdir(HARN)):
            if f.endswith('.hpp'):
                h.update(open(os.path.join(HARN, f), 'rb').read())
        _h.append(h.hexdigest())
    return _h[0]


def key_of(p, extra):
    h = hashlib.sha256((tree_hash() + p + extra).encode())
    if p.startswith(HARN):
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def cachedir():
    d = os.environ.get('SYMX_CACHE')
    if not d:
        return tmpdir()
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])
    return r.stdout


def path_of(tu):
    return tu if tu.startswith('/') else (os.path.join(HARN, tu) if os.path.exists(os.path.join(HARN, tu)) else SRC + tu)


def ll(tu):
    """IR text file of a translation unit (relative to source/himalaya or harness/)"""
    p = path_of(tu)
    key = key_of(p, ' '.join(IRFLAGS))
    out = os.path.join(cachedir(), os.path.basename(tu) + '.' + key + '.ll')
    if not os.path.exists(out):
        raw = out + '.raw%d' % os.getpid()
        run([CLANG] + IRFLAGS + INC + [p, '-o', raw])
        run([OPT, '-S', '-passes=sroa', raw, '-o', out + '.tmp%d' % os.getpid()])
        os.rename(out + '.tmp%d' % os.getpid(), out)
        os.unlink(raw)
    return out


_mods = {}


def modules(*tus):
    from . import ir
    miss = [t for t in tus if t not in _mods]
    with ThreadPoolExecutor(8) as ex:
        paths = list(ex.map(ll, miss))
    for t, p in zip(miss, paths):
        _mods[t] = ir.Module(p)
    return [_mods[t] for t in tus]


def obj(tu, flags=(), cc=None):
    p = path_of(tu)
    fl = ['-O1', '-g0', '-fPIC', '-w', '-DNDEBUG', '-ffp-contract=off'] + list(flags)
    key = key_of(p, ' '.join(fl))
    out = os.path.join(cachedir(), os.path.basename(tu) + '.' + key + '.o')
    if not os.path.exists(out):
        t = out + '.tmp%d' % os.getpid()
        if p.endswith(('.f', '.f90')):
            run(['gfortran', '-c'] + fl + [p, '-o', t] + ['-J', tmpdir()])
        else:
            run(['g++', '-std=c++14', '-c'] + fl + INC + [p, '-o', t])
        os.rename(t, out)
    return out


def shared(name, tus, flags=(), link=()):
    """native shared object for replays"""
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda t: obj(t, flags), tus))
    out = os.path.join(tmpdir(), name + '.so')
    run(['g++', '-shared', '-o', out] + objs + list(link) + ['-lgfortran', '-lpthread'])
    return out


HIER = ['H3', 'H32q2g', 'H3q22g', 'H4', 'H5', 'H5g1', 'H6', 'H6b', 'H6b2qg2', 'H6bq22g', 'H6bq2g2', 'H6g2', 'H9', 'H9q2']
CORE = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp', 'Himalaya_interface.cpp']
FO = ['mh2_fo/MSSM_mass_eigenstates.cpp', 'mh2_fo/MSSM_spectrum.cpp', 'mh2_fo/PV.cpp', 'mh2_fo/Linalg.cpp']
EFT = ['mh2_eft/Mh2EFTCalculator.cpp', 'mh2_eft/ThresholdCalculator.cpp', 'mh2_eft/ThresholdLoopFunctions.cpp']
TWOL = ['mh2l/DSZHiggs.cpp', 'mh2l/DSZHiggs.f', 'mh2l/Li2f.cpp', 'mh2l/Li2.f90']
MISC = ['misc/Li2.cpp']
HTU = ['hierarchies/%s.cpp' % h for h in HIER]
ALL = CORE + FO + EFT + TWOL + MISC + HTU
