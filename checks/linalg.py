"""The perturbative eigenvalues solve the characteristic equation order by order."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import build, check, par, twin

TUS = ['linalg.cpp', 'mh2_fo/Linalg.cpp']
NAMES = ['m%d_%s' % (l, e) for l in range(4) for e in ('11', '12', '22')]
LABELS = ['%s eigenvalue, %d loop' % (e, l) for l in range(4) for e in ('lighter', 'heavier')]


def nat():
    return par.Native('linalg', TUS)


def points(rng, k):
    return {n: rng.uniform(-2, 2) * 10 ** (rng.randint(-1, 1) if k else 0) for n in NAMES}


def part(rep):
    rep.bounds.append('all symmetric 2x2 matrices at four orders (12 reals) with non-degenerate tree level')
    rep.assume.append('real arithmetic; non-degenerate leading-order matrix (the expansion does not exist otherwise)')
    tw = twin.Twin(TUS, native=nat, names=NAMES)
    tw.compare(rep, 'perturbative eigenvalues', 'c_pert', 'r_pert', [], LABELS, points=points, rel=1e-6,
               floor=lambda p, lab, a, b: 1e-6 * max(abs(x) for x in p.values()))
    tw.E.note(rep)


if __name__ == '__main__':
    check.main('P18', 'Perturbative diagonalisation', [('perturbative', part)])
