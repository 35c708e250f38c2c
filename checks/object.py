"""HierarchyObject returns what was stored, per loop order, and rejects everything else without a change."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import build, check, par, twin, terms as T

TUS = ['object.cpp', 'HierarchyObject.cpp']
KINDS = ['Higgs mass matrix', 'Higgs mass correction', 'expansion uncertainty', 'delta lambda', 'EFT', 'FO', 'FO O(at)',
         "DR'->MSbar shift", 'delta lambda uncertainty']
NAMES = ['v%d_%d_%d' % (k, l, e) for k in range(8) for l in range(4) for e in range(4)] + ['new%d' % e for e in range(4)] + \
        ['s%d' % k for k in range(16)]
SING = ['absolute 2-loop difference', 'relative 2-loop difference', 'delta lambda H3m', 'delta lambda EFT', 'delta lambda non-log', '-'] + \
       ["MDR' shift %d" % k for k in range(4)] + ['H3m shift %d' % k for k in range(4)] + \
       ['lighter MDR mass', 'heavier MDR mass', 'hierarchy', 'MDR flag', 'sector', 'scheme']
N0 = []


def nat():
    if not N0:
        N0.append(par.Native('object', TUS))
    return N0[0]


def points(rng, k):
    return {n: rng.uniform(-9, 9) for n in NAMES}


def one(rep, item):
    tw = twin.Twin(TUS, native=nat, names=NAMES, prune=True)
    L, M, X = T.ivar('loops_written'), T.ivar('loops_read'), T.ivar('hierarchy')
    if item[0] == 'int':
        tw.compare(rep, 'flag and scheme', 'c_int', 'r_int', [item[1], L, M, X], SING + ['flag rejected', 'scheme rejected'], points=points)
    elif item[0] == 'new':
        tw.compare(rep, 'new object', 'c_new', 'r_new', [item[1]], ['initial value %d' % k for k in range(148)], points=points)
    else:
        _, ab, k, g = item
        n = 4 if g == 0 else 1
        tw.compare(rep, 'write %s, read %s' % (KINDS[k], KINDS[g]), 'c_obj', 'r_obj', [ab, k, L, g, M],
                   ['value %d' % e for e in range(4)] + ['write rejected'] + SING, points=points)
    tw.E.note(rep)


def part(rep):
    rep.bounds.append('every int for the loop order written and read, MDR flag, scheme and hierarchy; all stored values symbolic reals; '
                      'one write to one of 8 quantities of a filled object followed by a read of one of 9')
    nat()
    build.modules(*TUS)
    check.parallel(rep, one, [('new', 0), ('new', 1), ('int', 0), ('int', 1)] +
                   [('obj', (k + g) % 2, k, g) for k in range(8) for g in range(9)])


if __name__ == '__main__':
    check.main('P22', 'HierarchyObject stores per loop order', [('object', part)])
