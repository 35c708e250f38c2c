"""calculateDMh3L returns the documented combination of the corrections; calcDeltaLambda3L likewise."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import build, calc, check, par, terms as T, twin

TUS = ['assembly.cpp'] + build.CORE + build.EFT + build.FO
N0 = []


def nat():
    if not N0:
        N0.append(par.Native('assembly', ['assembly.cpp', 'ufnative.cpp'] + build.ALL))
    return N0[0]


HC = r'^himalaya::HierarchyCalculator::'
EF = r'^himalaya::mh2_eft::Mh2EFTCalculator::'
TC = r'^himalaya::mh2_eft::ThresholdCalculator::'
FO = r'^himalaya::mh2_fo::MSSM_mass_eigenstates::'
OBJ = [(EF + r'Mh2EFTCalculator\(', 't_eft_ctor'), (EF + r'setCorrectionFlag\(', 't_eft_flag'),
       (EF + r'getDeltaMh2EFT0Loop\(', 't_eft0'), (EF + r'getDeltaMh2EFT1Loop\(', 't_eft1'),
       (EF + r'getDeltaMh2EFT2Loop\(', 't_eft2'), (EF + r'getDeltaMh2EFT3Loop\(', 't_eft3'),
       (TC + r'ThresholdCalculator\(', 't_tc_ctor'), (TC + r'setXtOrderOfDeltaLambdaAtAs2\(', 't_tc_xt'),
       (TC + r'setLimit\(', 't_tc_limit'), (TC + r'getLimit\(', 't_tc_getlimit'),
       (TC + r'getThresholdCorrection\(', 't_tc_corr'), (TC + r'getDRbarPrimeToMSbarShift\(', 't_tc_shift'),
       (TC + r'getDRbarPrimeToMSbarXtTerms\(', 't_tc_xtt'),
       (FO + r'MSSM_mass_eigenstates\(', 't_fo_ctor'), (FO + r'calculate_Mh2\(', 't_fo')]
TOP = [(HC + r'compareHierarchies\(', 't_compare'), (HC + r'calculateHierarchy\(', 't_hier'),
       (HC + r'getMt41L\(', 't_41'), (HC + r'getMt42L\(', 't_42'), (HC + r'shiftH3mToDRbarPrime\(', 't_h3m'),
       (HC + r'getExpansionUncertainty\(', 't_unc'), (HC + r'calcDeltaLambda3L\(', 't_dl3'),
       (r'^himalaya::fs_diagonalize_hermitian_perturbatively\(', 't_diag')]
LABELS = (['DMh(%d)%s' % (l, e) for l in range(4) for e in ('11', '12', '21', '22')] + ['DMh2(%d)' % l for l in range(4)] +
          ['expansion uncertainty (%d)' % l for l in (1, 2, 3)] + ['delta lambda (%d)' % l for l in range(4)] +
          ["delta lambda DR'->MSbar shift (%d)" % l for l in range(4)] + ['EFT (%d)' % l for l in range(4)] +
          ['FO (%d)' % l for l in range(4)] + ['FO O(at) (%d)' % l for l in range(4)] +
          ["DR'->MDR' shift %s" % e for e in ('11', '12', '21', '22')] +
          ["DR'->H3m shift %s" % e for e in ('11', '12', '21', '22')] + ['MDR mass 1', 'MDR mass 2'] +
          ['delta lambda H3m', 'delta lambda EFT', 'delta lambda non-log', 'delta lambda uncertainty', 'hierarchy', 'MDR flag',
           'sector', 'absolute 2-loop difference', 'relative 2-loop difference'])


LOW = [r for r in TOP if 'calcDeltaLambda3L' not in r[0]] + [(HC + r'shiftH3mToDRbarPrimeMh2\(', 't_h3mmh2')]
DL3 = ['delta lambda H3m', 'delta lambda EFT', 'delta lambda non-log', "DR'->MSbar shift (3)", 'delta lambda uncertainty']


def one_dl3(rep, item):
    h, mdr, omit = item
    tw = twin.Twin(TUS, LOW + OBJ, native=nat, positive=calc.POS, setup=calc.no_validate)
    tw.compare(rep, 'calcDeltaLambda3L hierarchy=%s mdr=%d omit=%d' % (calc.ID2H[h], mdr, omit), 'c_dl3', 'r_dl3',
               [0, h, mdr, omit], DL3, extra=[T.var('x_h3m'), T.var('x_nonlog')],
               nat_extra=lambda rng, k: [rng.uniform(-900, 900), rng.uniform(-900, 900)])
    tw.E.note(rep)


def dl3(rep):
    rep.bounds.append('all 49 parameters and the two three-loop coefficients symbolic; 14 hierarchies x DR/MDR x omitXtOrders')
    nat()
    build.modules(*TUS)
    check.parallel(rep, one_dl3, [(h, m, o) for h in range(14) for m in (0, 1) for o in (0, 1)])


def one(rep, item):
    ab, h = item
    tw = twin.Twin(TUS, TOP + OBJ, native=nat, positive=calc.POS, setup=calc.no_validate)
    tw.compare(rep, 'alphab=%d hierarchy=%s' % (ab, calc.ID2H[h]), 'c_full', 'r_full', [ab, h], LABELS,
               alts={"delta lambda DR'->MSbar shift (2)": (62, 'shift2-prefactor', 'two-loop shift carries the one-loop prefactor twice')})
    tw.E.note(rep)


def part(rep):
    rep.bounds.append('all 49 parameters symbolic; 14 hierarchies x both sectors; one call on a fresh calculator')
    rep.assume.append('real arithmetic; the routines beneath (hierarchy selection and expansion, one- and two-loop matrices, scheme '
                      'shifts, EFT and fixed-order calculators, diagonalisation) are arbitrary functions of what they may read')
    nat()
    build.modules(*TUS)
    check.parallel(rep, one, [(ab, h) for ab in (0, 1) for h in range(14)])


if __name__ == '__main__':
    check.main('P23', 'calculateDMh3L and calcDeltaLambda3L assemble the documented results', [('assembly', part), ('delta lambda', dl3)])
