prop('P01', 'Three-loop self-energies and decoupling coefficients describe one correction',
     'For each of the 14 mass hierarchies and every parameter point, the three-loop O(at*as^2) Higgs self-energies and '
     'the logarithmic decoupling coefficients (log^0 to log^3, standard-model logs removed) which the hierarchy provides '
     'are two presentations of the same quantity: projecting the self-energies onto the light Higgs in the decoupling limit '
     '(12/(Mt^4 sin^2 beta) (cos^2 S1 + sin^2 S2 + 2 sin cos S12) at Mt equal to the scale) equals the polynomial '
     'in the stop logarithm formed from the coefficients, for all expansion parameters through the expanded order.',
     ['inputs', 'configurations'], 'all values of masses, mass differences, mixing, mu, tan(beta), scale; all 14 hierarchies',
     'The tests evaluate a handful of benchmark points through the best-fitting hierarchy; most of the ~20000 '
     'coefficients never influence any asserted number visibly.',
     HIERS, [('generated expansion formulas', 'source/himalaya/hierarchies/*.cpp')],
     'decoupling', 'symbolic execution of LLVM IR; polynomial normal form; Z3 linear arithmetic on the residual',
     'Equality of the real-valued expressions for all arguments (exact rational arithmetic, residual bounded by Z3 '
     'within a unit box); rounding outside.')

prop('P02', 'Hierarchies of one family agree where their expansions overlap',
     'Hierarchies which expand the same corrections in the same mass differences (e.g. the three with all squarks and '
     'gluino near the lighter stop) give the same one-, two- and three-loop self-energies and the same decoupling coefficients, '
     'with and without the shift to the MDR scheme, up to terms beyond the order both keep in the mass differences.',
     ['inputs', 'configurations'], 'all masses, logs, mixing, mu, tan(beta); all powers both keep through total order 5 in the differences',
     'Tests pin numbers at a few points, where the selected hierarchy alone matters; agreement is a statement about '
     'Taylor coefficients of two different formulas for all arguments.',
     HIERS, [('generated expansion formulas', 'source/himalaya/hierarchies/*.cpp')],
     'siblings', 'symbolic execution of LLVM IR; truncated power series over Q; Z3 linear arithmetic on the residual',
     'Bounded by total Taylor order 5; exact rational arithmetic inside.')

CALC = [S + 'HierarchyCalculator.cpp', S + 'HierarchyObject.cpp', S + 'Himalaya_interface.cpp']
prop('P08', 'Every hierarchy is evaluated at the arguments it is defined for',
     'Whichever hierarchy is selected (14), for the top and the bottom sector, for DR\' or MDR masses and any subset of loop '
     'orders, the calculator evaluates exactly the requested loop orders of exactly that hierarchy with all expansion terms '
     'kept, at the arguments of its definition: alpha_s/(4 pi), beta, trilinear coupling, mixing and third-generation quark '
     'mass of the sector, stop or sbottom masses shifted for the loop order, gluino mass, mean squark mass (geometric mean '
     'of the ten squark masses), logarithms 2 log(scale/m) and the mass differences of its expansion; it returns '
     '3/(2 pi^2 vu^2) times the sum of the self-energies as a symmetric matrix, sets the H3m delta-lambda (Horner polynomial '
     'in the stop logarithm), its non-logarithmic part and the ordered MDR masses exactly when the three-loop part alone is '
     'requested, and throws for an unknown hierarchy.',
     ['inputs', 'configurations'], 'all real parameters; 14 hierarchies x 2 sectors x 2 schemes x 8 loop subsets',
     'A test reaches only the hierarchies that happen to fit its points; the 14 x 2 x 2 x 8 dispatch has 448 cases.',
     CALC[:2], [('calculateHierarchy', S + 'HierarchyCalculator.cpp'), ('calculateMsq2', S + 'Himalaya_interface.cpp')],
     'dispatch', 'symbolic execution of LLVM IR with recording stubs for the hierarchy classes; rational-function normal '
     'form; Z3 linear arithmetic on the residual',
     'All parameters symbolic reals with positive masses, vevs and scale; hierarchy classes abstracted to their arguments.')

prop('P05', 'A hierarchy is suitable exactly where its mass ordering holds',
     'A hierarchy takes part in the selection exactly if the running masses at hand satisfy the ordering its expansion assumes: '
     'the heavier stop (sbottom) and the gluino lie below 1.3 times the mean squark mass, and '
     'h3: gluino above both stops; h32q2g: heavier stop above gluino and at or above the squarks; h3q22g: squarks above heavier stop '
     'above gluino; h4: lighter stop below squarks, gluino at or below it; h5/h5g1: stops split by more than 10 %, gluino closer to '
     'the lighter stop (below/above it), heavier stop below squarks; h6/h6g2: split stops, gluino closer to the heavier stop '
     '(below/above it) and heavier stop 30 % below the squarks; h6b, h6b2qg2, h6bq22g, h6bq2g2: split stops, gluino closer to the '
     'heavier one, distinguished by whether squarks and gluino lie above the heavier stop; h9/h9q2: stops closer to each other than '
     'the lighter one to the gluino, distinguished by whether the squarks lie above the heavier stop. Any other id is rejected.',
     ['inputs', 'configurations'], 'all masses; 14 hierarchies, both sectors',
     'Test points hit a few interior orderings; an inverted or lost inequality changes the selected expansion only in a region of '
     'mass space that no benchmark visits.',
     CALC[:2], [('isHierarchySuitable', S + 'HierarchyCalculator.cpp')],
     'suitability', 'symbolic execution of LLVM IR; Z3 equivalence with the ordering table (nonlinear reals)',
     'All four masses and ten squark masses symbolic positive reals; counterexamples replayed natively.')

prop('P06', 'The selected hierarchy minimises the combined error and is documented',
     'compareHierarchies picks, among the suitable hierarchies, one minimising sqrt((|M - Mx|/M)^2 + (dMx/Mx)^2), where M is the '
     'exact two-loop light-Higgs mass (smallest eigenvalue of tree + 1-loop + 2-loop), Mx the one with the 2-loop part expanded in '
     'that hierarchy, and dMx the two-loop expansion uncertainty (around tree + 1-loop); the returned object carries the id of the winner '
     'and its absolute (|M - Mx|) and relative (/M) two-loop error and its two- and three-loop expansion uncertainties, for the sector and scheme asked for; if no hierarchy fits it throws, '
     'and the tree-level Higgs mass matrix used is -mA^2 and mZ^2 in the standard CP-even form.',
     ['inputs', 'configurations'], 'all parameters, values of the loop corrections, 14 hierarchies in any combination of suitability',
     'The choice depends on which of 14 errors is smallest; tests pin the choice at a few points only.',
     CALC, [('compareHierarchies', S + 'HierarchyCalculator.cpp'), ('calcSmallestEigenvalue', S + 'HierarchyCalculator.cpp')],
     'selection', 'symbolic execution of LLVM IR with self-energies, two-loop routines and the eigenvalue as uninterpreted '
     'functions; Z3 argmin conditions; rational normal form',
     'Ties may be broken either way; NaN errors are outside (real arithmetic).')

prop('P07', 'Expansion flags survive selection and uncertainty estimation',
     'After compareHierarchies or getExpansionUncertainty returns - or leaves with an exception from any self-energy or two-loop '
     'routine it calls - each of the twelve expansion-depth flags of the calculator has the value it had before, whatever that was, so later '
     'evaluations keep all orders they kept before.',
     ['inputs', 'configurations', 'crash points'], 'any flag preset, all parameters; each call inside may fail; 14 hierarchies',
     'The tests never make an inner call fail and never look at the flags; the effect is a silently shortened expansion in the next call.',
     CALC[:2], [('getExpansionUncertainty', S + 'HierarchyCalculator.cpp'), ('compareHierarchies', S + 'HierarchyCalculator.cpp')],
     'flags', 'symbolic execution of LLVM IR with fault injection (one boolean per inner call); Z3 equality of final flags',
     'Every inner hierarchy evaluation or two-loop routine may throw; allocation failure is outside.')

prop('P25', 'The expansion uncertainty adds in quadrature the effect of each expansion',
     'getExpansionUncertainty(ho, M, 1L, 2L, 3L) is the square root of the sum, over the expansion parameters of the hierarchy '
     'family of ho (h3: Dmglst1, Dmsqst1, Dmst12; h4: At, log Msusy, Msq, Msusy; h5: Dmglst1, Msq; h6: Dmglst2, Msq; h6b: Dmglst2, '
     'Dmsqst2; h9: Dmsqst1, Dmst12, Mgl), of the squared change of the light Higgs mass (smallest eigenvalue of M plus the requested '
     'correction) when the highest kept order of that one parameter is dropped, all others staying as configured.',
     ['inputs', 'configurations'], 'all parameters, matrices M, flag presets; 14 hierarchies, loop orders, schemes',
     'Tests only bound or pin the total at a few points; a family lacking one term or a flag not switched back gives a plausible number.',
     CALC[:2], [('getExpansionUncertainty', S + 'HierarchyCalculator.cpp')],
     'uncertainty', 'symbolic execution of LLVM IR with hierarchies and eigenvalue uninterpreted; rational normal form and Z3',
     'Self-energies abstracted; real arithmetic.')

prop('P04', 'Expansion and loop flags switch exactly their own terms',
     'For every combination of the twelve expansion flags, the three loop switches and the MDR switch, a hierarchy returns the '
     'full self-energies S1, S2, S12 minus exactly the terms switched off: loop switch n carries the terms of order alpha_s^(n-1), '
     'and each expansion flag of the family carries, in all three self-energies alike, the highest kept powers of its own parameter and nothing '
     'else (h3: Dmst12^3, Dmglst1^3, Dmsqst1^2; h4: At^2, log(Msusy)^3, Msq^2, Msusy^8; h5: Dmglst1^2, Msq^2; h6: Mst1^6, '
     'Dmglst2^2, Msq^2; h6b: Mst1^6, Dmglst2^2, Dmsqst2^2; h9: Dmst12^3, Dmsqst1^2, Mgl^4 and at two loops Mgl^5 to Mgl^8 by the three-loop flag); '
     'the other flags have no effect, and the decoupling coefficients depend on no switch.',
     ['inputs', 'configurations'], 'all parameters x 2^12 flag combinations x 8 loop subsets x 2 schemes x 14 hierarchies',
     'Only the size of the expansion uncertainty depends on the flags; a flag wired to a wrong term changes an error estimate, or a hierarchy choice, '
     'at points no test visits.',
     HIERS, [('generated expansion formulas', 'source/himalaya/hierarchies/*.cpp')],
     'depth', 'symbolic execution of LLVM IR with symbolic flags; exact polynomial normal form over Q; Z3 linear arithmetic on the residual',
     'Exact for all flag combinations; coefficients to 1e-10 of the largest.')

prop('P23', 'calculateDMh3L and calcDeltaLambda3L assemble the documented results',
     'For every parameter point, sector and selected hierarchy, calculateDMh3L returns: the selection with its tree-level matrix, '
     'absolute and relative deviation and two-loop uncertainty; one- and two-loop matrices O(a) and O(a*as) without mass shifts; '
     'the three-loop matrix of the hierarchy at DR\' plus the H3m-to-DR\' shift (the stored DR\'-to-H3m shift is its negative) with its '
     'expansion uncertainty on top of the lower orders; the DR\'-to-MDR\' shift as the MDR-minus-DR difference of one, two and three loops, with the MDR masses; '
     'delta-lambda at 0 to 2 loops from tree-level EFT and the DR\' threshold corrections with prefactors kappa^n 2 Mt^4/v^2 g3^(2n-2)/v^2, at '
     'three loops from calcDeltaLambda3L for the top and zero for the bottom sector, and the DR\'-to-MSbar shifts; light-Higgs mass corrections '
     'by perturbative diagonalisation; fixed-order results (full and O(at)) and EFT results per loop order. calcDeltaLambda3L combines '
     'the hierarchy coefficients, the H3m shift, the EFT subtraction and the O(at*as^2) threshold logarithms with '
     'Xt order 3 (h3, h9 families) or 4, divided by v^2, the squarks entering through the stop masses.',
     ['inputs', 'configurations'], 'all real parameters and inner results; 14 hierarchies x 2 sectors, DR/MDR and Xt truncation on/off',
     'The tests pin a few numbers at a few points, where only one hierarchy is selected and some members are never looked at.',
     CALC[:2], [('calculateDMh3L', S + 'HierarchyCalculator.cpp'), ('calcDeltaLambda3L', S + 'HierarchyCalculator.cpp')],
     'assembly', 'symbolic execution of LLVM IR of the code and of a reference, inner calculators uninterpreted; rational normal form and Z3 on all path pairs',
     'Inner calculators are arbitrary functions of what they read; real arithmetic; fresh calculator.')

prop('P22', 'HierarchyObject stores per loop order and rejects everything else',
     'For every value and every integer: writing one of the quantities kept per loop order (mass matrix, mass correction, expansion uncertainty, '
     'delta-lambda, EFT, FO, FO O(at), DR\'-to-MSbar shift) at an order 0 to 3 (1 to 3 for the uncertainty) changes exactly that entry, read back '
     'unchanged also from a copy; any other order is rejected with an exception by writer and reader, leaving the object as it was. The delta-lambda '
     'uncertainty is 0 below three loops, |Xt uncertainty| + |EFT - H3m| at three loops, rejected otherwise. MDR masses come back ordered. Only MDR flags '
     '0 and 1 and schemes 0 to 3 are accepted. A new object holds zeros.',
     ['inputs', 'configurations', 'operation histories'], 'all ints, all stored values; every pair of written and read quantity',
     'Tests read back what calculateDMh3L wrote at valid orders of a few quantities.',
     [S + 'HierarchyObject.cpp'], [('setters and getters', S + 'HierarchyObject.cpp')],
     'object', 'symbolic execution of LLVM IR of the class and of a reference with symbolic ints and reals; Z3 on all path pairs',
     'One write between filling and reading; printing is outside.')

prop('P18', 'Perturbative diagonalisation',
     'For all symmetric 2x2 matrices M0..M3 with non-degenerate M0, the eigenvalue corrections of 0 to 3 loops returned by '
     'fs_diagonalize_hermitian_perturbatively solve the characteristic equation of M0 + M1 + M2 + M3 order by order, for the lighter '
     'eigenvalue first and the heavier second.',
     ['inputs'], 'all 12 real matrix entries',
     'The tests compare light Higgs corrections at a few points, the three-loop mixed terms being tiny there.',
     [S + 'mh2_fo/Linalg.cpp'], [('fs_diagonalize_hermitian_perturbatively', S + 'mh2_fo/Linalg.cpp')],
     'linalg', 'symbolic execution of LLVM IR of the code and of the order-by-order solution; rational normal form with square roots and Z3',
     'Real arithmetic; degenerate tree level outside.')

prop('P20', 'Parameter validation',
     'Parameters::validate throws exactly if an entry of mq2, md2, mu2, ml2, me2 is negative, MG < 0, vu or vd is not a positive number, or a sfermion mass matrix '
     'it has to diagonalise has a negative eigenvalue. Otherwise Yukawa matrices become diagonal with their singular values, the largest at (2,2); '
     'MW, MZ, Mt, Mb, Mtau not given follow from couplings and VEVs; of sin(2 theta) and theta a missing one follows from the other; '
     'if a mass or angle of stop, sbottom or stau is still missing, both masses and angles are those of its tree-level mass matrix with '
     'm1 <= m2, M11-M22 = (m1^2-m2^2) cos(2 theta), 2 M12 = (m1^2-m2^2) sin(2 theta); masses given in reverse are exchanged with theta '
     'shifted by pi/2 and sin(2 theta) negated; stops, sbottoms and mq2(2,2), mu2(2,2) closer than 1e-8 are split by a relative 1e-8; nothing else '
     'changes. calculateMsq2 is the geometric mean over the first two generations and the sbottoms.',
     ['inputs', 'configurations'], 'all entries of all parameters; 42 combinations of quantities not given',
     'Tests feed a handful of benchmark points, almost all with every mass given; signs of mixing angles and the split are not looked at.',
     [S + 'Himalaya_interface.cpp'], [('Parameters::validate', S + 'Himalaya_interface.cpp'), ('calculateMsq2', S + 'Himalaya_interface.cpp')],
     'validate', 'symbolic execution of LLVM IR of the code and of a reference; eigen decompositions as constrained variables; rational normal form and Z3 (NRA)',
     'Eigen replaced by its mathematical result with the vector orientation measured for it; distinct eigenvalues; NaN only as "not given".')


EFTS = [S + 'mh2_eft/Mh2EFTCalculator.cpp', S + 'mh2_eft/ThresholdCalculator.cpp']
prop('P15', 'O(at*as^n) threshold corrections: limits, schemes, logs, shift',
     'The threshold corrections g3_as, yt_as, yt_as^2, lambda_at, lambda_at_as, lambda_at_as^2: each formula for equal masses (mQ3=mU3, mQ3=MG, mU3=MG, all '
     'three, all four with the average squark mass) is the limit of the more general formula. DR\' values follow from the MSbar ones by '
     'g3->-g3, y->-y, y2->2 g3 y + y^2 - y2, l1->l1 - 4 l0 y, l2->l2 - l1 (2 g3 + 4 y) + l0 (8 g3 y + 10 y^2 - 4 y2); other schemes stay '
     'unconverted. With logs the values do not depend on MSt(0), without them they are those at scale = MSt(0). All but lambda_at_as^2 are symmetric under '
     'mQ3 <-> mU3; MSbar lambda_at_as^2 has only logs, vanishing at scale mQ3, and its Xt order cuts only higher powers of Xt. '
     'getDRbarPrimeToMSbarShift is MSbar minus DR\' without Xt powers above 3 or 4, getDRbarPrimeToMSbarXtTerms minus its Xt^4, Xt^5, Xt^6 terms. '
     'The constructor selects the most degenerate pattern of masses within 1 % exactly where the general formula of yt_as^2 is non-finite, above 1 in '
     'size or no closer to the limit formula after halving the splittings.',
     ['inputs', 'configurations'], 'all masses, Xt and scale; 6 orders x 6 mass limits x 5 schemes x logs on/off',
     'The tests pin a few numbers at one mass pattern and compare neighbouring branches loosely at a few points; most of the 6000 lines of formulas '
     'serve special mass patterns.',
     EFTS[1:], [('getThresholdCorrection', EFTS[1]), ('getDRbarPrimeToMSbarShift', EFTS[1]), ('constructor', EFTS[1])],
     'thresholds', 'symbolic execution of LLVM IR; rational normal form with logs and dilogs, limits by series expansion, Z3 on residuals and all path pairs',
     'Real arithmetic; Re Li2 characterised by derivative, value and inversion; average squark mass an independent input.')

prop('P16', 'EFT contributions to the Higgs mass: composition and coupling orders',
     'getDeltaMh2EFT0Loop is MZ^2 cos^2(2 beta). With default settings the 1-, 2- and 3-loop contributions are O(at), O(at*as)+O(at^2) and O(at*as^2): the '
     'documented polynomials in log(scale^2/Mt^2) and the DR\' threshold corrections; the flags for SM logs, MSSM logs and the 3-loop lambda correction '
     'multiply exactly those terms. O(at), O(at*as), O(at^2) are on unless Mt vanishes, whatever Mb and Mtau are; a correction flag set to 0 removes exactly its '
     'order, 1 restores it; an order with a NaN threshold correction counts as zero without affecting others. With all 21 orders enabled '
     'the contributions are the sum of each order alone, and each order scales with the powers of g1, g2, g3, Mb, Mtau in its name at fixed threshold corrections.',
     ['inputs', 'configurations'], 'all parameters; 8 omit-flag settings; each flag on and off; undetermined corrections; vanishing Mt, Mb, Mtau',
     'The tests evaluate the sums at a few points with one set of flags.',
     EFTS[:1], [('getDeltaMh2EFT*Loop', EFTS[0]), ('setCorrectionFlag', EFTS[0])],
     'eft', 'symbolic execution of LLVM IR of the code and of a reference, threshold corrections uninterpreted; rational normal form and Z3 on all path pairs',
     'Real arithmetic; 3-loop contribution compared for non-vanishing Mt; loop functions arbitrary.')

prop('P26', 'The EFT result is independent of the renormalisation scale',
     'Through the order computed, explicit logarithms compensate the running of the parameters: with MSSM beta functions (kappa = 1/16 pi^2) the O(at), '
     'O(at*as) and O(at*as^2) contributions F1, F2, F3 satisfy dF1 = 0, dF2 + b1 F1 = 0, dF3 + b1 F2 + b2 F1 = 0, d the explicit derivative by ln(scale), b1, b2 '
     'the derivatives along the O(g3^2), O(g3^4) running of Mt, At, g3, MG and squark masses; O(ab), O(atau) do not depend on the scale; O(g_i^2 y_f^2) '
     'compensates the y_f^2 running of the VEVs in MZ^2 cos^2(2 beta); O(g1^4), O(g2^4), O(g1^2 g2^2) vary by -kappa v^2 cos^2(2 beta) times 54/25, 2, 6/5 '
     'per unit of ln(scale). For degenerate masses v^2 getDeltaLambdaDegenerate varies with the scale as the O(at*as^2) lambda correction, per power Xt^0..Xt^3.',
     ['inputs', 'configurations'], 'all parameters; 12 one-loop orders, O(at*as), O(at*as^2); general and mQ3 = mU3 formulas',
     'No test varies the scale; a wrong coefficient of a logarithm shows only as a residual scale dependence.',
     EFTS, [('getDeltaMh2EFT*Loop', EFTS[0]), ('getDeltaLambdaDegenerate', EFTS[0]), ('getDeltaLambda*, getDeltaYt*', EFTS[1])],
     'running', 'symbolic execution of LLVM IR, symbolic differentiation along the beta functions, rational normal form with logs and dilogs, Z3 on residuals',
     'Real arithmetic; O(at^2) and two-loop bottom and tau orders outside; degenerate masses of the calculator other than mQ3 = mU3 outside.')

prop('P03', 'Physics does not depend on the unit of mass',
     'Multiplying all input masses, trilinear couplings and the renormalisation scale by a common factor (couplings, tan(beta) and angles kept) multiplies each '
     'result by the power of the factor its dimension demands: squared-mass matrices, hierarchies\' self-energies (degree 4 in units of the prefactor) and EFT, FO and mass corrections of '
     'squared masses by its square, masses, MDR masses and uncertainties by the factor, decoupling and threshold coefficients, mixing angles, relative deviations, delta-lambda and the '
     'selected hierarchy not at all, Phi(x,y,z) not at all, delta(x,y,z) by its square, A0 by its degree, B0 and derivatives accordingly. It holds in every branch: each hierarchy, loop order, '
     'scheme and expansion, each limit of the threshold corrections.',
     ['inputs', 'configurations'], 'all masses and scales; 14 hierarchies x 3 loops x 2 schemes; all threshold orders x mass limits x schemes',
     'A mistyped power of one mass among thousands of terms stays plausible at one point and no test changes the unit of mass.',
     HIERS + [S + 'HierarchyCalculator.cpp'] + EFTS,
     [('hierarchies', S + 'hierarchies'), ('calculateHierarchy, getMt41L, getMt42L', S + 'HierarchyCalculator.cpp'), ('getDeltaLambda*', EFTS[1]), ('phi_xyz', S + 'mh2_eft/ThresholdLoopFunctions.cpp')],
     'dimensions', 'symbolic execution of LLVM IR; degree of every value inferred symbolically, Z3 (LRA) decides that the declared degrees entail every side condition of sums, branches and functions',
     'Real arithmetic; comparisons with constants up to 1e-8 decided away from zero; fixed-order self-energies outside.')
