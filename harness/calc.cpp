// entries to HierarchyCalculator; ints and outputs are documented per function
#include <array>
#include <string>
#include <iostream>
#include <Eigen/Core>
#define private public
#include "himalaya/HierarchyCalculator.hpp"
#undef private
#include "par.hpp"
using namespace himalaya;
namespace {
Parameters good_() {
   Parameters p;
   p.scale = 1000; p.mu = 500; p.g1 = 0.5; p.g2 = 0.6; p.g3 = 1; p.vd = 30; p.vu = 240;
   p.mq2.diagonal().fill(1.1e6); p.md2.diagonal().fill(1.2e6); p.mu2.diagonal().fill(1.3e6);
   p.ml2.diagonal().fill(1.4e6); p.me2.diagonal().fill(1.5e6);
   p.Yu(2,2) = 0.8; p.Yd(2,2) = 0.1; p.Ye(2,2) = 0.1; p.M1 = 1000; p.M2 = 1000; p.MG = 1000; p.MA = 1000;
   p.MW = 80; p.MZ = 91; p.Mt = 150; p.Mb = 3; p.Mtau = 2;
   p.MSt << 900, 1100; p.MSb << 900, 1100; p.MStau << 900, 1100;
   p.s2t = 0.1; p.s2b = 0.1; p.s2tau = 0.1; p.theta_t = 0.05; p.theta_b = 0.05; p.theta_tau = 0.05;
   return p;
}
HierarchyCalculator mk(const double* d) {
   Parameters p = good_();
   HierarchyCalculator c(p, false);
   fill_par(c.p, d);
   return c;
}
HierarchyObject ho_(const int* i) {     // i[0] alphab, i[1] hierarchy, i[2] mdr
   HierarchyObject ho(i[0] != 0);
   ho.setSuitableHierarchy(i[1]);
   ho.setMDRFlag(i[2]);
   return ho;
}
void mat(double* o, const Eigen::Matrix2d& m) { o[0] = m(0,0); o[1] = m(0,1); o[2] = m(1,0); o[3] = m(1,1); }
}
#define BODY(...) try { __VA_ARGS__; return 0; } catch (const std::exception&) { return 1; }
extern "C" {
// i: ab,h,mdr,l1,l2,l3   o: M(4), dlambda H3m, dlambda nonlog, MDR masses(2)
int c_hier(const double* d, const int* i, double* o) {
   BODY(HierarchyCalculator c = mk(d); HierarchyObject ho = ho_(i); ho.setDLambdaH3m(-7); ho.setDLambdaNonLog(-8);
        Eigen::Vector2d m0; m0 << 5, 6; ho.setMDRMasses(m0);
        mat(o, c.calculateHierarchy(ho, i[3], i[4], i[5]));
        o[4] = ho.getDLambdaH3m(); o[5] = ho.getDLambdaNonLog();
        const auto m = ho.getMDRMasses(); o[6] = m(0); o[7] = m(1))
}
// as c_hier (matrix only), 12 expansion flags i[6..17]
int c_hier_flags(const double* d, const int* i, double* o) {
   BODY(HierarchyCalculator c = mk(d); HierarchyObject ho = ho_(i);
        for (int k = 0; k < 12; k++) c.expansionDepth.at(k) = i[6 + k];
        mat(o, c.calculateHierarchy(ho, i[3], i[4], i[5])))
}
// i: ab,h,mdr,s1,s2
int c_mt41(const double* d, const int* i, double* o) { BODY(HierarchyCalculator c = mk(d); mat(o, c.getMt41L(ho_(i), i[3], i[4]))) }
int c_mt42(const double* d, const int* i, double* o) { BODY(HierarchyCalculator c = mk(d); mat(o, c.getMt42L(ho_(i), i[3], i[4]))) }
int c_mdr(const double* d, const int* i, double* o) {
   BODY(HierarchyCalculator c = mk(d); o[0] = c.shiftMst1ToMDR(ho_(i), i[3], i[4]); o[1] = c.shiftMst2ToMDR(ho_(i), i[3], i[4]))
}
int c_mdrshift(const double* d, const int* i, double* o) { BODY(HierarchyCalculator c = mk(d); mat(o, c.calcDRbarToMDRbarShift(ho_(i), i[3], i[4]))) }
int c_h3m(const double* d, const int* i, double* o) { BODY(HierarchyCalculator c = mk(d); mat(o, c.shiftH3mToDRbarPrime(ho_(i)))) }
int c_h3mmh2(const double* d, const int* i, double* o) { BODY(HierarchyCalculator c = mk(d); o[0] = c.shiftH3mToDRbarPrimeMh2(ho_(i), i[3])) }
int c_suit(const double* d, const int* i, double* o) { BODY(HierarchyCalculator c = mk(d); o[0] = c.isHierarchySuitable(ho_(i)) ? 1. : 0.) }
int c_msq(const double* d, const int*, double* o) { BODY(HierarchyCalculator c = mk(d); o[0] = c.calcMeanMsq()) }
// extra input: 4 matrix elements behind the parameters; i: ab,h,mdr,l1,l2,l3
int c_unc(const double* d, const int* i, double* o) {
   BODY(HierarchyCalculator c = mk(d); Eigen::Matrix2d m; const double* x = d + 49; m << x[0], x[1], x[2], x[3];
        o[0] = c.getExpansionUncertainty(ho_(i), m, i[3], i[4], i[5]))
}
// i: ab,h,mdr; 12 flags i[6..17] preset; o[0] value, o[1..12] flags afterwards (also when an exception leaves)
int c_unc_flags(const double* d, const int* i, double* o) {
   HierarchyCalculator c = mk(d);
   for (int k = 0; k < 12; k++) c.expansionDepth.at(k) = i[6 + k];
   int r = 0;
   try { Eigen::Matrix2d m; const double* x = d + 49; m << x[0], x[1], x[2], x[3];
         o[0] = c.getExpansionUncertainty(ho_(i), m, i[3], i[4], i[5]); } catch (const std::exception&) { r = 1; }
   for (int k = 0; k < 12; k++) o[1 + k] = c.expansionDepth.at(k);
   return r;
}
// i: ab; 12 flags i[6..17]; o: returned, suitable, absdiff, reldiff, exp2, exp3, DMh0(4), flags(12)
int c_compare(const double* d, const int* i, double* o) {
   HierarchyCalculator c = mk(d);
   for (int k = 0; k < 12; k++) c.expansionDepth.at(k) = i[6 + k];
   int r = 0;
   HierarchyObject ho(i[0] != 0);
   ho.setMDRFlag(i[2]);
   ho.setSuitableHierarchy(0);
   c.shiftMst1ToMDR(ho, 0, 0);     // function-local statics are initialised before the run under study
   o[0] = -9;
   try { o[0] = c.compareHierarchies(ho); } catch (const std::exception&) { r = 1; }
   o[1] = ho.getSuitableHierarchy(); o[2] = ho.getAbsDiff2L(); o[3] = ho.getRelDiff2L();
   o[4] = ho.getDMhExpUncertainty(2); o[5] = ho.getDMhExpUncertainty(3); mat(o + 6, ho.getDMh(0));
   for (int k = 0; k < 12; k++) o[10 + k] = c.expansionDepth.at(k);
   return r;
}
// i: ab,h,mdr,omit ; extra: DLambdaH3m, DLambdaNonLog ; o: H3m, EFT, NonLog, shift(3), uncertainty
int c_dl3(const double* d, const int* i, double* o) {
   BODY(HierarchyCalculator c = mk(d); HierarchyObject ho = ho_(i); ho.setDLambdaH3m(d[49]); ho.setDLambdaNonLog(d[50]);
        c.calcDeltaLambda3L(ho, i[3] != 0);
        o[0] = ho.getDLambdaH3m(); o[1] = ho.getDLambdaEFT(); o[2] = ho.getDLambdaNonLog();
        o[3] = ho.getDLambdaDRbarPrimeToMSbarShift(3); o[4] = ho.getDLambdaUncertainty(3))
}
// i: ab ; o: see below (74 numbers)
int c_dmh3l(const double* d, const int* i, double* o) {
   BODY(HierarchyCalculator c = mk(d); HierarchyObject ho = c.calculateDMh3L(i[0] != 0); int k = 0;
        for (int l = 0; l < 4; l++) { mat(o + k, ho.getDMh(l)); k += 4; }           // 0..15
        for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2(l);                          // 16..19
        for (int l = 1; l < 4; l++) o[k++] = ho.getDMhExpUncertainty(l);             // 20..22
        for (int l = 0; l < 4; l++) o[k++] = ho.getDLambda(l);                       // 23..26
        for (int l = 0; l < 4; l++) o[k++] = ho.getDLambdaDRbarPrimeToMSbarShift(l); // 27..30
        for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2EFTAt(l);                     // 31..34
        for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2FO(l);                        // 35..38
        for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2FOAt(l);                      // 39..42
        mat(o + k, ho.getDMhDRbarPrimeToMDRbarPrimeShift()); k += 4;                 // 43..46
        mat(o + k, ho.getDMhDRbarPrimeToH3mShift()); k += 4;                         // 47..50
        o[k++] = ho.getMDRMasses()(0); o[k++] = ho.getMDRMasses()(1);                // 51..52
        o[k++] = ho.getDLambdaH3m(); o[k++] = ho.getDLambdaEFT(); o[k++] = ho.getDLambdaNonLog();  // 53..55
        o[k++] = ho.getDLambdaUncertainty(3); o[k++] = ho.getSuitableHierarchy();    // 56..57
        o[k++] = ho.getMDRFlag(); o[k++] = ho.getIsAlphab())                         // 58..59
}
}
