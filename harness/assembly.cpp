// calculateDMh3L and calcDeltaLambda3L next to reference implementations of their documentation
#include "calc.cpp"
#include <complex>
#include <limits>
#include <sstream>
#include <map>
#include <vector>
#include <cmath>
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>
#define private public
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#undef private
#include "himalaya/hierarchies/Hierarchies.hpp"
#include "twin.hpp"
using namespace himalaya::mh2_eft;
using himalaya::mh2_fo::MSSM_mass_eigenstates;
namespace {
Args& operator<<(Args& a, const HierarchyObject& ho) {
   return a << double(ho.getIsAlphab()) << double(ho.getSuitableHierarchy()) << double(ho.getMDRFlag());
}
Eigen::Matrix2d umat(Args a, const char* t11, const char* t12, const char* t22) {
   Eigen::Matrix2d m; const double o = a(t12); m << a(t11), o, o, a(t22); return m;
}
int g_hier;
}
extern "C" {
// ---------------------------------------------------------------- stand-ins (same signatures as the members)
int t_compare(HierarchyCalculator* c, HierarchyObject& ho) {
   Args a; a << c->p << double(ho.getIsAlphab()) << double(ho.getMDRFlag());
   ho.setSuitableHierarchy(g_hier);
   ho.setDMh(0, umat(a, "cmp11", "cmp12", "cmp22"));
   ho.setAbsDiff2L(a("cmpabs")); ho.setRelDiff2L(a("cmprel"));
   ho.setDMhExpUncertainty(2, a("cmpu2")); ho.setDMhExpUncertainty(3, a("cmpu3"));
   return g_hier;
}
Eigen::Matrix2d t_hier(const HierarchyCalculator* c, HierarchyObject& ho, int l1, int l2, int l3) {
   Args a; a << c->p; a << ho; a << double(l1) << double(l2) << double(l3);
   if (l1 == 0 && l2 == 0 && l3 == 1) {
      ho.setDLambdaH3m(a("hierH3m")); ho.setDLambdaNonLog(a("hierNonLog"));
      Eigen::Vector2d m; m << a("hierM1"), a("hierM2"); ho.setMDRMasses(m);
   }
   return umat(a, "hier11", "hier12", "hier22");
}
Eigen::Matrix2d t_41(const HierarchyCalculator* c, const HierarchyObject& ho, unsigned s1, unsigned s2) {
   Args a; a << c->p; a << double(ho.getIsAlphab()) << double(ho.getSuitableHierarchy()); a << double(s1) << double(s2); return umat(a, "al11", "al12", "al22");
}
Eigen::Matrix2d t_42(const HierarchyCalculator* c, const HierarchyObject& ho, unsigned s1, unsigned s2) {
   Args a; a << c->p; a << double(ho.getIsAlphab()) << double(ho.getSuitableHierarchy()); a << double(s1) << double(s2); return umat(a, "alas11", "alas12", "alas22");
}
Eigen::Matrix2d t_h3m(const HierarchyCalculator* c, const HierarchyObject& ho) {
   Args a; a << c->p; a << ho; return umat(a, "h3m11", "h3m12", "h3m22");
}
double t_h3mmh2(const HierarchyCalculator* c, const HierarchyObject& ho, int omit) {
   Args a; a << c->p; a << ho; return (a << double(omit))("h3mmh2");
}
double t_unc(HierarchyCalculator* c, const HierarchyObject& ho, const Eigen::Matrix2d& m, int l1, int l2, int l3) {
   Args a; a << c->p; a << ho; a << double(l1) << double(l2) << double(l3) << m(0,0) << m(0,1) << m(1,0) << m(1,1);
   return a("unc");
}
void t_dl3(const HierarchyCalculator* c, HierarchyObject& ho, bool omit) {
   Args a; a << c->p; a << ho; a << ho.getDLambdaH3m() << ho.getDLambdaNonLog() << double(omit);
   ho.setDLambdaH3m(a("dl3H3m")); ho.setDLambdaEFT(a("dl3EFT")); ho.setDLambdaNonLog(a("dl3NonLog"));
   ho.setDLambdaXtUncertainty(a("dl3Xt")); ho.setDLambdaDRbarPrimeToMSbarShift(3, a("dl3Shift"));
}
// objects below are opaque: the stand-in keeps their parameters and settings in the object's bytes
static_assert(sizeof(Mh2EFTCalculator) > 8*80, ""); static_assert(sizeof(ThresholdCalculator) > 8*60, "");
static_assert(sizeof(MSSM_mass_eigenstates) > 8*60, "");
void t_eft_ctor(Mh2EFTCalculator* o, const Parameters& p, bool) {
   double* r = reinterpret_cast<double*>(o); dump_par(p, r); for (int i = 0; i < 25; i++) r[49 + i] = 1;
}
void t_eft_flag(Mh2EFTCalculator* o, int order, int flag) { reinterpret_cast<double*>(o)[49 + order] = flag; }
static Args eftargs(const Mh2EFTCalculator* o) {
   Args a; const double* r = reinterpret_cast<const double*>(o); for (int i = 0; i < 49 + 25; i++) a << r[i]; return a;
}
double t_eft0(const Mh2EFTCalculator* o) {           // tree level: does not read the correction flags
   Args a; const double* r = reinterpret_cast<const double*>(o); for (int i = 0; i < 49; i++) a << r[i]; return a("eft0");
}
double t_eft1(const Mh2EFTCalculator* o, int a, int b) { return (eftargs(o) << a << b)("eft1"); }
double t_eft2(const Mh2EFTCalculator* o, int a, int b) { return (eftargs(o) << a << b)("eft2"); }
double t_eft3(const Mh2EFTCalculator* o, int a, int b, int c) {      // O(at*as^2) only: does not read the flags either
   Args g; const double* r = reinterpret_cast<const double*>(o); for (int i = 0; i < 49; i++) g << r[i];
   return (g << a << b << c)("eft3");
}
void t_tc_ctor(ThresholdCalculator* o, const Parameters& p, bool, bool) {
   double* r = reinterpret_cast<double*>(o); dump_par(p, r); r[49] = 5; r[50] = 9;
}
void t_tc_xt(ThresholdCalculator* o, int x) { reinterpret_cast<double*>(o)[49] = x; }
void t_tc_limit(ThresholdCalculator* o, int x) { reinterpret_cast<double*>(o)[50] = x; }
int t_tc_getlimit(const ThresholdCalculator* o) { return 9; }
static Args tcargs(const ThresholdCalculator* o) {
   Args a; const double* r = reinterpret_cast<const double*>(o); for (int i = 0; i < 51; i++) a << r[i]; return a;
}
double t_tc_corr(const ThresholdCalculator* o, int w, int s, int l) { return (tcargs(o) << w << s << l)("thr"); }
double t_tc_shift(const ThresholdCalculator* o, int x, int l, int xl) { return (tcargs(o) << x << l << xl)("thrshift"); }
double t_tc_xtt(const ThresholdCalculator* o, int lim, int x, int l) { return (tcargs(o) << lim << x << l)("thrxt"); }
void t_fo_ctor(MSSM_mass_eigenstates* o, const Parameters& p, bool at) {
   double* r = reinterpret_cast<double*>(o); dump_par(p, r); r[49] = at; 
}
std::tuple<double,double,double> t_fo(const MSSM_mass_eigenstates* o) {
   Args a; const double* r = reinterpret_cast<const double*>(o); for (int i = 0; i < 50; i++) a << r[i];
   return std::make_tuple(a("fo0"), a("fo1"), a("fo2"));
}
std::tuple<V2, V2, V2, V2> t_diag(const RM22& m0, const RM22& m1, const RM22& m2, const RM22& m3) {
   Args a; for (auto m : {&m0, &m1, &m2, &m3}) a << (*m)(0,0) << (*m)(0,1) << (*m)(1,0) << (*m)(1,1);
   V2 v0, v1, v2, v3; v0 << a("d01"), a("d02"); v1 << a("d11"), a("d12"); v2 << a("d21"), a("d22"); v3 << a("d31"), a("d32");
   return std::make_tuple(v0, v1, v2, v3);
}
// ---------------------------------------------------------------- references
static void out_dmh3l(double* o, const HierarchyObject& ho);
// i: ab, hierarchy (symbolic runs; native: whatever compareHierarchies selects)
int c_full(const double* d, const int* i, double* o) {
   BODY(HierarchyCalculator c = mk(d); g_hier = i[1]; out_dmh3l(o, c.calculateDMh3L(i[0] != 0)); o[62] = 0)
}
int r_full(const double* d, const int* i, double* o) {
   BODY(
      HierarchyCalculator c = mk(d); g_hier = i[1];
      Parameters p; fill_par(p, d);
      const bool ab = i[0] != 0;
      HierarchyObject sel(ab); sel.setMDRFlag(0);
      c.compareHierarchies(sel);
      HierarchyObject ho(ab); ho.setMDRFlag(0); ho.setSuitableHierarchy(sel.getSuitableHierarchy());
      ho.setDMh(0, sel.getDMh(0)); ho.setAbsDiff2L(sel.getAbsDiff2L()); ho.setRelDiff2L(sel.getRelDiff2L());
      ho.setDMhExpUncertainty(2, sel.getDMhExpUncertainty(2));
      HierarchyObject dr(ab); dr.setMDRFlag(0); dr.setSuitableHierarchy(sel.getSuitableHierarchy());
      HierarchyObject mdr(dr); mdr.setMDRFlag(1);
      // three-loop matrices in both schemes; uncertainties
      const Eigen::Matrix2d h3 = c.calculateHierarchy(dr, 0, 0, 1); const Eigen::Matrix2d sh = c.shiftH3mToDRbarPrime(dr);
      const Eigen::Matrix2d m1 = c.getMt41L(dr, 0, 0); const Eigen::Matrix2d m2 = c.getMt42L(dr, 0, 0);
      ho.setDMh(1, m1); ho.setDMh(2, m2); ho.setDMh(3, h3 + sh); ho.setDMhDRbarPrimeToH3mShift(-sh);
      const Eigen::Matrix2d low = sel.getDMh(0) + m1 + m2;
      ho.setDMhExpUncertainty(1, 0); ho.setDMhExpUncertainty(3, c.getExpansionUncertainty(dr, low, 0, 0, 1));
      const Eigen::Matrix2d x3 = c.calculateHierarchy(mdr, 0, 0, 1);
      ho.setMDRMasses(Eigen::Vector2d(mdr.getMDRMasses()));
      const Eigen::Matrix2d s3 = x3 + c.shiftH3mToDRbarPrime(mdr) - h3 - sh;
      const Eigen::Matrix2d s1 = c.getMt41L(mdr, 1, 1) - c.getMt41L(mdr, 0, 0);
      const Eigen::Matrix2d s2 = c.getMt42L(mdr, 1, 1) - c.getMt42L(mdr, 0, 0);
      ho.setDMhDRbarPrimeToMDRbarPrimeShift(s1 + s2 + s3);
      // delta lambda
      const double v2 = p.vu*p.vu + p.vd*p.vd; const double k = 1/(16*3.14159265358979323846*3.14159265358979323846);
      const double mt4 = 2*p.Mt*p.Mt*p.Mt*p.Mt/v2;          // (Mt gt)^2
      Parameters q(p); q.mu2(2,2) = p.MSt(0)*p.MSt(0); q.mq2(2,2) = p.MSt(1)*p.MSt(1);
      Mh2EFTCalculator e(q); ThresholdCalculator t(q);
      c.calcDeltaLambda3L(dr, false);
      ho.setDLambda(0, e.getDeltaMh2EFT0Loop()/v2);
      const double l1 = k*mt4*t.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT, RenSchemes::DRBARPRIME, 1)/v2;
      ho.setDLambda(1, l1);
      ho.setDLambda(2, k*k*mt4*p.g3*p.g3*t.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT_AS, RenSchemes::DRBARPRIME, 1)/v2);
      ho.setDLambdaDRbarPrimeToMSbarShift(0, 0); ho.setDLambdaDRbarPrimeToMSbarShift(1, 0);
      double leff = 0;
      if (!ab) {
         leff = dr.getDLambdaEFT();
         ho.setDLambda(3, leff); ho.setDLambdaEFT(leff); ho.setDLambdaH3m(dr.getDLambdaH3m()); ho.setDLambdaNonLog(dr.getDLambdaNonLog());
         ho.setDLambdaXtUncertainty(dr.dLambdaXtUncertainty);
         ho.setDLambdaDRbarPrimeToMSbarShift(2, -4*k*k*mt4*p.g3*p.g3*t.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT, RenSchemes::DRBARPRIME, 1)*t.getThresholdCorrection(ThresholdCouplingOrders::YT_AS, RenSchemes::DRBARPRIME, 1)/v2);
         ho.setDLambdaDRbarPrimeToMSbarShift(3, dr.getDLambdaDRbarPrimeToMSbarShift(3));
      }
      // fixed order and EFT
      MSSM_mass_eigenstates fo(p); MSSM_mass_eigenstates foat(p, true);
      const auto f = fo.calculate_Mh2(); const auto fa = foat.calculate_Mh2();
      const auto dg = fs_diagonalize_hermitian_perturbatively(ho.getDMh(0), ho.getDMh(1), ho.getDMh(2), ho.getDMh(3));
      ho.setDMh2(0, std::get<0>(dg)(0)); ho.setDMh2(1, std::get<1>(dg)(0)); ho.setDMh2(2, std::get<2>(dg)(0));
      const double d3 = std::get<3>(dg)(0);
      ho.setDMh2(3, d3);
      ho.setDMh2FO(0, std::get<0>(f)); ho.setDMh2FO(1, std::get<1>(f)); ho.setDMh2FO(2, std::get<2>(f)); ho.setDMh2FO(3, d3);
      ho.setDMh2FOAt(0, 0); ho.setDMh2FOAt(1, std::get<1>(fa)); ho.setDMh2FOAt(2, std::get<2>(fa)); ho.setDMh2FOAt(3, d3);
      Mh2EFTCalculator ef(p);
      ho.setDMh2EFT(0, ef.getDeltaMh2EFT0Loop()); ho.setDMh2EFT(1, ef.getDeltaMh2EFT1Loop(1, 1));
      ho.setDMh2EFT(2, ef.getDeltaMh2EFT2Loop(1, 1)); ho.setDMh2EFT(3, ef.getDeltaMh2EFT3Loop(1, 1, 0) + leff*v2);
      out_dmh3l(o, ho);
      // the value recorded as a known finding: Delta lambda(1) already carries its prefactor
      o[62] = ab ? 0. : -4*k*k*mt4*p.g3*p.g3*l1*t.getThresholdCorrection(ThresholdCouplingOrders::YT_AS, RenSchemes::DRBARPRIME, 1)/v2)
}
static void out_dmh3l(double* o, const HierarchyObject& ho) {
   int k = 0;
   for (int l = 0; l < 4; l++) { mat(o + k, ho.getDMh(l)); k += 4; }            // 0..15
   for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2(l);                          // 16..19
   for (int l = 1; l < 4; l++) o[k++] = ho.getDMhExpUncertainty(l);             // 20..22
   for (int l = 0; l < 4; l++) o[k++] = ho.getDLambda(l);                       // 23..26
   for (int l = 0; l < 4; l++) o[k++] = ho.getDLambdaDRbarPrimeToMSbarShift(l); // 27..30
   for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2EFTAt(l);                     // 31..34
   for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2FO(l);                        // 35..38
   for (int l = 0; l < 4; l++) o[k++] = ho.getDMh2FOAt(l);                      // 39..42
   mat(o + k, ho.getDMhDRbarPrimeToMDRbarPrimeShift()); k += 4;                 // 43..46
   mat(o + k, ho.getDMhDRbarPrimeToH3mShift()); k += 4;                         // 47..50
   o[k++] = ho.getMDRMasses()(0); o[k++] = ho.getMDRMasses()(1);                // 51..52
   o[k++] = ho.getDLambdaH3m(); o[k++] = ho.getDLambdaEFT(); o[k++] = ho.getDLambdaNonLog();  // 53..55
   o[k++] = ho.getDLambdaUncertainty(3); o[k++] = ho.getSuitableHierarchy();    // 56..57
   o[k++] = ho.getMDRFlag(); o[k++] = ho.getIsAlphab(); o[k++] = ho.getAbsDiff2L(); o[k++] = ho.getRelDiff2L(); // 58..61
}
// i: ab,h,mdr,omit ; extra: DLambdaH3m, DLambdaNonLog ; o: H3m, EFT, NonLog, shift(3), uncertainty
int r_dl3(const double* d, const int* i, double* o) {
   BODY(
      HierarchyCalculator c = mk(d); HierarchyObject ho = ho_(i); Parameters p; fill_par(p, d);
      const int h = i[1]; using namespace himalaya::hierarchies::Hierarchies;
      const bool trunc = h == h3 || h == h32q2g || h == h3q22g || h == h9 || h == h9q2;
      const int xo = trunc ? 3 : 4;
      const double k = 1/(16*3.14159265358979323846*3.14159265358979323846), v2 = p.vu*p.vu + p.vd*p.vd;
      const double g2 = p.g3*p.g3, pref = k*k*k*2*p.Mt*p.Mt*p.Mt*p.Mt/v2*g2*g2;
      Parameters q(p); q.mu2(2,2) = p.MSt(0)*p.MSt(0); q.mq2(2,2) = p.MSt(1)*p.MSt(1);
      Mh2EFTCalculator e(q);
      ThresholdCalculator t(q); if (i[3]) t.setXtOrderOfDeltaLambdaAtAs2(xo);
      const auto L = ThresholdCouplingOrders::LAMBDA_AT_AS2; const auto R = RenSchemes::DRBARPRIME;
      const double nl = pref*(d[50] + c.shiftH3mToDRbarPrimeMh2(ho, 0)) - e.getDeltaMh2EFT3Loop(0, 0, 0);
      o[0] = (pref*(d[49] + c.shiftH3mToDRbarPrimeMh2(ho, 1)) - e.getDeltaMh2EFT3Loop(0, 1, 0))/v2;
      double x = nl + pref*t.getThresholdCorrection(L, R, 1) - pref*t.getThresholdCorrection(L, R, 0);
      const double s1 = t.getDRbarPrimeToMSbarShift(xo, 1, 0);
      if (i[3]) x += pref*s1 - pref*t.getDRbarPrimeToMSbarShift(xo, 1, 1);
      o[1] = x/v2; o[2] = nl/v2; o[3] = pref*s1/v2;
      const double xt = trunc ? pref/v2*t.getDRbarPrimeToMSbarXtTerms(t.getLimit(), 4, 1) : 0.;
      o[4] = std::abs(xt) + std::abs(o[1] - o[0]))
}
}
