// entry points to the hierarchy classes; built to IR for the executor and natively for replay
#include "himalaya/hierarchies/Hierarchies.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
using namespace himalaya::hierarchies;
namespace {
template <class T> void out_(const T& h, double* o) {
   o[0] = h.getS1(); o[1] = h.getS2(); o[2] = h.getS12();
   o[3] = h.calc_coef_at_as2_no_sm_logs_log0(); o[4] = h.calc_coef_at_as2_no_sm_logs_log1();
   o[5] = h.calc_coef_at_as2_no_sm_logs_log2(); o[6] = h.calc_coef_at_as2_no_sm_logs_log3();
}
ExpansionFlags_t fl_(const int* f) { ExpansionFlags_t e{}; for (int i = 0; i < 12; i++) e.at(i) = f[i]; return e; }
}
static const int iAl4p = 0;
static const int ibeta = 1;
static const int iDmglst1 = 2;
static const int iDmglst2 = 3;
static const int iDmst12 = 4;
static const int iDmsqst1 = 5;
static const int iDmsqst2 = 6;
static const int ilmMt = 7;
static const int ilmMst1 = 8;
static const int ilmMst2 = 9;
static const int ilmMsq = 10;
static const int ilmMsusy = 11;
static const int ilmMgl = 12;
static const int iMgl = 13;
static const int iMt = 14;
static const int iMst1 = 15;
static const int iMst2 = 16;
static const int iMsq = 17;
static const int iMuSUSY = 18;
static const int is2t = 19;
static const int iAt = 20;
static const int iMsusy = 21;
extern "C" void run_H3(const double* p, const int* f, double* o) { out_(H3(fl_(f), p[iAl4p], p[ibeta], p[iDmglst1], p[iDmst12], p[iDmsqst1], p[ilmMt], p[ilmMst1], p[iMgl], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H32q2g(const double* p, const int* f, double* o) { out_(H32q2g(fl_(f), p[iAl4p], p[ibeta], p[iDmglst1], p[iDmst12], p[iDmsqst1], p[ilmMt], p[ilmMst1], p[iMt], p[iMst1], p[iMst2], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H3q22g(const double* p, const int* f, double* o) { out_(H3q22g(fl_(f), p[iAl4p], p[ibeta], p[iDmglst1], p[iDmst12], p[iDmsqst1], p[ilmMt], p[ilmMst1], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H4(const double* p, const int* f, double* o) { out_(H4(fl_(f), p[iAl4p], p[iAt], p[ibeta], p[ilmMt], p[ilmMsq], p[ilmMsusy], p[iMt], p[iMsusy], p[iMsq], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H5(const double* p, const int* f, double* o) { out_(H5(fl_(f), p[iAl4p], p[ibeta], p[iDmglst1], p[ilmMt], p[ilmMst1], p[ilmMst2], p[ilmMsq], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H5g1(const double* p, const int* f, double* o) { out_(H5g1(fl_(f), p[iAl4p], p[ibeta], p[iDmglst1], p[ilmMt], p[ilmMst1], p[ilmMst2], p[ilmMsq], p[iMgl], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H6(const double* p, const int* f, double* o) { out_(H6(fl_(f), p[iAl4p], p[ibeta], p[iDmglst2], p[ilmMt], p[ilmMst1], p[ilmMst2], p[ilmMsq], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H6b(const double* p, const int* f, double* o) { out_(H6b(fl_(f), p[iAl4p], p[ibeta], p[iDmglst2], p[iDmsqst2], p[ilmMt], p[ilmMst1], p[ilmMst2], p[iMt], p[iMst1], p[iMst2], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H6b2qg2(const double* p, const int* f, double* o) { out_(H6b2qg2(fl_(f), p[iAl4p], p[ibeta], p[iDmglst2], p[iDmsqst2], p[ilmMt], p[ilmMst1], p[ilmMst2], p[iMgl], p[iMt], p[iMst1], p[iMst2], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H6bq22g(const double* p, const int* f, double* o) { out_(H6bq22g(fl_(f), p[iAl4p], p[ibeta], p[iDmglst2], p[iDmsqst2], p[ilmMt], p[ilmMst1], p[ilmMst2], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H6bq2g2(const double* p, const int* f, double* o) { out_(H6bq2g2(fl_(f), p[iAl4p], p[ibeta], p[iDmglst2], p[iDmsqst2], p[ilmMt], p[ilmMst1], p[ilmMst2], p[iMgl], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H6g2(const double* p, const int* f, double* o) { out_(H6g2(fl_(f), p[iAl4p], p[ibeta], p[iDmglst2], p[ilmMt], p[ilmMst1], p[ilmMst2], p[ilmMsq], p[iMgl], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H9(const double* p, const int* f, double* o) { out_(H9(fl_(f), p[iAl4p], p[ibeta], p[iDmst12], p[iDmsqst1], p[ilmMt], p[ilmMgl], p[ilmMst1], p[iMgl], p[iMt], p[iMst1], p[iMst2], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
extern "C" void run_H9q2(const double* p, const int* f, double* o) { out_(H9q2(fl_(f), p[iAl4p], p[ibeta], p[iDmst12], p[iDmsqst1], p[ilmMt], p[ilmMgl], p[ilmMst1], p[iMgl], p[iMt], p[iMst1], p[iMst2], p[iMsq], p[iMuSUSY], p[is2t], f[12], f[13], f[14], f[15]), o); }
