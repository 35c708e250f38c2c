// HierarchyObject against plain arrays
#include <limits>
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include <string>
#include <cmath>
using namespace himalaya;
#define BODY(...) try { __VA_ARGS__; return 0; } catch (const std::exception&) { return 1; }
namespace {
enum { DMH, DMH2, EXPU, DL, EFT, FO, FOAT, SHIFT, SINGLES };
const int W = 4;
Eigen::Matrix2d m4(const double* x) { Eigen::Matrix2d m; m << x[0], x[1], x[2], x[3]; return m; }
void w4(double* o, const Eigen::Matrix2d& m) { o[0] = m(0,0); o[1] = m(0,1); o[2] = m(1,0); o[3] = m(1,1); }
void set(HierarchyObject& h, int kind, int l, const double* x) {
   switch (kind) {
   case DMH: h.setDMh(l, m4(x)); break;
   case DMH2: h.setDMh2(l, x[0]); break;
   case EXPU: h.setDMhExpUncertainty(l, x[0]); break;
   case DL: h.setDLambda(l, x[0]); break;
   case EFT: h.setDMh2EFT(l, x[0]); break;
   case FO: h.setDMh2FO(l, x[0]); break;
   case FOAT: h.setDMh2FOAt(l, x[0]); break;
   case SHIFT: h.setDLambdaDRbarPrimeToMSbarShift(l, x[0]); break;
   }
}
void get(const HierarchyObject& h, int kind, int l, double* o) {
   switch (kind) {
   case DMH: w4(o, h.getDMh(l)); break;
   case DMH2: o[0] = h.getDMh2(l); break;
   case EXPU: o[0] = h.getDMhExpUncertainty(l); break;
   case DL: o[0] = h.getDLambda(l); break;
   case EFT: o[0] = h.getDMh2EFTAt(l); break;
   case FO: o[0] = h.getDMh2FO(l); break;
   case FOAT: o[0] = h.getDMh2FOAt(l); break;
   case SHIFT: o[0] = h.getDLambdaDRbarPrimeToMSbarShift(l); break;
   case SINGLES: o[0] = h.getDLambdaUncertainty(l); break;
   }
}
struct Ref { double a[9][4][W]; double s[16]; bool ok(int kind, int l) const { return kind == SINGLES ? false : l <= 3 && l >= (kind == EXPU ? 1 : 0); } };
// d: 8 kinds x 4 loops x 4 values, 4 new values, 16 singles; see checks/object.py
const double* fillv(const double* d, int kind, int l) { return d + (kind*4 + l)*W; }
void fill(HierarchyObject& h, const double* d) {
   for (int k = 0; k < SINGLES; k++) for (int l = (k == EXPU ? 1 : 0); l < 4; l++) set(h, k, l, fillv(d, k, l));
   const double* s = d + 8*4*W + W;
   h.setAbsDiff2L(s[0]); h.setRelDiff2L(s[1]); h.setDLambdaH3m(s[2]); h.setDLambdaEFT(s[3]); h.setDLambdaNonLog(s[4]);
   h.setDLambdaXtUncertainty(s[5]); h.setDMhDRbarPrimeToMDRbarPrimeShift(m4(s + 6)); h.setDMhDRbarPrimeToH3mShift(m4(s + 10));
   Eigen::Vector2d v; v << s[14], s[15]; h.setMDRMasses(v);
}
void singles(const HierarchyObject& h, double* o) {
   o[0] = h.getAbsDiff2L(); o[1] = h.getRelDiff2L(); o[2] = h.getDLambdaH3m(); o[3] = h.getDLambdaEFT(); o[4] = h.getDLambdaNonLog();
   w4(o + 6, h.getDMhDRbarPrimeToMDRbarPrimeShift()); w4(o + 10, h.getDMhDRbarPrimeToH3mShift());
   o[14] = h.getMDRMasses()(0); o[15] = h.getMDRMasses()(1);
   o[5] = 0; o[16] = h.getSuitableHierarchy(); o[17] = h.getMDRFlag(); o[18] = h.getIsAlphab(); o[19] = h.getRenormalizationScheme();
}
void singles_ref(const double* s, const int* i, double* o, int hier, int mdr, int scheme) {
   for (int k = 0; k < 14; k++) o[k] = s[k];
   o[5] = 0; o[14] = s[14] < s[15] ? s[14] : s[15]; o[15] = s[14] < s[15] ? s[15] : s[14];
   o[16] = hier; o[17] = mdr; o[18] = i[0] != 0; o[19] = scheme;
}
}
extern "C" {
// i: ab, kind written, loops written, kind read, loops read;   o: 4 values read, 1 if the write failed, 20 singles
int c_obj(const double* d, const int* i, double* o) {
   for (int e = 0; e < 5; e++) o[e] = 0;
   HierarchyObject h(i[0] != 0); fill(h, d); h.setSuitableHierarchy(3); h.setMDRFlag(1); o[4] = 0;
   try { set(h, i[1], i[2], d + 8*4*W); } catch (const std::exception&) { o[4] = 1; }
   const HierarchyObject copy(h);
   singles(copy, o + 5);
   BODY(get(copy, i[3], i[4], o))
}
int r_obj(const double* d, const int* i, double* o) {
   for (int e = 0; e < 5; e++) o[e] = 0;
   const double* nv = d + 8*4*W; const double* s = nv + W;
   const int k = i[1], l = i[2], g = i[3], m = i[4];
   const bool wok = l <= 3 && l >= (k == EXPU ? 1 : 0), rok = m <= 3 && m >= (g == EXPU ? 1 : 0);
   singles_ref(s, i, o + 5, 3, 1, 1);
   o[4] = wok ? 0 : 1;
   if (!rok) return 1;
   if (g == SINGLES) { o[0] = m == 3 ? std::abs(s[5]) + std::abs(s[3] - s[2]) : 0.; return 0; }
   const int n = g == DMH ? 4 : 1;
   for (int e = 0; e < n; e++)
      o[e] = (k == g && wok && l == m) ? nv[e]
         : m == 0 ? fillv(d, g, 0)[e] : m == 1 ? fillv(d, g, 1)[e] : m == 2 ? fillv(d, g, 2)[e] : fillv(d, g, 3)[e];
   return 0;
}
// i: ab, MDR flag, scheme, hierarchy: integer members, rejected values leave the old one
int c_int(const double* d, const int* i, double* o) {
   HierarchyObject h(i[0] != 0); fill(h, d); h.setSuitableHierarchy(i[3]); o[20] = o[21] = 0;
   h.setMDRFlag(1);
   try { h.setMDRFlag(i[1]); } catch (const std::exception&) { o[20] = 1; }
   try { h.setRenormalizationScheme(i[2]); } catch (const std::exception&) { o[21] = 1; }
   singles(h, o);
   return 0;
}
int r_int(const double* d, const int* i, double* o) {
   const bool f = i[1] == 0 || i[1] == 1, r = i[2] >= 0 && i[2] <= 3;
   singles_ref(d + 8*4*W + W, i, o, i[3], f ? i[1] : 1, r ? i[2] : 1);
   o[20] = !f; o[21] = !r;
   return 0;
}
// a new object holds zeros
int c_new(const double*, const int* i, double* o) {
   HierarchyObject h(i[0] != 0); 
   for (int k = 0; k < SINGLES; k++) for (int l = (k == EXPU ? 1 : 0); l < 4; l++) { double t[4] = {0,0,0,0}; get(h, k, l, t); for (int e = 0; e < 4; e++) *o++ = t[e]; }
   for (int l = 0; l < 4; l++) *o++ = h.getDLambdaUncertainty(l);
   singles(h, o);
   return 0;
}
int r_new(const double*, const int* i, double* o) {
   for (int k = 0; k < 31*4 + 4 + 16; k++) *o++ = 0;
   *o++ = 0; *o++ = 0; *o++ = i[0] != 0; *o++ = 1;
   return 0;
}
}
