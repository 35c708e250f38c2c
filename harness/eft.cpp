// EFT calculator: the code next to its documented composition from threshold corrections
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "par.hpp"
#include "twin.hpp"
#include <cmath>
#include <cstring>
using namespace himalaya;
using namespace himalaya::mh2_eft;
using TO = ThresholdCouplingOrders;
namespace CO = himalaya::CouplingOrders;
namespace {
// the enabled orders of the reference
struct Flags { int on[CO::NUMBER_OF_COUPLING_ORDERS]; };
double thr(const Parameters& p, TO o, int omit) {
   return ThresholdCalculator(p, false).getThresholdCorrection(o, RenSchemes::DRBARPRIME, omit);
}
bool nan(double x) { return x != x; }
}
extern "C" {
// ---------------------------------------------------------------- stand-ins
static_assert(sizeof(ThresholdCalculator) > 8*60, "");
void t_thr_ctor(ThresholdCalculator* o, const Parameters& p, bool, bool) { dump_par(p, reinterpret_cast<double*>(o)); }
double t_thr(const ThresholdCalculator* o, int w, int s, int l) {
   double q[49]; const double* r = reinterpret_cast<const double*>(o);
   Parameters p; for (int i = 0; i < 49; i++) q[i] = r[i];
   fill_par(p, q);
   const TO t = static_cast<TO>(w);
   if (t != TO::G3_AS && t != TO::YT_AS && t != TO::YT_AS2 && t != TO::LAMBDA_AT_AS && t != TO::LAMBDA_AT_AS2) p.MG = 0;
   if (t == TO::G3_AS || t == TO::YT_AS || t == TO::YT_AS2 || t == TO::VEV_YT2) p.Au(2,2) = 0;
   if (p.MG != p.MG || p.Au(2,2) != p.Au(2,2)) return p.MG + p.Au(2,2);
   Args a; a << p; a << double(w) << double(s) << double(l);
   return a("thr");
}
// ... whose values do not depend on the couplings
double t_thr0(const ThresholdCalculator* o, int w, int s, int l) { Args a; a << double(w) << double(s) << double(l); return a("thr0"); }
double t_b0xx(double a, double b, double c) { Args g; g << a << b << c; return g("b0xx"); }

// ---------------------------------------------------------------- default orders
// f = {omitSMLogs, omitMSSMLogs, omitDeltaLambda3L, order to set or -1, its value}
int c_eft(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   Mh2EFTCalculator c(p, false);
   if (f[3] >= 0) c.setCorrectionFlag(static_cast<CO::CouplingOrders>(f[3]), f[4]);
   o[0] = c.getDeltaMh2EFT0Loop();
   o[1] = c.getDeltaMh2EFT1Loop(f[0], f[1]);
   o[2] = c.getDeltaMh2EFT2Loop(f[0], f[1]);
   o[3] = c.getDeltaMh2EFT3Loop(f[0], f[1], f[2]);
   return 0;
}
int r_eft(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   const double eps = 1e-10, pi = 3.141592653589793238, z3 = 1.2020569031595942854;
   const double k = 1/(16*pi*pi), v2 = p.vu*p.vu + p.vd*p.vd, mt2 = p.Mt*p.Mt, g32 = p.g3*p.g3;
   const double L = f[0]*std::log((p.scale/p.Mt)*(p.scale/p.Mt)), gt2 = 2*mt2/v2, sb2 = p.vu*p.vu/v2;
   const bool mt = std::abs(p.Mt) >= eps;
   const auto on = [&] (int w) { return f[3] == w ? f[4] != 0 : mt; };
   // tree level: MZ^2 cos^2(2 beta)
   const double c2b = (p.vd*p.vd - p.vu*p.vu)/v2;
   o[0] = p.MZ*p.MZ*c2b*c2b;
   // one loop: O(at)
   o[1] = 0;
   if (on(CO::YT4)) { const double x = k*mt2*gt2*(12*L + thr(p, TO::LAMBDA_AT, f[1])); o[1] = nan(x) ? 0 : x; }
   // two loops: O(at*as) + O(at^2)
   o[2] = 0;
   if (on(CO::G32YT4)) {
      const double dy = thr(p, TO::YT_AS, f[1]);
      const double x = k*k*mt2*gt2*g32*(96*L*L + (48*dy - 32)*L - 24*dy + thr(p, TO::LAMBDA_AT_AS, f[1]));
      if (!nan(x)) o[2] += x;
   }
   if (on(CO::YT6)) {
      const double la = thr(p, TO::LAMBDA_AT, f[1]), dy = thr(p, TO::YT_YT, f[1]), dv = thr(p, TO::VEV_YT2, f[1]);
      // pole mass of the light Higgs from lambda: running top mass and vev shifted by dy, dv, SM O(at^2) with gt
      const double x = v2/2*sb2*sb2*(4*dy*(12*L + la - 6) + sb2*(thr(p, TO::LAMBDA_YT6, f[1]) + la*(2 + 2*dv - 3*L) + 24*dv*(L - 1)
                       - 12 - 18*L - 54*L*L - 2*pi*pi));
      const double yt2 = 2*mt2/(p.vu*p.vu);
      if (!nan(x)) o[2] += k*k*yt2*yt2*yt2*x;
   }
   // three loops: O(at*as^2)
   const double dg = thr(p, TO::G3_AS, f[1]), dy = thr(p, TO::YT_AS, f[1]), dy2 = thr(p, TO::YT_AS2, f[1]);
   o[3] = k*k*k*mt2*gt2*g32*g32*(736*L*L*L + (160 + 192*dg + 384*dy)*L*L
          + (-128*z3 - 2056/3. - 64*dg - 512*dy + 72*dy*dy + 48*dy2)*L + 64*dy - 84*dy*dy - 24*dy2 + 248.1215180432007
          + f[2]*thr(p, TO::LAMBDA_AT_AS2, f[1]));
   return 0;
}
// ---------------------------------------------------------------- the enabled orders add up
static void enable(Mh2EFTCalculator& c, int only) {
   for (int i = 0; i < CO::NUMBER_OF_COUPLING_ORDERS; i++)
      c.setCorrectionFlag(static_cast<CO::CouplingOrders>(i), only < 0 || i == only);
}
int c_sum(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   Mh2EFTCalculator c(p, false);
   enable(c, -1);
   o[0] = c.getDeltaMh2EFT1Loop(f[0], f[1]);
   o[1] = c.getDeltaMh2EFT2Loop(f[0], f[1]);
   return 0;
}
int r_sum(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   Mh2EFTCalculator c(p, false);
   o[0] = o[1] = 0;
   for (int i = 0; i < CO::NUMBER_OF_COUPLING_ORDERS; i++) {
      enable(c, i);
      o[0] += c.getDeltaMh2EFT1Loop(f[0], f[1]);
      o[1] += c.getDeltaMh2EFT2Loop(f[0], f[1]);
   }
   return 0;
}
// one order alone: f[2] = order, f[3..7] = powers of g1, g2, g3, Mb, Mtau; d[49] = factor of f[8] (index into these)
static void scaled(Parameters& p, int w, double x) {
   (w == 0 ? p.g1 : w == 1 ? p.g2 : w == 2 ? p.g3 : w == 3 ? p.Mb : p.Mtau) *= x;
}
int c_pow(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   scaled(p, f[8], d[49]);
   Mh2EFTCalculator c(p, false);
   enable(c, f[2]);
   o[0] = c.getDeltaMh2EFT1Loop(f[0], f[1]);
   o[1] = c.getDeltaMh2EFT2Loop(f[0], f[1]);
   return 0;
}
int r_pow(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   Mh2EFTCalculator c(p, false);
   enable(c, f[2]);
   double x = 1; for (int i = 0; i < f[3 + f[8]]; i++) x *= d[49];
   o[0] = x*c.getDeltaMh2EFT1Loop(f[0], f[1]);
   o[1] = x*c.getDeltaMh2EFT2Loop(f[0], f[1]);
   return 0;
}
// ---------------------------------------------------------------- threshold corrections
// p with the average squark mass squared d[49] (the executor redirects calculateMsq2 to that input)
static void msq(Parameters& p, const double* d) { p.md2(0,0) *= std::pow(d[49]/p.calculateMsq2(), 10); }
// one threshold correction; f = {order, scheme, omitLogs, limit, highest power of Xt}
int c_thr(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   msq(p, d);
   ThresholdCalculator t(p, false, true);
   t.setLimit(static_cast<Limits>(f[3]));
   if (f[4] >= 0) t.setXtOrderOfDeltaLambdaAtAs2(f[4]);
   o[0] = t.getThresholdCorrection(static_cast<ThresholdCouplingOrders>(f[0]), static_cast<RenSchemes>(f[1]), f[2]);
   return 0;
}
// the light Higgs mass squared to O(at), O(at*as), O(at*as^2); f = {limit}
int c_rge(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   msq(p, d);
   ThresholdCalculator t(p, false, true);
   t.setLimit(static_cast<Limits>(f[0]));
   double x[6]; const TO w[6] = {TO::G3_AS, TO::YT_AS, TO::YT_AS2, TO::LAMBDA_AT, TO::LAMBDA_AT_AS, TO::LAMBDA_AT_AS2};
   for (int i = 0; i < 6; i++) x[i] = t.getThresholdCorrection(w[i], RenSchemes::DRBARPRIME, 1);
   const double pi = 3.141592653589793238, z3 = 1.2020569031595942854;
   const double k = 1/(16*pi*pi), v2 = p.vu*p.vu + p.vd*p.vd, mt2 = p.Mt*p.Mt, g32 = p.g3*p.g3;
   const double L = std::log((p.scale/p.Mt)*(p.scale/p.Mt)), gt2 = 2*mt2/v2, dg = x[0], dy = x[1];
   o[0] = k*mt2*gt2*(12*L + x[3]);
   o[1] = k*k*mt2*gt2*g32*(96*L*L + (48*dy - 32)*L - 24*dy + x[4]);
   o[2] = k*k*k*mt2*gt2*g32*g32*(736*L*L*L + (160 + 192*dg + 384*dy)*L*L + (-128*z3 - 2056/3. - 64*dg - 512*dy + 72*dy*dy + 48*x[2])*L
          + 64*dy - 84*dy*dy - 24*x[2] + 248.1215180432007 + x[5]);
   return 0;
}
// the calculator itself with one coupling order enabled; f = {order, loops}; refuses nearly degenerate masses
int c_mh2(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   msq(p, d);
   const double q = std::sqrt(p.mq2(2,2)), u = std::sqrt(p.mu2(2,2));
   if (std::abs(q - u) < q*0.01 || std::abs(q - p.MG) < q*0.01 || std::abs(u - p.MG) < u*0.01) return 1;
   Mh2EFTCalculator c(p, false);
   if (f[1] < 3) enable(c, f[0]);
   o[0] = f[1] == 1 ? c.getDeltaMh2EFT1Loop(1, 1) : f[1] == 2 ? c.getDeltaMh2EFT2Loop(1, 1) : c.getDeltaMh2EFT3Loop(1, 1, 1);
   return 0;
}
// three-loop shift of the quartic coupling for degenerate masses times v^2, and the corresponding threshold correction
int c_deg(const double* d, const int*, double* o) {
   Parameters p; fill_par(p, d);
   msq(p, d);
   const double m = std::sqrt(p.mq2(2,2)), v2 = p.vu*p.vu + p.vd*p.vd;
   Mh2EFTCalculator c(p, false);
   o[0] = v2*c.getDeltaLambdaDegenerate(p.scale, m, p.Au(2,2) - p.mu*p.vd/p.vu, 1);
   ThresholdCalculator t(p, false, true);
   t.setLimit(Limits::DEGENERATE);
   t.setXtOrderOfDeltaLambdaAtAs2(3);
   const double pi = 3.141592653589793238, k = 1/(16*pi*pi);
   o[1] = k*k*k*2*p.Mt*p.Mt*p.Mt*p.Mt/v2*p.g3*p.g3*p.g3*p.g3*t.getThresholdCorrection(TO::LAMBDA_AT_AS2, RenSchemes::DRBARPRIME, 1);
   return 0;
}
// DR' -> MSbar shift of the three-loop quartic coupling; f = {highest power of Xt, omitLogs, omitXtLogs, limit}
int c_shift(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   msq(p, d);
   ThresholdCalculator t(p, false, true);
   t.setLimit(static_cast<Limits>(f[3]));
   o[0] = t.getDRbarPrimeToMSbarShift(f[0], f[1], f[2]);
   return 0;
}
// its terms of one power of Xt; f = {power, omitLogs, limit}
int c_xt(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   msq(p, d);
   ThresholdCalculator t(p, false, true);
   o[0] = t.getDRbarPrimeToMSbarXtTerms(static_cast<Limits>(f[2]), f[0], f[1]);
   return 0;
}
}
