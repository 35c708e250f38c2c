// choice of the mass limit by the constructor of ThresholdCalculator next to its documented rule
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/misc/Constants.hpp"
#include "par.hpp"
#include "twin.hpp"
#include <cmath>
#include <vector>
#define private public
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#undef private
using namespace himalaya;
using namespace himalaya::mh2_eft;
using TO = ThresholdCouplingOrders;
namespace { int undetermined; }
extern "C" {
// ---------------------------------------------------------------- stand-ins
double t_yt2(const ThresholdCalculator* t, int lim, int omit) {
   if (undetermined && lim == 0) return NAN;
   Args a; a << double(lim) << double(omit) << t->p.mq2(2,2) << t->p.mu2(2,2) << t->p.MG << t->msq2 << t->p.Au(2,2) << t->p.scale;
   return a("yt2");
}
double t_msq2(const Parameters& p) { return p.md2(0,0); }
void t_set_msq2(Parameters& p, double x) { p.md2(0,0) = x; }
// ----------------------------------------------------------------
void set_msq2(Parameters& p, double x) { p.md2(0,0) *= std::pow(x/p.calculateMsq2(), 10); }
// o = {limit, YT_AS2 in the general mass case afterwards}; f = {general mass case undetermined}
int c_lim(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   undetermined = f[0];
   ThresholdCalculator t(p, false, false);
   o[0] = static_cast<int>(t.getLimit());
   undetermined = 0;
   t.setLimit(Limits::GENERAL);
   o[1] = t.getThresholdCorrection(TO::YT_AS2, RenSchemes::TEST, 1);
   return 0;
}
static double yt2(const Parameters& p, Limits l) {
   ThresholdCalculator t(p, false, true);
   t.setLimit(l);
   return t.getThresholdCorrection(TO::YT_AS2, RenSchemes::TEST, 1);
}
int r_lim(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   undetermined = f[0];
   const double q = std::sqrt(p.mq2(2,2)), u = std::sqrt(p.mu2(2,2)), g = p.MG, s = std::sqrt(p.calculateMsq2());
   const double tol = q*0.01;
   // most specific pattern of masses within 1 percent
   const bool qu = std::abs(q - u) < tol, ug = std::abs(u - g) < tol, gs = std::abs(g - s) < tol, qg = std::abs(q - g) < tol;
   const Limits l = qu && ug && gs ? Limits::DEGENERATE : qu && ug ? Limits::MQ3_EQ_MU3_EQ_M3 : qu ? Limits::MQ3_EQ_MU3 :
      qg ? Limits::MQ3_EQ_M3 : std::abs(u - g) < u*0.01 ? Limits::MU3_EQ_M3 : Limits::GENERAL;
   o[0] = 0;
   if (l != Limits::GENERAL) {
      // is the general mass case reliable there? two-loop threshold correction of the Yukawa coupling
      const double v = std::sqrt(p.vu*p.vu + p.vd*p.vd), x = twoLoop*sqrt2*p.Mt*p.g3*p.g3*p.g3*p.g3/v;
      const double lim = x*yt2(p, l), at = x*yt2(p, Limits::GENERAL);
      Parameters n = p;
      const double half = q + std::abs(u - q)/2;
      n.mu2(2,2) = half*half;
      n.MG = q + std::abs(g - q)/2;
      if (l == Limits::DEGENERATE) { const double m = q + std::abs(s - q)/2; set_msq2(n, m*m); }
      const double beside = x*yt2(n, Limits::GENERAL);
      const bool finite = std::isfinite(at) && std::isfinite(beside), small = !(std::abs(at) > 1) || !(std::abs(beside) > 1);
      if (!(finite && small && std::abs(beside - lim) < std::abs(at - lim))) o[0] = static_cast<int>(l);
   }
   undetermined = 0;
   o[1] = yt2(p, Limits::GENERAL);
   return 0;
}
}
