// fixed-order calculation with prescribed spectra
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "himalaya/misc/Constants.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "par.hpp"
#include "twin.hpp"
#include <array>
#include <iosfwd>
#include <tuple>
#include <Eigen/Core>
#define private public
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#undef private
using namespace himalaya;
using namespace himalaya::mh2_fo;
using CO = CouplingOrders::CouplingOrders;
namespace {
template <class M> const double* rot(M& m, const double* d) { m << d[0], d[1], -d[1], d[0]; return d + 2; }
template <class A> const double* two(A& a, const double* d) { a << d[0], d[1]; return d + 2; }
// checks/fixedorder.py SPEC
void fill(MSSM_spectrum& s, const double* d) {
   s.M2VWm = d[0]; s.M2VZ = d[1]; s.MFt = d[2]; s.MFb = d[3]; s.MFtau = d[4]; s.M2SveL = d[5]; s.M2SvmL = d[6]; s.M2SvtL = d[7]; d += 8;
   d = two(s.M2Su, d); d = two(s.M2Sd, d); d = two(s.M2Sc, d); d = two(s.M2Ss, d); d = two(s.M2St, d); d = two(s.M2Sb, d);
   d = two(s.M2Se, d); d = two(s.M2Sm, d); d = two(s.M2Stau, d); d = two(s.M2hh, d); d = two(s.M2Ah, d); d = two(s.M2Hpm, d);
   s.MChi << d[0], d[1], d[2], d[3]; d += 4; d = two(s.MCha, d);
   d = rot(s.ZU, d); d = rot(s.ZD, d); d = rot(s.ZC, d); d = rot(s.ZS, d); d = rot(s.ZT, d); d = rot(s.ZB, d); d = rot(s.ZE, d);
   d = rot(s.ZM, d); d = rot(s.ZTau, d); d = rot(s.ZH, d); d = rot(s.ZA, d); d = rot(s.ZP, d); d = rot(s.UM, d); d = rot(s.UP, d);
   for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) s.ZN(i,k) = *d++;
}
void out(double* o, const RM22& m) { o[0] = m(0,0); o[1] = m(0,1); o[2] = m(1,0); o[3] = m(1,1); }
}
extern "C" {
// f = {which, value of the flag ONLY_AT_AS}; d: parameters, p^2, spectrum
int c_one(const double* d, const int* f, double* o) {
   Parameters p; fill_par(p, d);
   MSSM_mass_eigenstates me(p);
   fill(me.masses, d + 50); fill(me.gaugeless, d + 50);
   me.orders.at(CO::ONLY_AT_AS) = f[1];
   switch (f[0]) {
   case 0: out(o, me.delta_mh2_1loop(d[49])); break;
   case 1: out(o, me.delta_mh2_1loop_gaugeless()); break;
   case 2: out(o, me.delta_mh2_1loop_gaugeless_deriv()); break;
   }
   return 0;
}
// mass matrices: (0,0), (0,1), (1,0), (1,1) of Su Sd Sc Ss St Sb Se Sm Stau hh Ah Hpm Cha, 16 of Chi, 8 single masses
int c_mass(const double* d, const int*, double* o) {
   Parameters p; fill_par(p, d);
   MSSM_spectrum s(p);
   s.pars = p;
   out(o, s.get_mass_matrix_Su()); o += 4; out(o, s.get_mass_matrix_Sd()); o += 4; out(o, s.get_mass_matrix_Sc()); o += 4;
   out(o, s.get_mass_matrix_Ss()); o += 4; out(o, s.get_mass_matrix_St()); o += 4; out(o, s.get_mass_matrix_Sb()); o += 4;
   out(o, s.get_mass_matrix_Se()); o += 4; out(o, s.get_mass_matrix_Sm()); o += 4; out(o, s.get_mass_matrix_Stau()); o += 4;
   out(o, s.get_mass_matrix_hh()); o += 4; out(o, s.get_mass_matrix_Ah()); o += 4; out(o, s.get_mass_matrix_Hpm()); o += 4;
   out(o, s.get_mass_matrix_Cha()); o += 4;
   const RM44 n = s.get_mass_matrix_Chi();
   for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) *o++ = n(i,k);
   s.calculate_MVWm(); s.calculate_MVZ(); s.calculate_MFt(); s.calculate_MFb(); s.calculate_MFtau();
   s.calculate_MSveL(); s.calculate_MSvmL(); s.calculate_MSvtL();
   *o++ = s.M2VWm; *o++ = s.M2VZ; *o++ = s.MFt; *o++ = s.MFb; *o++ = s.MFtau; *o++ = s.M2SveL; *o++ = s.M2SvmL; *o++ = s.M2SvtL;
   return 0;
}
}
