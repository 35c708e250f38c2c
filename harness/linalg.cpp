// perturbative diagonalisation next to the order-by-order solution of the characteristic equation
#include "himalaya/mh2_fo/Linalg.hpp"
#include <cmath>
using namespace himalaya;
static RM22 sym(const double* d) { RM22 m; m << d[0], d[1], d[1], d[2]; return m; }
extern "C" {
int c_pert(const double* d, const int*, double* o) {
   const auto r = fs_diagonalize_hermitian_perturbatively(sym(d), sym(d + 3), sym(d + 6), sym(d + 9));
   const V2 v[4] = { std::get<0>(r), std::get<1>(r), std::get<2>(r), std::get<3>(r) };
   for (int k = 0; k < 4; k++) { o[2*k] = v[k](0); o[2*k + 1] = v[k](1); }
   return 0;
}
int r_pert(const double* d, const int*, double* o) {
   double T[4], D[4] = {0, 0, 0, 0};
   for (int k = 0; k < 4; k++) {
      T[k] = d[3*k] + d[3*k + 2];
      for (int a = 0; a <= k; a++) D[k] += d[3*a]*d[3*(k - a) + 2] - d[3*a + 1]*d[3*(k - a) + 1];
   }
   const double r = std::sqrt((d[0] - d[2])*(d[0] - d[2]) + 4*d[1]*d[1]);
   for (int e = 0; e < 2; e++) {
      double l[4]; const double s = e ? r : -r;          // 2 l0 - T0
      l[0] = (T[0] + s)/2;
      for (int k = 1; k < 4; k++) {                      // l^2 - T l + D = 0 at order k
         double x = -D[k] + T[k]*l[0];
         for (int a = 1; a < k; a++) x += T[a]*l[k - a] - l[a]*l[k - a];
         l[k] = x/s;
      }
      for (int k = 0; k < 4; k++) o[2*k + e] = l[k];
   }
   return 0;
}
}
