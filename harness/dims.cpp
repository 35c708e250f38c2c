// loop functions of masses
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/mh2_fo/PV.hpp"
using namespace himalaya;
extern "C" {
// f = {function}
int c_loop(const double* d, const int* f, double* o) {
   switch (f[0]) {
   case 0: o[0] = mh2_eft::threshold_loop_functions::phi_xyz(d[0], d[1], d[2]); break;
   case 1: o[0] = mh2_eft::threshold_loop_functions::delta_xyz(d[0], d[1], d[2]); break;
   case 2: o[0] = mh2_fo::a0(d[0], d[3]); break;
   case 3: o[0] = mh2_fo::b0xx(d[0], d[1], d[3]); break;
   case 4: o[0] = mh2_fo::b0(d[0], d[1], d[2], d[3]); break;
   case 5: o[0] = mh2_fo::d1_b0(d[0], d[1]); break;
   }
   return 0;
}
}
