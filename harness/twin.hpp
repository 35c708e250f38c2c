// stand-ins for routines below the property under check: values are uninterpreted functions of everything they may read
#pragma once
#include <vector>
extern "C" double uf(const char* tag, const double* args, int n);   // executor: uninterpreted function
struct Args {
   double v[160]; int n = 0;
   Args& operator<<(double x) { v[n++] = x; return *this; }
   Args& operator<<(const himalaya::Parameters& p) { dump_par(p, v + n); n += 49; return *this; }
   double operator()(const char* tag) { return uf(tag, v, n); }
};
