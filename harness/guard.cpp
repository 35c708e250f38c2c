// calls of harness entries which survive exceptions
extern "C" int guarded(int (*f)(const double*, const int*, double*), const double* d, const int* i, double* o) {
   try { return f(d, i, o); } catch (...) { return -777; }
}
