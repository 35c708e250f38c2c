extern "C" double uf(const char*, const double*, int) { return 0; }
