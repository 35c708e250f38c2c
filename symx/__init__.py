"""symx: a small symbolic executor for LLVM IR (clang -emit-llvm of the real
Himalaya sources) with several term back ends (z3 reals, z3 floating point,
Laurent polynomials, truncated power series, mass dimensions)."""
