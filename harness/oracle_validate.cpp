// native values of the oracles of validate.cpp, independent of the eigen solver calls of the code
#include <Eigen/Eigenvalues>
#include <algorithm>
#include <cmath>
extern "C" void oracle_mix(double m00, double m01, double m11, double* o) {
   const double D = m00 - m11, r = std::hypot(D, 2*m01);
   o[0] = (m00 + m11 - r)/2; o[1] = (m00 + m11 + r)/2;
   o[2] = r > 0 ? -2*m01/r : 0; o[3] = r > 0 ? -D/r : 1;
}
extern "C" void oracle_sv(const double* m, double* o) {
   Eigen::Matrix3d M; for (int i = 0; i < 9; i++) M(i/3, i%3) = m[i];
   Eigen::Matrix<double, 6, 6> H; H.setZero();
   H.topRightCorner<3, 3>() = M; H.bottomLeftCorner<3, 3>() = M.transpose();
   const Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> es(H);
   for (int i = 0; i < 3; i++) o[i] = es.eigenvalues()(3 + i);
}
extern "C" void oracle_eig(double, double, double, double, double*) {}   // symbolic runs only
