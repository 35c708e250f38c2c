// Parameters::validate and calculateMsq2 next to a plain transcription of the documented rules; 3x3 matrices in full
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/misc/Constants.hpp"
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>
#include <cmath>
using himalaya::Parameters; using himalaya::RM33; using himalaya::RM22;
// symbolic runs: handled by checks/validate.py; natively: ufnative_validate.cpp
extern "C" void oracle_mix(double m00, double m01, double m11, double* out);   // m1^2, m2^2, sin 2theta, cos 2theta
extern "C" void oracle_sv(const double* m, double* out);                       // singular values, ascending
static const double* read(RM33& m, const double* d) { for (int i = 0; i < 9; i++) m(i/3, i%3) = *d++; return d; }
static double* write(const RM33& m, double* o) { for (int i = 0; i < 9; i++) *o++ = m(i/3, i%3); return o; }
struct Scal { double scale, mu, g1, g2, g3, vd, vu, M1, M2, MG, MW, MZ, Mt, Mb, Mtau, MA, MS[3][2], s2[3], th[3]; };
static void fill(Parameters& p, const double* d) {
   for (RM33* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2, &p.Au, &p.Ad, &p.Ae, &p.Yu, &p.Yd, &p.Ye}) d = read(*m, d);
   for (double* x : {&p.scale, &p.mu, &p.g1, &p.g2, &p.g3, &p.vd, &p.vu, &p.M1, &p.M2, &p.MG, &p.MW, &p.MZ, &p.Mt, &p.Mb,
                     &p.Mtau, &p.MA, &p.MSt(0), &p.MSt(1), &p.MSb(0), &p.MSb(1), &p.MStau(0), &p.MStau(1),
                     &p.s2t, &p.s2b, &p.s2tau, &p.theta_t, &p.theta_b, &p.theta_tau}) *x = *d++;
}
static void dump(Parameters& p, double* o) {
   for (RM33* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2, &p.Au, &p.Ad, &p.Ae, &p.Yu, &p.Yd, &p.Ye}) o = write(*m, o);
   for (double x : {p.scale, p.mu, p.g1, p.g2, p.g3, p.vd, p.vu, p.M1, p.M2, p.MG, p.MW, p.MZ, p.Mt, p.Mb, p.Mtau, p.MA,
                    p.MSt(0), p.MSt(1), p.MSb(0), p.MSb(1), p.MStau(0), p.MStau(1), p.s2t, p.s2b, p.s2tau}) *o++ = x;
   for (double t : {p.theta_t, p.theta_b, p.theta_tau}) { *o++ = std::sin(2*t); *o++ = std::cos(2*t); }
}
extern "C" {
int c_validate(const double* d, const int*, double* o) {
   Parameters p; fill(p, d);
   try { p.validate(false); } catch (...) { return 1; }
   dump(p, o);
   return 0;
}
int r_validate(const double* d, const int*, double* o) {
   const double eps = 1e-8, pi = 3.14159265358979323846;
   double M[11][9]; Scal s;
   for (int m = 0; m < 11; m++) for (int i = 0; i < 9; i++) M[m][i] = d[9*m + i];
   double* q = &s.scale; for (int i = 0; i < 28; i++) q[i] = d[99 + i];
   for (int m = 0; m < 5; m++) {
      double low = M[m][0];
      for (int i = 1; i < 9; i++) low = M[m][i] < low ? M[m][i] : low;
      if (low < 0) return 1;
   }
   if (s.MG < 0 || std::isnan(s.vu) || s.vu <= 0 || std::isnan(s.vd) || s.vd <= 0) return 1;
   for (int m = 8; m < 11; m++) {
      double sv[3]; oracle_sv(M[m], sv);
      for (int i = 0; i < 9; i++) M[m][i] = i % 4 ? 0 : sv[i/4];
   }
   const double v2 = s.vu*s.vu + s.vd*s.vd, c2b = (s.vd*s.vd - s.vu*s.vu)/v2, tb = s.vu/s.vd;
   if (std::isnan(s.MW)) s.MW = s.g2*std::sqrt(v2)/2;
   if (std::isnan(s.MZ)) s.MZ = std::sqrt((0.6*s.g1*s.g1 + s.g2*s.g2)*v2)/2;
   const double r2 = 1/std::sqrt(2.);
   if (std::isnan(s.Mt)) s.Mt = M[8][8]*s.vu*r2;
   if (std::isnan(s.Mb)) s.Mb = M[9][8]*s.vd*r2;
   if (std::isnan(s.Mtau)) s.Mtau = M[10][8]*s.vd*r2;
   double cw2 = (s.MW/s.MZ)*(s.MW/s.MZ);
   if (!std::isfinite(cw2)) cw2 = 1;
   const double sw2 = 1 - cw2, mf[3] = {s.Mt, s.Mb, s.Mtau};
   const double LL[3] = { M[0][8], M[0][8], M[3][8] }, RR[3] = { M[2][8], M[1][8], M[4][8] }, A[3] = { M[5][8], M[6][8], M[7][8] };
   const double I3[3] = { 0.5, -0.5, -0.5 }, Q[3] = { 2./3, -1./3, -1. };
   double sc[3][2];                                                                  // sin 2theta, cos 2theta
   for (int f = 0; f < 3; f++) {
      if (std::isnan(s.s2[f]) && !std::isnan(s.th[f])) s.s2[f] = std::sin(2*s.th[f]);
      else if (std::isnan(s.th[f]) && !std::isnan(s.s2[f])) s.th[f] = std::asin(s.s2[f])/2;
      if (std::isnan(s.MS[f][0]) || std::isnan(s.MS[f][1]) || std::isnan(s.s2[f]) || std::isnan(s.th[f])) {
         double w[4];
         oracle_mix(LL[f] + mf[f]*mf[f] + (I3[f] - Q[f]*sw2)*s.MZ*s.MZ*c2b,
                    mf[f]*(A[f] - s.mu*(f ? tb : 1/tb)),
                    RR[f] + mf[f]*mf[f] + Q[f]*sw2*s.MZ*s.MZ*c2b, w);
         if (w[0] < 0) return 1;
         s.MS[f][0] = std::sqrt(w[0]); s.MS[f][1] = std::sqrt(w[1]);
         s.s2[f] = sc[f][0] = w[2]; sc[f][1] = w[3];
      } else {
         sc[f][0] = std::sin(2*s.th[f]); sc[f][1] = std::cos(2*s.th[f]);
         if (s.MS[f][0] > s.MS[f][1]) {
            const double t = s.MS[f][0]; s.MS[f][0] = s.MS[f][1]; s.MS[f][1] = t;
            s.s2[f] = -s.s2[f]; sc[f][0] = -sc[f][0]; sc[f][1] = -sc[f][1];
         }
      }
      if (f < 2 && s.MS[f][1] - s.MS[f][0] < eps) s.MS[f][0] = (f ? s.MS[f][0] : s.MS[f][1])/(1 + eps);
   }
   if (std::abs(M[0][8] - M[2][8]) < eps) M[0][8] = M[2][8]/(1 + eps);
   for (int m = 0; m < 11; m++) for (int i = 0; i < 9; i++) *o++ = M[m][i];
   for (int i = 0; i < 25; i++) *o++ = q[i];
   for (int f = 0; f < 3; f++) { *o++ = sc[f][0]; *o++ = sc[f][1]; }
   (void)pi;
   return 0;
}
int c_msq2(const double* d, const int*, double* o) { Parameters p; fill(p, d); o[0] = p.calculateMsq2(); return 0; }
int r_msq2(const double* d, const int*, double* o) {
   Scal s; double* q = &s.scale; for (int i = 0; i < 28; i++) q[i] = d[99 + i];
   const double *mq2 = d, *md2 = d + 9, *mu2 = d + 18;
   const double c2b = (s.vd*s.vd - s.vu*s.vu)/(s.vu*s.vu + s.vd*s.vd);
   double cw2 = (s.MW/s.MZ)*(s.MW/s.MZ);
   if (!std::isfinite(cw2)) cw2 = 1;
   const double D = s.MZ*s.MZ*c2b;
   const double L = mq2[8] + s.Mb*s.Mb + (-0.5 + (1 - cw2)/3)*D, R = md2[8] + s.Mb*s.Mb - (1 - cw2)/3*D;
   o[0] = std::pow(mq2[0]*mq2[0]*mq2[4]*mq2[4]*mu2[0]*mu2[4]*md2[0]*md2[4]*L*R, 0.1);
   return 0;
}
// symbolic stand-in of Eigen's SVD: only singularValues() is defined
void t_svd(Eigen::JacobiSVD<RM33>* self, const RM33& m, unsigned) {
   double a[9], sv[3];
   for (int i = 0; i < 9; i++) a[i] = m(i/3, i%3);
   oracle_sv(a, sv);
   auto& s = const_cast<Eigen::Matrix<double, 3, 1>&>(reinterpret_cast<const Eigen::Matrix<double, 3, 1>&>(self->singularValues()));
   for (int i = 0; i < 3; i++) s(i) = sv[2 - i];
}
}
// symbolic stand-in of Eigen's 2x2 eigen solver in terms of the oracle's eigenvalues and lower eigenvector (c, s): rotation, exchanged
// where the diagonal is not increasing, common sign of both vectors open
extern "C" void oracle_eig(double m00, double m01, double m10, double m11, double* out);   // m00 m01 m11 w0 w1 c s sigma
extern "C" void t_saes(double* self, const RM22& M, int) {
   double w[8]; oracle_eig(M(0,0), M(0,1), M(1,0), M(1,1), w);
   RM22& W = const_cast<RM22&>(M);
   W(0,0) = w[0]; W(0,1) = w[1]; W(1,0) = w[1]; W(1,1) = w[2];
   const double c = w[5], s = w[6];
   double c0, s0, c1, s1;
   if (w[7] > 0) { c0 = c; s0 = s; } else { c0 = -c; s0 = -s; }
   if (c*c > s*s) { c1 = -s0; s1 = c0; } else { c1 = s0; s1 = -c0; }
   self[0] = c0; self[1] = s0; self[2] = c1; self[3] = s1; self[4] = w[3]; self[5] = w[4];
}
