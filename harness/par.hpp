// flat view of himalaya::Parameters; the order is symx/par.py NAMES
#pragma once
#include "himalaya/Himalaya_interface.hpp"
inline void fill_par(himalaya::Parameters& p, const double* d) {
   int i = 0;
   p.scale = d[i++]; p.mu = d[i++]; p.g1 = d[i++]; p.g2 = d[i++]; p.g3 = d[i++]; p.vd = d[i++]; p.vu = d[i++];
   p.mq2(0,0) = d[i++]; p.mq2(1,1) = d[i++]; p.mq2(2,2) = d[i++];
   p.md2(0,0) = d[i++]; p.md2(1,1) = d[i++]; p.md2(2,2) = d[i++];
   p.mu2(0,0) = d[i++]; p.mu2(1,1) = d[i++]; p.mu2(2,2) = d[i++];
   p.ml2(0,0) = d[i++]; p.ml2(1,1) = d[i++]; p.ml2(2,2) = d[i++];
   p.me2(0,0) = d[i++]; p.me2(1,1) = d[i++]; p.me2(2,2) = d[i++];
   p.Au(2,2) = d[i++]; p.Ad(2,2) = d[i++]; p.Ae(2,2) = d[i++];
   p.Yu(2,2) = d[i++]; p.Yd(2,2) = d[i++]; p.Ye(2,2) = d[i++];
   p.M1 = d[i++]; p.M2 = d[i++]; p.MG = d[i++]; p.MW = d[i++]; p.MZ = d[i++]; p.Mt = d[i++]; p.Mb = d[i++];
   p.Mtau = d[i++]; p.MA = d[i++];
   p.MSt(0) = d[i++]; p.MSt(1) = d[i++]; p.MSb(0) = d[i++]; p.MSb(1) = d[i++]; p.MStau(0) = d[i++]; p.MStau(1) = d[i++];
   p.s2t = d[i++]; p.s2b = d[i++]; p.s2tau = d[i++];
   p.theta_t = d[i++]; p.theta_b = d[i++]; p.theta_tau = d[i++];
}
inline void dump_par(const himalaya::Parameters& p, double* d) {
   int i = 0;
   d[i++] = p.scale; d[i++] = p.mu; d[i++] = p.g1; d[i++] = p.g2; d[i++] = p.g3; d[i++] = p.vd; d[i++] = p.vu;
   d[i++] = p.mq2(0,0); d[i++] = p.mq2(1,1); d[i++] = p.mq2(2,2);
   d[i++] = p.md2(0,0); d[i++] = p.md2(1,1); d[i++] = p.md2(2,2);
   d[i++] = p.mu2(0,0); d[i++] = p.mu2(1,1); d[i++] = p.mu2(2,2);
   d[i++] = p.ml2(0,0); d[i++] = p.ml2(1,1); d[i++] = p.ml2(2,2);
   d[i++] = p.me2(0,0); d[i++] = p.me2(1,1); d[i++] = p.me2(2,2);
   d[i++] = p.Au(2,2); d[i++] = p.Ad(2,2); d[i++] = p.Ae(2,2);
   d[i++] = p.Yu(2,2); d[i++] = p.Yd(2,2); d[i++] = p.Ye(2,2);
   d[i++] = p.M1; d[i++] = p.M2; d[i++] = p.MG; d[i++] = p.MW; d[i++] = p.MZ; d[i++] = p.Mt; d[i++] = p.Mb;
   d[i++] = p.Mtau; d[i++] = p.MA;
   d[i++] = p.MSt(0); d[i++] = p.MSt(1); d[i++] = p.MSb(0); d[i++] = p.MSb(1); d[i++] = p.MStau(0); d[i++] = p.MStau(1);
   d[i++] = p.s2t; d[i++] = p.s2b; d[i++] = p.s2tau;
   d[i++] = p.theta_t; d[i++] = p.theta_b; d[i++] = p.theta_tau;
}
