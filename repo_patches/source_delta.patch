From d35188da618996eadb823da45138972b12bb5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 1/5] fix: let the Dmst12 expansion flag control the Dmst12
 truncation in H3, H32q2g, H3q22g, H9, H9q2

---
 source/himalaya/hierarchies/H3.cpp     | 2 +-
 source/himalaya/hierarchies/H32q2g.cpp | 2 +-
 source/himalaya/hierarchies/H3q22g.cpp | 2 +-
 source/himalaya/hierarchies/H9.cpp     | 2 +-
 source/himalaya/hierarchies/H9q2.cpp   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/hierarchies/H3.cpp b/source/himalaya/hierarchies/H3.cpp
index 2c7bfec..602a23e 100644
--- a/source/himalaya/hierarchies/H3.cpp
+++ b/source/himalaya/hierarchies/H3.cpp
@@ -65,7 +65,7 @@ H3::H3 (const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H32q2g.cpp b/source/himalaya/hierarchies/H32q2g.cpp
index fc5bf95..2c32daf 100644
--- a/source/himalaya/hierarchies/H32q2g.cpp
+++ b/source/himalaya/hierarchies/H32q2g.cpp
@@ -62,7 +62,7 @@ H32q2g::H32q2g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H3q22g.cpp b/source/himalaya/hierarchies/H3q22g.cpp
index 66c8f1f..6e2ca59 100644
--- a/source/himalaya/hierarchies/H3q22g.cpp
+++ b/source/himalaya/hierarchies/H3q22g.cpp
@@ -64,7 +64,7 @@ H3q22g::H3q22g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H9.cpp b/source/himalaya/hierarchies/H9.cpp
index 0a6719f..524496f 100644
--- a/source/himalaya/hierarchies/H9.cpp
+++ b/source/himalaya/hierarchies/H9.cpp
@@ -64,7 +64,7 @@ H9::H9(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, double
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
diff --git a/source/himalaya/hierarchies/H9q2.cpp b/source/himalaya/hierarchies/H9q2.cpp
index 748610e..43e78f3 100644
--- a/source/himalaya/hierarchies/H9q2.cpp
+++ b/source/himalaya/hierarchies/H9q2.cpp
@@ -66,7 +66,7 @@ H9q2::H9q2(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, dou
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
-- 
2.43.0


From bc5aee7c9268448b5fd6fa2d8288eea4c9c60386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 2/5] fix: compare the stop mass splitting, not zero, in the
 h9q2 suitability condition

---
 source/himalaya/HierarchyCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..a5f839a 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -433,7 +433,7 @@ bool HierarchyCalculator::isHierarchySuitable(const himalaya::HierarchyObject& h
       case Hierarchies::h9:
          return (Mst2 >= Msq) && ((Mst2 - Mst1) < (Mst1 - Mgl));
       case Hierarchies::h9q2:
-         return (Msq > Mst2) && ((Mst1 - Mst1) < (Mst1 - Mgl));
+         return (Msq > Mst2) && ((Mst2 - Mst1) < (Mst1 - Mgl));
    }
    return false;
 }
-- 
2.43.0


From 60694b269a6b041e19c50e9edc0bc3545ffba47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 3/5] fix: let the Dmst12 expansion flag truncate S12 of H3,
 H32q2g, H3q22g like S1 and S2

---
 source/himalaya/hierarchies/H3.cpp     | 156 ++++++++++++-------------
 source/himalaya/hierarchies/H32q2g.cpp |  90 +++++++-------
 source/himalaya/hierarchies/H3q22g.cpp | 122 +++++++++----------
 3 files changed, 184 insertions(+), 184 deletions(-)

diff --git a/source/himalaya/hierarchies/H3.cpp b/source/himalaya/hierarchies/H3.cpp
index 602a23e..097ef8f 100644
--- a/source/himalaya/hierarchies/H3.cpp
+++ b/source/himalaya/hierarchies/H3.cpp
@@ -776,13 +776,13 @@ double H3::getS2() const {
  */
 double H3::getS12() const {
    return -(MuSUSY*(Mt*(1984500*Dmst12*oneLoopFlag*s2t*pow2(Mst1)*pow3(Mgl)*pow4(
-        Msq)*(-2*Dmst12*Mt*(MuSUSY*s2t + 6*Mt*Tbeta)*pow2(Mst2) + pow2(Dmst12)*
+        Msq)*(-2*Dmst12*Mt*(MuSUSY*s2t + 6*Mt*Tbeta)*pow2(Mst2) + xDmst12*pow2(Dmst12)*
         (2*Mt*MuSUSY*s2t + 8*Tbeta*pow2(Mt) - Tbeta*pow2(Mst1)*pow2(s2t)) + 24*
         Tbeta*pow2(Mt)*pow4(Mst2)) + 8*Al4p*xDmglst1*pow2(Msq)*pow3(Dmglst1)*(
         17640*Mst1*twoLoopFlag*pow2(Msq)*(Mt*pow2(Dmst12)*pow2(Mst2)*(80*Mt*
         s2t*(13*MuSUSY - 18*Mst1*Tbeta) + 8*(-476 + 90*lmMst1 - 15*lmMt)*Tbeta*
         pow2(Mt) + 5*Mst1*(20*(-13 + 12*lmMst1)*MuSUSY + 3*(-77 + 30*lmMst1)*
-        Mst1*Tbeta)*pow2(s2t)) + pow3(Dmst12)*(-60*s2t*((9 + 10*lmMst1)*MuSUSY
+        Mst1*Tbeta)*pow2(s2t)) + xDmst12*pow3(Dmst12)*(-60*s2t*((9 + 10*lmMst1)*MuSUSY
         + 2*(47 - 60*lmMst1)*Mst1*Tbeta)*pow2(Mt) - 5*Mst1*Mt*(40*(-13 + 12*
         lmMst1)*MuSUSY + 9*(-43 + 10*lmMst1)*Mst1*Tbeta)*pow2(s2t) + 2*(1577 +
         270*lmMst1 + 30*lmMt)*Tbeta*pow3(Mt) + 50*(-13 + 12*lmMst1)*Tbeta*pow3(
@@ -797,36 +797,36 @@ double H3::getS12() const {
         Dmsqst1*Mst1*Mt*s2t + pow2(Msq)*(2*Mst1*Mt*s2t*(37824007 + 770520*
         lmMst1 - 131400*pow2(lmMst1)) + (59957863 + 480000*lmMst1 - 26880*lmMt
         - 230400*pow2(lmMst1))*pow2(Mt) + 15*(-3044017 - 27472*lmMst1 + 48480*
-        pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))*pow3(Dmst12) + Dmst12*Mt*(30000*
+        pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))*xDmst12*pow3(Dmst12) + Dmst12*Mt*(30000*
         Dmsqst1*Mst1*s2t + (4*Mst1*s2t*(31025111 + 290880*lmMst1 - 251100*pow2(
         lmMst1)) + Mt*(59957863 + 480000*lmMst1 - 26880*lmMt - 230400*pow2(
         lmMst1)))*pow2(Msq))*pow4(Mst2)) + 24*(3877891 + 46400*lmMst1 - 960*
         lmMt - 19200*pow2(lmMst1))*pow2(Msq)*pow2(Mt)*pow6(Mst2)) - Mst1*Tbeta*
-        (735*Mt*pow2(Dmst12)*pow2(Mst1)*(30000*Dmsqst1*(2*Dmst12 - pow2(Mst2))
-        + pow2(Msq)*(Dmst12*(223974673 + 2515800*lmMst1 - 1638000*pow2(lmMst1))
+        (735*Mt*pow2(Dmst12)*pow2(Mst1)*(30000*Dmsqst1*(2*xDmst12*Dmst12 - pow2(Mst2))
+        + pow2(Msq)*(xDmst12*Dmst12*(223974673 + 2515800*lmMst1 - 1638000*pow2(lmMst1))
         + 4*(-31025111 - 290880*lmMst1 + 251100*pow2(lmMst1))*pow2(Mst2)))*
         pow2(s2t) + 3675*(-3044017 - 27472*lmMst1 + 48480*pow2(lmMst1))*pow2(
-        Msq)*pow3(Dmst12)*pow3(Mst1)*pow3(s2t) + 29400*Dmst12*Mst1*s2t*pow2(Mt)
-        *(29280*Dmsqst1*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(
-        Msq)*(4*pow2(Dmst12)*(-580211 - 498*lmMst1 - 528*lmMt + 21060*pow2(
+        Msq)*xDmst12*pow3(Dmst12)*pow3(Mst1)*pow3(s2t) + 29400*Dmst12*Mst1*s2t*pow2(Mt)
+        *(29280*Dmsqst1*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(
+        Msq)*(4*xDmst12*pow2(Dmst12)*(-580211 - 498*lmMst1 - 528*lmMt + 21060*pow2(
         lmMst1)) + Dmst12*(611423 - 9984*lmMst1 + 768*lmMt - 23040*pow2(lmMst1)
         )*pow2(Mst2) + 2*(548999 + 10980*lmMst1 + 288*lmMt - 19080*pow2(lmMst1)
         )*pow4(Mst2))) + 4*pow3(Mt)*(11760*Dmsqst1*(5*Dmst12*(557 + 120*lmMst1
-        - 120*lmMt)*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 6*(-463 +
+        - 120*lmMt)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 6*(-463 +
         135*lmMst1 - 135*lmMt)*pow6(Mst2)) + pow2(Msq)*(-15*pow2(Dmst12)*(
         5753390765 + 580*lmMst1*(79969 - 1932*lmMt) + 7091364*lmMt - 35700000*
         pow2(lmMst1) - 282240*pow2(lmMt))*pow2(Mst2) + 8*(9144246058 +
         12254445*lmMt + 90*lmMst1*(1109907 + 18305*lmMt) - 48239100*pow2(
-        lmMst1) - 264600*pow2(lmMt))*pow3(Dmst12) + 2*Dmst12*(49723877243 + 60*
+        lmMst1) - 264600*pow2(lmMt))*xDmst12*pow3(Dmst12) + 2*Dmst12*(49723877243 + 60*
         lmMst1*(4936063 - 389970*lmMt) + 57352680*lmMt - 342543600*pow2(lmMst1)
         - 3175200*pow2(lmMt))*pow4(Mst2) + 392*(122282257 + 60*lmMst1*(8318 -
         3885*lmMt) + 479550*lmMt - 1351800*pow2(lmMst1) - 21600*pow2(lmMt))*
         pow6(Mst2))))))) + 1470*Al4p*Mgl*pow2(Msq)*(48*Mst1*Mt*twoLoopFlag*
-        pow2(Msq)*(-25*s2t*pow3(Dmst12)*(8*MuSUSY*(Dmglst1*(-5 + 6*lmMst1)*Mgl
+        pow2(Msq)*(-25*s2t*xDmst12*pow3(Dmst12)*(8*MuSUSY*(Dmglst1*(-5 + 6*lmMst1)*Mgl
         + (1 + 6*lmMst1)*pow2(Dmglst1) + (5 + 6*lmMst1)*pow2(Mgl))*pow2(Mt) +
         Tbeta*(8*Dmglst1*(1 - 3*lmMst1)*Mgl + 6*(5 - 6*lmMst1)*pow2(Dmglst1) +
         3*pow2(Mgl))*pow2(s2t)*pow3(Mst1)) + Mt*(50*Dmst12*MuSUSY*s2t*(Mst1*
-        s2t*pow2(Dmst12)*(16*Dmglst1*(1 - 3*lmMst1)*Mgl + (60 - 72*lmMst1)*
+        s2t*xDmst12*pow2(Dmst12)*(16*Dmglst1*(1 - 3*lmMst1)*Mgl + (60 - 72*lmMst1)*
         pow2(Dmglst1) + (1 + 6*lmMst1)*pow2(Mgl)) + 4*Dmst12*Mt*(6*pow2(
         Dmglst1) + pow2(Mgl))*pow2(Mst2) - Dmst12*Mst1*s2t*(8*Dmglst1*(1 - 3*
         lmMst1)*Mgl + 6*(5 - 6*lmMst1)*pow2(Dmglst1) + 3*pow2(Mgl))*pow2(Mst2)
@@ -835,17 +835,17 @@ double H3::getS12() const {
         pow2(Dmst12)*pow2(Mst2)*(70*Mst1*Mt*s2t + 8*(92 - 30*lmMst1 + 5*lmMt)*
         pow2(Mt) + 25*(11 - 6*lmMst1)*pow2(Mst1)*pow2(s2t))) + (40*(-29 + 45*
         lmMst1)*Mst1*Mt*s2t + 2*(259 + 90*lmMst1 + 10*lmMt)*pow2(Mt) + 25*(17 -
-        6*lmMst1)*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) + 2*Dmst12*Mt*((477 - 330*
+        6*lmMst1)*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) + 2*Dmst12*Mt*((477 - 330*
         lmMst1 + 30*lmMt)*Mt + 50*(13 - 18*lmMst1)*Mst1*s2t)*pow4(Mst2) + 400*(
         4 - 3*lmMst1)*pow2(Mt)*pow6(Mst2)) - 25*pow2(Mgl)*(-(pow2(Dmst12)*pow2(
         Mst2)*(24*(1 - 3*lmMst1)*Mst1*Mt*s2t + 2*(5 + 6*lmMst1 + 6*lmMt)*pow2(
         Mt) + 9*(1 + 2*lmMst1)*pow2(Mst1)*pow2(s2t))) + (-48*(-1 + lmMst1)*
         Mst1*Mt*s2t - 4*(5 + 6*lmMst1)*pow2(Mt) + 6*(1 + 3*lmMst1)*pow2(Mst1)*
-        pow2(s2t))*pow3(Dmst12) + 4*Dmst12*Mt*(2*(5 + 6*lmMst1 + 3*lmMt)*Mt -
+        pow2(s2t))*xDmst12*pow3(Dmst12) + 4*Dmst12*Mt*(2*(5 + 6*lmMst1 + 3*lmMt)*Mt -
         9*(1 + 2*lmMst1)*Mst1*s2t)*pow4(Mst2) + 72*(1 + lmMst1 + lmMt)*pow2(Mt)
         *pow6(Mst2)) + Dmglst1*Mgl*(-3*pow2(Dmst12)*(pow2(Mst2)*(100*Mst1*Mt*
         s2t - 2*(-41 + 90*lmMst1 + 10*lmMt)*pow2(Mt) + 25*(5 - 6*lmMst1)*pow2(
-        Mst1)*pow2(s2t)) + Dmst12*(-1200*lmMst1*Mst1*Mt*s2t + 8*(17 - 30*lmMst1
+        Mst1)*pow2(s2t)) + xDmst12*Dmst12*(-1200*lmMst1*Mst1*Mt*s2t + 8*(17 - 30*lmMst1
         + 5*lmMt)*pow2(Mt) + 25*(-5 + 6*lmMst1)*pow2(Mst1)*pow2(s2t))) + 300*
         Dmst12*Mt*((3 - 6*lmMst1)*Mt + 2*(1 - 6*lmMst1)*Mst1*s2t)*pow4(Mst2) -
         200*(-7 + 15*lmMst1 + 3*lmMt)*pow2(Mt)*pow6(Mst2))))) + Al4p*
@@ -857,7 +857,7 @@ double H3::getS12() const {
         s2t + pow2(Msq)*(100*Mst1*Mt*s2t*(-32829 + 1852*lmMst1 + 660*pow2(
         lmMst1)) + 3*(3891491 + 27200*lmMst1 - 960*lmMt - 19200*pow2(lmMst1))*
         pow2(Mt) + 5*(-1732531 - 16896*lmMst1 + 24840*pow2(lmMst1))*pow2(Mst1)*
-        pow2(s2t)))*pow3(Dmst12) + Dmst12*Mt*(10000*Dmsqst1*Mst1*s2t + (3*Mt*(
+        pow2(s2t)))*xDmst12*pow3(Dmst12) + Dmst12*Mt*(10000*Dmsqst1*Mst1*s2t + (3*Mt*(
         3891491 + 27200*lmMst1 - 960*lmMt - 19200*pow2(lmMst1)) + 10*Mst1*s2t*(
         1286791 + 5936*lmMst1 - 18120*pow2(lmMst1)))*pow2(Msq))*pow4(Mst2)) +
         100*(345581 + 4896*lmMst1 + 96*lmMt - 3456*pow2(lmMst1))*pow2(Msq)*
@@ -868,7 +868,7 @@ double H3::getS12() const {
         pow2(Mst1)*pow2(s2t)))) + 2*(6000*Dmsqst1*Mst1*Mt*s2t + pow2(Msq)*(6*
         Mst1*Mt*s2t*(-1282471 + 7264*lmMst1 + 18120*pow2(lmMst1)) + 5*(403559 +
         384*(lmMst1 + lmMt) - 4608*pow2(lmMst1))*pow2(Mt) + 15*(-84209 - 1264*
-        lmMst1 + 240*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))*pow3(Dmst12) + 10*
+        lmMst1 + 240*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))*xDmst12*pow3(Dmst12) + 10*
         Dmst12*Mt*(1200*Dmsqst1*Mst1*s2t + (Mt*(403559 + 384*(lmMst1 + lmMt) -
         4608*pow2(lmMst1)) - 12*Mst1*s2t*(-33261 + 532*lmMst1 + 660*pow2(
         lmMst1)))*pow2(Msq))*pow4(Mst2) + 240*(9631 + 16*lmMst1 + 48*lmMt -
@@ -885,73 +885,73 @@ double H3::getS12() const {
         5120*lmMt + 24576*pow2(lmMst1))*pow2(Mt) + (350605 + 4320*shiftst1 +
         2880*shiftst2 + 8352*shiftst3 - 96*lmMst1*(-115 + 90*shiftst1 + 60*
         shiftst2 + 54*shiftst3) - 2160*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))*
-        pow3(Dmst12) + 160*Dmst12*(60*Dmsqst1*Mst1*s2t*(14*Mt + 3*(3 - 2*
+        xDmst12*pow3(Dmst12) + 160*Dmst12*(60*Dmsqst1*Mst1*s2t*(14*Mt + 3*(3 - 2*
         lmMst1)*Mst1*s2t*(shiftst1 - shiftst2)) + pow2(Msq)*(4*Mst1*Mt*s2t*(
         1361 + 10*lmMst1 + 54*pow2(lmMst1)) + (11389 - 704*lmMst1 + 192*lmMt -
         384*pow2(lmMst1))*pow2(Mt) + 18*(1 - 2*lmMst1)*(10*shiftst1 - 10*
         shiftst2 + shiftst3)*pow2(Mst1)*pow2(s2t)))*pow4(Mst2) + 1920*(349 -
         56*lmMst1 + 24*lmMt - 32*pow2(lmMst1))*pow2(Msq)*pow2(Mt)*pow6(Mst2))))
         /3. - 4*Mst1*Tbeta*(15*Dmst12*Mst1*s2t*pow2(Mt)*(Dmst12*Mst1*s2t*(5*
-        pow2(Mgl)*(1680*Dmsqst1*(2*Dmst12 - pow2(Mst2)) + pow2(Msq)*(Dmst12*(-
+        pow2(Mgl)*(1680*Dmsqst1*(2*xDmst12*Dmst12 - pow2(Mst2)) + pow2(Msq)*(xDmst12*Dmst12*(-
         20531 + 200*lmMst1 + 1200*pow2(lmMst1)) - 8*(1361 + 10*lmMst1 + 54*
-        pow2(lmMst1))*pow2(Mst2))) + Dmglst1*Mgl*(2000*Dmsqst1*(2*Dmst12 -
-        pow2(Mst2)) - pow2(Msq)*(Dmst12*(284641 + 8696*lmMst1 + 1680*pow2(
+        pow2(lmMst1))*pow2(Mst2))) + Dmglst1*Mgl*(2000*Dmsqst1*(2*xDmst12*Dmst12 -
+        pow2(Mst2)) - pow2(Msq)*(xDmst12*Dmst12*(284641 + 8696*lmMst1 + 1680*pow2(
         lmMst1)) - 20*(-33261 + 532*lmMst1 + 660*pow2(lmMst1))*pow2(Mst2))) +
-        pow2(Dmglst1)*(2000*Dmsqst1*(2*Dmst12 - pow2(Mst2)) + pow2(Msq)*(
-        Dmst12*(3532083 + 36328*lmMst1 - 47760*pow2(lmMst1)) + 2*(-1286791 -
+        pow2(Dmglst1)*(2000*Dmsqst1*(2*xDmst12*Dmst12 - pow2(Mst2)) + pow2(Msq)*(
+        xDmst12*Dmst12*(3532083 + 36328*lmMst1 - 47760*pow2(lmMst1)) + 2*(-1286791 -
         5936*lmMst1 + 18120*pow2(lmMst1))*pow2(Mst2)))) + Mt*(pow2(Mgl)*(100*
-        Dmsqst1*((346 + 288*lmMst1)*pow2(Dmst12) - 161*Dmst12*pow2(Mst2) - 24*(
-        1 + 12*lmMst1)*pow4(Mst2)) + pow2(Msq)*(pow2(Dmst12)*(102747 + 10592*
+        Dmsqst1*((346 + 288*lmMst1)*xDmst12*pow2(Dmst12) - 161*Dmst12*pow2(Mst2) - 24*(
+        1 + 12*lmMst1)*pow4(Mst2)) + pow2(Msq)*(xDmst12*pow2(Dmst12)*(102747 + 10592*
         lmMst1 - 640*lmMt - 13888*pow2(lmMst1)) + 20*Dmst12*(-2071 - 296*lmMst1
         + 96*lmMt + 600*pow2(lmMst1))*pow2(Mst2) - 160*(631 - lmMst1 + 36*lmMt
-        + 21*pow2(lmMst1))*pow4(Mst2))) + 4*pow2(Dmglst1)*(19160*Dmsqst1*(pow2(
-        Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(Msq)*(8*pow2(Dmst12)*(
+        + 21*pow2(lmMst1))*pow4(Mst2))) + 4*pow2(Dmglst1)*(19160*Dmsqst1*(xDmst12*pow2(
+        Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(Msq)*(8*xDmst12*pow2(Dmst12)*(
         -143196 - 2546*lmMst1 - 92*lmMt + 4785*pow2(lmMst1)) + Dmst12*(586073 +
         9268*lmMst1 + 448*lmMt - 19200*pow2(lmMst1))*pow2(Mst2) + 2*(-13289 +
         916*lmMst1 - 80*lmMt + 60*pow2(lmMst1))*pow4(Mst2))) + 16*Dmglst1*Mgl*(
-        4700*Dmsqst1*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(
-        Msq)*(pow2(Dmst12)*(-12383 - 4128*lmMst1 - 80*lmMt + 1260*pow2(lmMst1))
+        4700*Dmsqst1*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(
+        Msq)*(xDmst12*pow2(Dmst12)*(-12383 - 4128*lmMst1 - 80*lmMt + 1260*pow2(lmMst1))
         + Dmst12*(17539 + 574*lmMst1 + 160*lmMt - 1920*pow2(lmMst1))*pow2(Mst2)
         + 5*(-4539 + 596*lmMst1 - 48*lmMt + 516*pow2(lmMst1))*pow4(Mst2))))) +
         900*Mst1*Mt*s2t*pow2(Mgl)*(-10*shiftst2*pow2(Dmst12)*(Dmsqst1*(3 - 2*
-        lmMst1) + (1 - 2*lmMst1)*pow2(Msq))*pow2(Mst1)*(2*Dmst12 - 3*pow2(Mst2)
-        )*pow2(s2t) + shiftst3*pow2(Dmst12)*pow2(Msq)*pow2(Mst1)*(Dmst12*(13 -
+        lmMst1) + (1 - 2*lmMst1)*pow2(Msq))*pow2(Mst1)*(2*xDmst12*Dmst12 - 3*pow2(Mst2)
+        )*pow2(s2t) + shiftst3*pow2(Dmst12)*pow2(Msq)*pow2(Mst1)*(xDmst12*Dmst12*(13 -
         14*lmMst1) + 3*(-1 + 2*lmMst1)*pow2(Mst2))*pow2(s2t) - 240*shiftst2*
         pow2(Mt)*((1 - 2*lmMst1)*pow2(Msq)*(Dmst12 + pow2(Mst2))*pow4(Mst2) +
-        Dmsqst1*(-3 + 2*lmMst1)*(pow3(Dmst12) - Dmst12*pow4(Mst2) - pow6(Mst2))
+        Dmsqst1*(-3 + 2*lmMst1)*(xDmst12*pow3(Dmst12) - Dmst12*pow4(Mst2) - pow6(Mst2))
         ) - 8*shiftst3*pow2(Msq)*pow2(Mt)*(6*(-2 + lmMst1)*pow2(Dmst12)*pow2(
-        Mst2) + (14 - 6*lmMst1)*pow3(Dmst12) + 3*Dmst12*(3 - 2*lmMst1)*pow4(
+        Mst2) + (14 - 6*lmMst1)*xDmst12*pow3(Dmst12) + 3*Dmst12*(3 - 2*lmMst1)*pow4(
         Mst2) + 3*(-1 + 2*lmMst1)*pow6(Mst2))) + Mt*(50*(30*Dmsqst1*(7 + 24*
         lmMst1)*pow2(Mgl) - ((pow2(Dmglst1)*(1732531 + 16896*lmMst1 - 24840*
         pow2(lmMst1)) + 5*Dmglst1*Mgl*(84209 + 1264*lmMst1 - 240*pow2(lmMst1))
         + 10*(1429 - 454*lmMst1 + 24*pow2(lmMst1))*pow2(Mgl))*pow2(Msq))/10.)*
-        pow3(Dmst12)*pow3(Mst1)*pow3(s2t) + 9000*Mst1*s2t*shiftst1*pow2(Mgl)*(
+        xDmst12*pow3(Dmst12)*pow3(Mst1)*pow3(s2t) + 9000*Mst1*s2t*shiftst1*pow2(Mgl)*(
         Dmsqst1*(3 - 2*lmMst1) + (1 - 2*lmMst1)*pow2(Msq))*(pow2(Dmst12)*pow2(
-        Mst1)*(4*Dmst12 - 3*pow2(Mst2))*pow2(s2t) + 24*pow2(Mt)*pow6(Mst2))) +
+        Mst1)*(4*xDmst12*Dmst12 - 3*pow2(Mst2))*pow2(s2t) + 24*pow2(Mt)*pow6(Mst2))) +
         (2*pow4(Mt)*(2*Dmglst1*(1200*Dmglst1*Dmsqst1*(Dmst12*(557 + 120*lmMst1
-        - 120*lmMt)*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 16*(4 +
+        - 120*lmMt)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 16*(4 +
         15*lmMst1 - 15*lmMt)*pow6(Mst2)) + 1200*Dmsqst1*Mgl*(Dmst12*(557 + 120*
-        lmMst1 - 120*lmMt)*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) +
+        lmMst1 - 120*lmMt)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) +
         50*(26 + 3*lmMst1 - 3*lmMt)*pow6(Mst2)) + Dmglst1*pow2(Msq)*(3*pow2(
         Dmst12)*(-129193181 - 401100*lmMt + 100*lmMst1*(-7351 + 1164*lmMt) +
         1336800*pow2(lmMst1) + 28800*pow2(lmMt))*pow2(Mst2) + 4*(29818901 +
         258300*lmMt + 30*lmMst1*(35963 + 2190*lmMt) - 239400*pow2(lmMst1) -
-        10800*pow2(lmMt))*pow3(Dmst12) + 2*Dmst12*(327941741 + 1080*lmMst1*(44
+        10800*pow2(lmMt))*xDmst12*pow3(Dmst12) + 2*Dmst12*(327941741 + 1080*lmMst1*(44
         - 445*lmMt) + 686700*lmMt - 3531600*pow2(lmMst1) - 64800*pow2(lmMt))*
         pow4(Mst2) + 80*(3777727 + 24255*lmMt - 486*lmMst1*(118 + 45*lmMt) -
         52380*pow2(lmMst1))*pow6(Mst2)) - Mgl*pow2(Msq)*(3*pow2(Dmst12)*(-
         39474953 + lmMst1*(52780 - 87600*lmMt) - 3300*lmMt + 319200*pow2(
         lmMst1) + 14400*pow2(lmMt))*pow2(Mst2) - 2*(-193364399 - 90000*lmMt +
         300*lmMst1*(3781 + 582*lmMt) + 2005200*pow2(lmMst1) + 43200*pow2(lmMt))
-        *pow3(Dmst12) + 40*Dmst12*(-3746977 - 4005*lmMt + 18*lmMst1*(2711 +
+        *xDmst12*pow3(Dmst12) + 40*Dmst12*(-3746977 - 4005*lmMt + 18*lmMst1*(2711 +
         1215*lmMt) + 52380*pow2(lmMst1))*pow4(Mst2) - 6000*(9961 + 66*lmMt -
         10*lmMst1*(67 + 24*lmMt) + 42*pow2(lmMst1) + 72*pow2(lmMt))*pow6(Mst2))
-        ) + 15*pow2(Mgl)*(4000*Dmsqst1*(Dmst12*(65 - 6*lmMst1 + 6*lmMt)*(pow2(
+        ) + 15*pow2(Mgl)*(4000*Dmsqst1*(Dmst12*(65 - 6*lmMst1 + 6*lmMt)*(xDmst12*pow2(
         Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 6*(20 - 3*lmMst1 + 3*lmMt)*
         pow6(Mst2)) - pow2(Msq)*(pow2(Dmst12)*(-2284899 + 49840*lmMt - 32*
         lmMst1*(-1793 + 555*lmMt) + 87360*pow2(lmMst1) + 28800*pow2(lmMt))*
         pow2(Mst2) - 2*(-3454599 + 16840*lmMt + 48*lmMst1*(262 + 405*lmMt) +
-        46560*pow2(lmMst1))*pow3(Dmst12) - 200*Dmst12*(11697 + 448*lmMst1 +
+        46560*pow2(lmMst1))*xDmst12*pow3(Dmst12) - 200*Dmst12*(11697 + 448*lmMst1 +
         330*lmMt - 372*lmMst1*lmMt + 408*pow2(lmMst1) + 288*pow2(lmMt))*pow4(
         Mst2) - 1600*(434 - 83*lmMst1 + 174*lmMt - 66*lmMst1*lmMt + 183*pow2(
         lmMst1) + 108*pow2(lmMt))*pow6(Mst2)))))/15.))) + 735*threeLoopFlag*
@@ -959,91 +959,91 @@ double H3::getS12() const {
         Dmsqst1)*(s2t*pow2(Dmst12)*(2*Mt*MuSUSY*(shiftst1 + shiftst2) + 3*s2t*(
         -shiftst1 + shiftst2)*Tbeta*pow2(Mst1))*pow2(Mst2) + (-8*Mt*MuSUSY*s2t*
         shiftst2 + 24*shiftst2*Tbeta*pow2(Mt) + 2*(2*shiftst1 - shiftst2)*
-        Tbeta*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) - 4*Dmst12*Mt*(MuSUSY*s2t*(
+        Tbeta*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) - 4*Dmst12*Mt*(MuSUSY*s2t*(
         shiftst1 - shiftst2) + 6*Mt*shiftst2*Tbeta)*pow4(Mst2) + 24*(shiftst1 -
         shiftst2)*Tbeta*pow2(Mt)*pow6(Mst2)) + pow2(Msq)*(2*Dmst12*MuSUSY*pow2(
-        Mt)*pow2(s2t)*(2*pow2(Dmst12)*(100*Dmsqst1*shiftst2 + (15*shiftst1 +
+        Mt)*pow2(s2t)*(2*xDmst12*pow2(Dmst12)*(100*Dmsqst1*shiftst2 + (15*shiftst1 +
         10*shiftst2 + 9*shiftst3)*pow2(Msq)) - 5*Dmst12*(10*Dmsqst1*(shiftst1 +
         shiftst2) + (10*(shiftst1 + shiftst2) + 3*shiftst3)*pow2(Msq))*pow2(
         Mst2) + 10*(10*Dmsqst1*(shiftst1 - shiftst2) + (10*shiftst1 - 10*
         shiftst2 + shiftst3)*pow2(Msq))*pow4(Mst2)) + 5*shiftst3*Tbeta*pow2(
-        Msq)*(-(Mt*pow2(Dmst12)*pow2(Mst1)*(7*Dmst12 - 3*pow2(Mst2))*pow3(s2t))
-        + 24*s2t*pow3(Mt)*(-(pow2(Dmst12)*pow2(Mst2)) + pow3(Dmst12) + Dmst12*
+        Msq)*(-(Mt*pow2(Dmst12)*pow2(Mst1)*(7*xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t))
+        + 24*s2t*pow3(Mt)*(-(pow2(Dmst12)*pow2(Mst2)) + xDmst12*pow3(Dmst12) + Dmst12*
         pow4(Mst2) - pow6(Mst2))) - 50*Tbeta*(shiftst2*(-(Mt*pow2(Dmst12)*(
-        Dmsqst1 + pow2(Msq))*pow2(Mst1)*(2*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) +
-        24*s2t*pow3(Mt)*(Dmsqst1*pow3(Dmst12) - (Dmsqst1 + pow2(Msq))*(Dmst12 +
+        Dmsqst1 + pow2(Msq))*pow2(Mst1)*(2*xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) +
+        24*s2t*pow3(Mt)*(Dmsqst1*xDmst12*pow3(Dmst12) - (Dmsqst1 + pow2(Msq))*(Dmst12 +
         pow2(Mst2))*pow4(Mst2))) + shiftst1*(Dmsqst1 + pow2(Msq))*(Mt*pow2(
-        Dmst12)*pow2(Mst1)*(4*Dmst12 - 3*pow2(Mst2))*pow3(s2t) + 24*s2t*pow3(
+        Dmst12)*pow2(Mst1)*(4*xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t) + 24*s2t*pow3(
         Mt)*pow6(Mst2))))) + 32*Mst1*xDmsqst1*pow2(Dmsqst1)*(4*xDmglst1*pow2(
-        Mt)*pow3(Dmglst1)*(2500*Dmst12*Mt*MuSUSY*s2t*(pow2(Dmst12) - Dmst12*
+        Mt)*pow3(Dmglst1)*(2500*Dmst12*Mt*MuSUSY*s2t*(xDmst12*pow2(Dmst12) - Dmst12*
         pow2(Mst2) + pow4(Mst2)) - Tbeta*(1875*pow2(Dmst12)*pow2(Mst1)*(2*
-        Dmst12 - pow2(Mst2))*pow2(s2t) + 73200*Dmst12*Mst1*Mt*s2t*(pow2(Dmst12)
+        xDmst12*Dmst12 - pow2(Mst2))*pow2(s2t) + 73200*Dmst12*Mst1*Mt*s2t*(xDmst12*pow2(Dmst12)
         - Dmst12*pow2(Mst2) + pow4(Mst2)) + 4*pow2(Mt)*(5*Dmst12*(557 + 120*
-        lmMst1 - 120*lmMt)*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + (-
+        lmMst1 - 120*lmMt)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + (-
         3778 + 435*lmMst1 - 435*lmMt)*pow6(Mst2)))) + Mgl*(250*Dmst12*MuSUSY*
-        s2t*pow2(Mt)*(40*Dmglst1*(Dmglst1 + Mgl)*Mt*(pow2(Dmst12) - Dmst12*
+        s2t*pow2(Mt)*(40*Dmglst1*(Dmglst1 + Mgl)*Mt*(xDmst12*pow2(Dmst12) - Dmst12*
         pow2(Mst2) + pow4(Mst2)) + 3*pow2(Mgl)*(2*(28*Mt + Mst1*s2t*(7 + 6*
-        shiftst1 - 24*lmMst1*(-1 + shiftst2) + 30*shiftst2))*pow2(Dmst12) -
+        shiftst1 - 24*lmMst1*(-1 + shiftst2) + 30*shiftst2))*xDmst12*pow2(Dmst12) -
         Dmst12*(56*Mt + Mst1*s2t*(7 + 30*shiftst1 + 6*shiftst2 - 12*lmMst1*(-2
         + shiftst1 + shiftst2)))*pow2(Mst2) + 8*(7*Mt - 3*(-2 + lmMst1)*Mst1*
         s2t*(shiftst1 - shiftst2))*pow4(Mst2))) - 25*Tbeta*(60*pow2(Dmst12)*(5*
-        Dmglst1*Mgl + 5*pow2(Dmglst1) + 21*pow2(Mgl))*pow2(Mst1)*(2*Dmst12 -
+        Dmglst1*Mgl + 5*pow2(Dmglst1) + 21*pow2(Mgl))*pow2(Mst1)*(2*xDmst12*Dmst12 -
         pow2(Mst2))*pow2(Mt)*pow2(s2t) + 3*Dmst12*Mst1*s2t*pow3(Mt)*(8*Dmglst1*
-        (479*Dmglst1 + 470*Mgl)*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2))
-        + 5*pow2(Mgl)*(3*(47 + 96*lmMst1)*pow2(Dmst12) + 44*Dmst12*pow2(Mst2) -
+        (479*Dmglst1 + 470*Mgl)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2))
+        + 5*pow2(Mgl)*(3*(47 + 96*lmMst1)*xDmst12*pow2(Dmst12) + 44*Dmst12*pow2(Mst2) -
         (229 + 288*lmMst1)*pow4(Mst2))) + 15*Mst1*Mt*s2t*pow2(Mgl)*(36*pow2(
         Dmst12)*pow2(Mst2)*(4*shiftst2*pow2(Mt) + (-2 + lmMst1)*(shiftst1 -
         shiftst2)*pow2(Mst1)*pow2(s2t)) + (-288*(-1 + lmMst1)*shiftst2*pow2(Mt)
         + (7 + 108*shiftst1 - 72*shiftst2 + 24*lmMst1*(1 - 2*shiftst1 +
-        shiftst2))*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) + 288*Dmst12*(-2 +
+        shiftst2))*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) + 288*Dmst12*(-2 +
         lmMst1)*shiftst2*pow2(Mt)*pow4(Mst2) - 288*(-2 + lmMst1)*(shiftst1 -
         shiftst2)*pow2(Mt)*pow6(Mst2)) + (16*pow4(Mt)*(pow2(Dmglst1)*(Dmst12*(
-        557 + 120*lmMst1 - 120*lmMt)*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(
+        557 + 120*lmMst1 - 120*lmMt)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(
         Mst2)) + (-136 + 165*lmMst1 - 165*lmMt)*pow6(Mst2)) + Dmglst1*Mgl*(
-        Dmst12*(557 + 120*lmMst1 - 120*lmMt)*(pow2(Dmst12) - Dmst12*pow2(Mst2)
+        Dmst12*(557 + 120*lmMst1 - 120*lmMt)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2)
         + pow4(Mst2)) + 25*(44 + 3*lmMst1 - 3*lmMt)*pow6(Mst2)) + 25*pow2(Mgl)*
-        (Dmst12*(65 - 6*lmMst1 + 6*lmMt)*(pow2(Dmst12) - Dmst12*pow2(Mst2) +
+        (Dmst12*(65 - 6*lmMst1 + 6*lmMt)*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) +
         pow4(Mst2)) + (91 - 12*lmMst1 + 12*lmMt)*pow6(Mst2))))/5.))) - 75*Mt*
         z3*(-5040*Dmst12*s2t*xDmsqst1*pow2(Dmsqst1)*pow2(Mst1)*pow3(Mgl)*(2*
-        Dmst12*Mt*MuSUSY*s2t*pow2(Mst2) + pow2(Dmst12)*(-4*Mt*MuSUSY*s2t + 15*
+        Dmst12*Mt*MuSUSY*s2t*pow2(Mst2) + xDmst12*pow2(Dmst12)*(-4*Mt*MuSUSY*s2t + 15*
         Tbeta*pow2(Mt) + Tbeta*pow2(Mst1)*pow2(s2t)) - 15*Tbeta*pow2(Mt)*pow4(
         Mst2)) + 4*xDmglst1*pow3(Dmglst1)*pow4(Msq)*(-2*Mt*pow2(Dmst12)*pow2(
         Mst2)*(2*Mst1*Mt*s2t*(737647*MuSUSY + 137634*Mst1*Tbeta) + (884106*
         MuSUSY - 5205992*Mst1*Tbeta)*pow2(Mt) - (349745*MuSUSY + 1377324*Mst1*
-        Tbeta)*pow2(Mst1)*pow2(s2t)) + pow3(Dmst12)*(8*Mst1*s2t*(278539*MuSUSY
+        Tbeta)*pow2(Mst1)*pow2(s2t)) + xDmst12*pow3(Dmst12)*(8*Mst1*s2t*(278539*MuSUSY
         + 280806*Mst1*Tbeta)*pow2(Mt) - 11*Mt*(127180*MuSUSY + 451599*Mst1*
         Tbeta)*pow2(Mst1)*pow2(s2t) + 4*(442053*MuSUSY - 2202506*Mst1*Tbeta)*
         pow3(Mt) + 349745*Tbeta*pow3(s2t)*pow4(Mst1)) + 12*Dmst12*(Mt*(147351*
         MuSUSY - 1001162*Mst1*Tbeta) + 24*Mst1*s2t*(12753*MuSUSY - 3977*Mst1*
         Tbeta))*pow2(Mt)*pow4(Mst2) + 624*(2205*MuSUSY - 9298*Mst1*Tbeta)*pow3(
         Mt)*pow6(Mst2)) + Mgl*pow2(Msq)*(Mt*MuSUSY*(2*pow2(Dmst12)*pow2(Mst1)*(
-        5040*Dmsqst1*pow2(Mgl)*(2*Dmst12 - pow2(Mst2)) - 20*Dmglst1*(40023*
-        Dmglst1 + 10097*Mgl)*pow2(Msq)*(2*Dmst12 - pow2(Mst2)) + pow2(Mgl)*
-        pow2(Msq)*(37669*Dmst12 + 10296*pow2(Mst2)))*pow2(s2t) + Mt*pow2(Msq)*(
-        -16*Dmst12*Mst1*s2t*(2*pow2(Dmst12)*(142987*Dmglst1*Mgl + 37582*pow2(
+        5040*Dmsqst1*pow2(Mgl)*(2*xDmst12*Dmst12 - pow2(Mst2)) - 20*Dmglst1*(40023*
+        Dmglst1 + 10097*Mgl)*pow2(Msq)*(2*xDmst12*Dmst12 - pow2(Mst2)) + pow2(Mgl)*
+        pow2(Msq)*(37669*xDmst12*Dmst12 + 10296*pow2(Mst2)))*pow2(s2t) + Mt*pow2(Msq)*(
+        -16*Dmst12*Mst1*s2t*(2*xDmst12*pow2(Dmst12)*(142987*Dmglst1*Mgl + 37582*pow2(
         Dmglst1) + 20297*pow2(Mgl)) + 5*Dmst12*(-21081*Dmglst1*Mgl + 21081*
         pow2(Dmglst1) - 3457*pow2(Mgl))*pow2(Mst2) - 2*(37582*Dmglst1*Mgl +
         142987*pow2(Dmglst1) + 3012*pow2(Mgl))*pow4(Mst2)) + 3*Mt*(-(pow2(Mgl)*
-        (-31963*pow2(Dmst12)*pow2(Mst2) + 131926*pow3(Dmst12) - 68000*Dmst12*
+        (-31963*pow2(Dmst12)*pow2(Mst2) + 131926*xDmst12*pow3(Dmst12) - 68000*Dmst12*
         pow4(Mst2) - 24064*pow6(Mst2))) + 432*pow2(Dmglst1)*(-3185*pow2(Dmst12)
-        *pow2(Mst2) + 3185*Dmst12*(pow2(Dmst12) + pow4(Mst2)) + 1566*pow6(Mst2)
-        ) + 48*Dmglst1*Mgl*(-8213*pow2(Dmst12)*pow2(Mst2) + 8213*Dmst12*(pow2(
+        *pow2(Mst2) + 3185*Dmst12*(xDmst12*pow2(Dmst12) + pow4(Mst2)) + 1566*pow6(Mst2)
+        ) + 48*Dmglst1*Mgl*(-8213*pow2(Dmst12)*pow2(Mst2) + 8213*Dmst12*(xDmst12*pow2(
         Dmst12) + pow4(Mst2)) + 4664*pow6(Mst2))))) + 4*Mst1*Tbeta*(-((1260*
         Dmsqst1*pow2(Mgl) - (50485*Dmglst1*Mgl + 200115*pow2(Dmglst1) + 2574*
-        pow2(Mgl))*pow2(Msq))*pow3(Dmst12)*pow3(Mst1)*pow3(s2t)) - Dmst12*Mst1*
-        s2t*pow2(Mt)*(1260*Dmsqst1*pow2(Mgl)*(22*pow2(Dmst12) - 7*Dmst12*pow2(
-        Mst2) - 8*pow4(Mst2)) + pow2(Msq)*(pow2(Mgl)*(32783*pow2(Dmst12) -
+        pow2(Mgl))*pow2(Msq))*xDmst12*pow3(Dmst12)*pow3(Mst1)*pow3(s2t)) - Dmst12*Mst1*
+        s2t*pow2(Mt)*(1260*Dmsqst1*pow2(Mgl)*(22*xDmst12*pow2(Dmst12) - 7*Dmst12*pow2(
+        Mst2) - 8*pow4(Mst2)) + pow2(Msq)*(pow2(Mgl)*(32783*xDmst12*pow2(Dmst12) -
         14508*Dmst12*pow2(Mst2) - 15840*pow4(Mst2)) - 24*Dmglst1*(Dmglst1*(
-        68291*pow2(Dmst12) - 32498*Dmst12*pow2(Mst2) - 3295*pow4(Mst2)) + Mgl*(
-        4744*pow2(Dmst12) - 3821*Dmst12*pow2(Mst2) + 2898*pow4(Mst2))))) +
-        pow2(Msq)*(-3*Mt*pow2(Dmst12)*pow2(Mst1)*(Dmst12*(-30241*Dmglst1*Mgl +
+        68291*xDmst12*pow2(Dmst12) - 32498*Dmst12*pow2(Mst2) - 3295*pow4(Mst2)) + Mgl*(
+        4744*xDmst12*pow2(Dmst12) - 3821*Dmst12*pow2(Mst2) + 2898*pow4(Mst2))))) +
+        pow2(Msq)*(-3*Mt*pow2(Dmst12)*pow2(Mst1)*(xDmst12*Dmst12*(-30241*Dmglst1*Mgl +
         391379*pow2(Dmglst1) - 11261*pow2(Mgl)) - 2*(37582*Dmglst1*Mgl +
         142987*pow2(Dmglst1) + 3012*pow2(Mgl))*pow2(Mst2))*pow2(s2t) + 2*pow3(
-        Mt)*(4*Dmglst1*Mgl*(-86833*pow2(Dmst12)*pow2(Mst2) + 287078*pow3(
+        Mt)*(4*Dmglst1*Mgl*(-86833*pow2(Dmst12)*pow2(Mst2) + 287078*xDmst12*pow3(
         Dmst12) - 113412*Dmst12*pow4(Mst2) - 47112*pow6(Mst2)) + pow2(Mgl)*(-
-        51181*pow2(Dmst12)*pow2(Mst2) + 152018*pow3(Dmst12) - 49656*Dmst12*
+        51181*pow2(Dmst12)*pow2(Mst2) + 152018*xDmst12*pow3(Dmst12) - 49656*Dmst12*
         pow4(Mst2) - 10176*pow6(Mst2)) - 4*pow2(Dmglst1)*(-286982*pow2(Dmst12)*
-        pow2(Mst2) + 86737*pow3(Dmst12) + 487227*Dmst12*pow4(Mst2) + 226824*
+        pow2(Mst2) + 86737*xDmst12*pow3(Dmst12) + 487227*Dmst12*pow4(Mst2) + 226824*
         pow6(Mst2))))))))))/(1.90512e8*Tbeta*pow2(Mst1)*pow3(Mgl)*pow4(Msq)*
         pow6(Mst2));
 }
diff --git a/source/himalaya/hierarchies/H32q2g.cpp b/source/himalaya/hierarchies/H32q2g.cpp
index 2c32daf..9f7a3f8 100644
--- a/source/himalaya/hierarchies/H32q2g.cpp
+++ b/source/himalaya/hierarchies/H32q2g.cpp
@@ -610,38 +610,38 @@ double H32q2g::getS2() const {
  */
 double H32q2g::getS12() const {
    return -(128*Al4p*xDmglst1*pow3(Dmglst1)*(45*MuSUSY*twoLoopFlag*pow2(Mst1)*pow2(
-        Mt)*(80*Dmst12*Mt*MuSUSY*s2t*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(
+        Mt)*(80*Dmst12*Mt*MuSUSY*s2t*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(
         Mst2)) - Tbeta*(pow2(Dmst12)*pow2(Mst2)*(660*Mst1*Mt*s2t + (-181 + 90*
         lmMst1 - 90*lmMt)*pow2(Mt) - 60*pow2(Mst1)*pow2(s2t)) + (-660*Mst1*Mt*
         s2t + (181 - 90*lmMst1 + 90*lmMt)*pow2(Mt) + 120*pow2(Mst1)*pow2(s2t))*
-        pow3(Dmst12) + Dmst12*Mt*((181 - 90*lmMst1 + 90*lmMt)*Mt - 660*Mst1*
+        xDmst12*pow3(Dmst12) + Dmst12*Mt*((181 - 90*lmMst1 + 90*lmMt)*Mt - 660*Mst1*
         s2t)*pow4(Mst2) + 12*(16 - 15*lmMst1 + 15*lmMt)*pow2(Mt)*pow6(Mst2))) +
         Al4p*threeLoopFlag*(10*MuSUSY*((2219399 + 9600*lmMst1 + 960*lmMt)*Mst1*
         MuSUSY + 12*Dmsqst1*(-1541 + 420*lmMst1 - 420*lmMt)*Tbeta)*pow4(Mt)*
         pow6(Mst2) + (MuSUSY*pow2(Mst1)*pow2(Mt)*(735*Dmst12*Mst1*s2t*Tbeta*(
         Dmst12*Mst1*s2t*(-14217821 - 161940*lmMst1 + 28800*pow2(lmMst1))*(2*
-        Dmst12 - pow2(Mst2)) + 20*Mt*(-520781 - 17172*lmMst1 + 192*lmMt +
-        11520*pow2(lmMst1))*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2))) -
+        xDmst12*Dmst12 - pow2(Mst2)) + 20*Mt*(-520781 - 17172*lmMst1 + 192*lmMt +
+        11520*pow2(lmMst1))*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2))) -
         2*Mt*(-5*Dmst12*(98*MuSUSY*s2t*(14217821 + 161940*lmMst1 - 28800*pow2(
         lmMst1)) - 3*Mt*Tbeta*(1417174939 - 401268*lmMt + 4*lmMst1*(4061413 +
-        37800*lmMt) - 3185280*pow2(lmMst1) + 211680*pow2(lmMt)))*(pow2(Dmst12)
+        37800*lmMt) - 3185280*pow2(lmMst1) + 211680*pow2(lmMt)))*(xDmst12*pow2(Dmst12)
         - Dmst12*pow2(Mst2) + pow4(Mst2)) + 196*Mt*Tbeta*(54198467 + 43950*lmMt
         + 180*lmMst1*(6353 + 135*lmMt) - 272700*pow2(lmMst1) + 32400*pow2(lmMt)
         )*pow6(Mst2))))/196.)) + MuSUSY*(225*threeLoopFlag*pow2(Al4p)*(-192*z2*
-        pow4(Mst1)*(2*Dmst12*MuSUSY*pow2(Mt)*pow2(s2t)*(2*pow2(Dmst12)*(100*
+        pow4(Mst1)*(2*Dmst12*MuSUSY*pow2(Mt)*pow2(s2t)*(2*xDmst12*pow2(Dmst12)*(100*
         Dmsqst1*shiftst2 + (15*shiftst1 + 10*shiftst2 + 9*shiftst3)*pow2(Mst1))
         - 5*Dmst12*(10*Dmsqst1*(shiftst1 + shiftst2) + (10*(shiftst1 +
         shiftst2) + 3*shiftst3)*pow2(Mst1))*pow2(Mst2) + 10*(10*Dmsqst1*(
         shiftst1 - shiftst2) + (10*shiftst1 - 10*shiftst2 + shiftst3)*pow2(
-        Mst1))*pow4(Mst2)) - 5*Tbeta*(Mt*shiftst3*pow2(Dmst12)*(7*Dmst12 - 3*
+        Mst1))*pow4(Mst2)) - 5*Tbeta*(Mt*shiftst3*pow2(Dmst12)*(7*xDmst12*Dmst12 - 3*
         pow2(Mst2))*pow3(s2t)*pow4(Mst1) + 10*shiftst2*(-(Mt*pow2(Dmst12)*pow2(
-        Mst1)*(Dmsqst1 + pow2(Mst1))*(2*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) + 24*
-        s2t*pow3(Mt)*(Dmsqst1*pow3(Dmst12) - (Dmsqst1 + pow2(Mst1))*(Dmst12 +
+        Mst1)*(Dmsqst1 + pow2(Mst1))*(2*xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) + 24*
+        s2t*pow3(Mt)*(Dmsqst1*xDmst12*pow3(Dmst12) - (Dmsqst1 + pow2(Mst1))*(Dmst12 +
         pow2(Mst2))*pow4(Mst2))) - 24*s2t*shiftst3*pow2(Mst1)*pow3(Mt)*(-(pow2(
-        Dmst12)*pow2(Mst2)) + pow3(Dmst12) + Dmst12*pow4(Mst2) - pow6(Mst2)) +
+        Dmst12)*pow2(Mst2)) + xDmst12*pow3(Dmst12) + Dmst12*pow4(Mst2) - pow6(Mst2)) +
         10*shiftst1*(Dmsqst1 + pow2(Mst1))*(Mt*pow2(Dmst12)*pow2(Mst1)*(4*
-        Dmst12 - 3*pow2(Mst2))*pow3(s2t) + 24*s2t*pow3(Mt)*pow6(Mst2)))) + Mt*(
-        (800*xDmsqst1*pow2(Dmsqst1)*(3*Dmst12*s2t*pow2(Mst1)*(pow2(Dmst12)*(12*
+        xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t) + 24*s2t*pow3(Mt)*pow6(Mst2)))) + Mt*(
+        (800*xDmsqst1*pow2(Dmsqst1)*(3*Dmst12*s2t*pow2(Mst1)*(xDmst12*pow2(Dmst12)*(12*
         s2t*(shiftst1 - shiftst2)*(2*Mt*MuSUSY - 3*s2t*Tbeta*pow2(Mst1)) + (205
         + 144*shiftst2)*Tbeta*pow2(Mt)) - Dmst12*pow2(Mst2)*(6*s2t*(shiftst1 -
         shiftst2)*(4*Mt*MuSUSY - 3*s2t*Tbeta*pow2(Mst1)) + (205 + 144*shiftst2)
@@ -649,48 +649,48 @@ double H32q2g::getS12() const {
         144*shiftst2)*Tbeta)*pow4(Mst2)) + 16*(Dmglst1*(8 + 3*lmMst1 - 3*lmMt)*
         Mt + Mst1*((29 - 6*lmMst1 + 6*lmMt)*Mt + 27*Mst1*s2t*(-shiftst1 +
         shiftst2)))*Tbeta*pow2(Mt)*pow6(Mst2)))/3. - 5*Mst1*z3*(35280*Dmst12*
-        Mst1*s2t*Tbeta*xDmsqst1*pow2(Dmsqst1)*pow2(Mt)*(pow2(Dmst12) - Dmst12*
+        Mst1*s2t*Tbeta*xDmsqst1*pow2(Dmsqst1)*pow2(Mt)*(xDmst12*pow2(Dmst12) - Dmst12*
         pow2(Mst2) + pow4(Mst2)) + Mst1*Mt*MuSUSY*(-2*pow2(Dmst12)*pow2(Mst1)*(
-        20*(-252*Dmsqst1 + 10097*Dmglst1*Mst1 + 29926*pow2(Dmglst1))*(2*Dmst12
-        - pow2(Mst2)) - pow2(Mst1)*(37669*Dmst12 + 10296*pow2(Mst2)))*pow2(s2t)
-        + 16*Dmst12*Mst1*Mt*s2t*(210810*pow2(Dmglst1)*(pow2(Dmst12) - Dmst12*
-        pow2(Mst2) + pow4(Mst2)) + pow2(Mst1)*(-40594*pow2(Dmst12) + 17285*
-        Dmst12*pow2(Mst2) + 6024*pow4(Mst2)) + Dmglst1*Mst1*(-285974*pow2(
+        20*(-252*Dmsqst1 + 10097*Dmglst1*Mst1 + 29926*pow2(Dmglst1))*(2*xDmst12*Dmst12
+        - pow2(Mst2)) - pow2(Mst1)*(37669*xDmst12*Dmst12 + 10296*pow2(Mst2)))*pow2(s2t)
+        + 16*Dmst12*Mst1*Mt*s2t*(210810*pow2(Dmglst1)*(xDmst12*pow2(Dmst12) - Dmst12*
+        pow2(Mst2) + pow4(Mst2)) + pow2(Mst1)*(-40594*xDmst12*pow2(Dmst12) + 17285*
+        Dmst12*pow2(Mst2) + 6024*pow4(Mst2)) + Dmglst1*Mst1*(-285974*xDmst12*pow2(
         Dmst12) + 105405*Dmst12*pow2(Mst2) + 75164*pow4(Mst2))) + 3*pow2(Mt)*(-
-        (pow2(Mst1)*(-31963*pow2(Dmst12)*pow2(Mst2) + 131926*pow3(Dmst12) -
+        (pow2(Mst1)*(-31963*pow2(Dmst12)*pow2(Mst2) + 131926*xDmst12*pow3(Dmst12) -
         68000*Dmst12*pow4(Mst2) - 24064*pow6(Mst2))) + 48*Dmglst1*Mst1*(-8213*
-        pow2(Dmst12)*pow2(Mst2) + 8213*Dmst12*(pow2(Dmst12) + pow4(Mst2)) +
+        pow2(Dmst12)*pow2(Mst2) + 8213*Dmst12*(xDmst12*pow2(Dmst12) + pow4(Mst2)) +
         4664*pow6(Mst2)) + 96*pow2(Dmglst1)*(-10226*pow2(Dmst12)*pow2(Mst2) +
-        10226*Dmst12*(pow2(Dmst12) + pow4(Mst2)) + 4715*pow6(Mst2)))) + 32*Mt*
-        xDmglst1*pow3(Dmglst1)*(44*Mt*MuSUSY*(4789*Dmst12*Mst1*s2t*(pow2(
+        10226*Dmst12*(xDmst12*pow2(Dmst12) + pow4(Mst2)) + 4715*pow6(Mst2)))) + 32*Mt*
+        xDmglst1*pow3(Dmglst1)*(44*Mt*MuSUSY*(4789*Dmst12*Mst1*s2t*(xDmst12*pow2(
         Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 1503*Mt*pow6(Mst2)) - 3*
-        Mst1*Tbeta*(52679*pow2(Dmst12)*pow2(Mst1)*(2*Dmst12 - pow2(Mst2))*pow2(
-        s2t) + 38236*Dmst12*Mst1*Mt*s2t*(pow2(Dmst12) - Dmst12*pow2(Mst2) +
+        Mst1*Tbeta*(52679*pow2(Dmst12)*pow2(Mst1)*(2*xDmst12*Dmst12 - pow2(Mst2))*pow2(
+        s2t) + 38236*Dmst12*Mst1*Mt*s2t*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) +
         pow4(Mst2)) + 3*pow2(Mt)*(-71189*pow2(Dmst12)*pow2(Mst2) + 71189*
-        Dmst12*(pow2(Dmst12) + pow4(Mst2)) + 35412*pow6(Mst2)))) - 4*Tbeta*
+        Dmst12*(xDmst12*pow2(Dmst12) + pow4(Mst2)) + 35412*pow6(Mst2)))) - 4*Tbeta*
         pow2(Mst1)*(3*Mt*pow2(Dmst12)*pow2(Mst1)*(210810*pow2(Dmglst1)*(2*
-        Dmst12 - pow2(Mst2)) - pow2(Mst1)*(11261*Dmst12 + 6024*pow2(Mst2)) -
-        Dmglst1*Mst1*(30241*Dmst12 + 75164*pow2(Mst2)))*pow2(s2t) - (-1260*
+        xDmst12*Dmst12 - pow2(Mst2)) - pow2(Mst1)*(11261*xDmst12*Dmst12 + 6024*pow2(Mst2)) -
+        Dmglst1*Mst1*(30241*xDmst12*Dmst12 + 75164*pow2(Mst2)))*pow2(s2t) - (-1260*
         Dmsqst1 + 50485*Dmglst1*Mst1 + 149630*pow2(Dmglst1) + 2574*pow2(Mst1))*
-        pow3(Dmst12)*pow3(Mst1)*pow3(s2t) - Dmst12*Mst1*s2t*pow2(Mt)*(pow2(
+        xDmst12*pow3(Dmst12)*pow3(Mst1)*pow3(s2t) - Dmst12*Mst1*s2t*pow2(Mt)*(xDmst12*pow2(
         Dmst12)*(-27720*Dmsqst1 + 113856*Dmglst1*Mst1 + 1525128*pow2(Dmglst1) -
         32783*pow2(Mst1)) - 12*Dmst12*(-735*Dmsqst1 + 7642*Dmglst1*Mst1 +
         57354*pow2(Dmglst1) - 1209*pow2(Mst1))*pow2(Mst2) - 24*(-2898*Dmglst1*
         Mst1 + 6193*pow2(Dmglst1) - 60*(7*Dmsqst1 + 11*pow2(Mst1)))*pow4(Mst2))
         + 2*pow3(Mt)*(1404*pow2(Dmglst1)*(-1065*pow2(Dmst12)*pow2(Mst2) + 1065*
-        pow3(Dmst12) + 1065*Dmst12*pow4(Mst2) + 512*pow6(Mst2)) + pow2(Mst1)*(
-        51181*pow2(Dmst12)*pow2(Mst2) - 152018*pow3(Dmst12) + 49656*Dmst12*
+        xDmst12*pow3(Dmst12) + 1065*Dmst12*pow4(Mst2) + 512*pow6(Mst2)) + pow2(Mst1)*(
+        51181*pow2(Dmst12)*pow2(Mst2) - 152018*xDmst12*pow3(Dmst12) + 49656*Dmst12*
         pow4(Mst2) + 10176*pow6(Mst2)) + 4*Dmglst1*Mst1*(86833*pow2(Dmst12)*
-        pow2(Mst2) - 287078*pow3(Dmst12) + 113412*Dmst12*pow4(Mst2) + 47112*
+        pow2(Mst2) - 287078*xDmst12*pow3(Dmst12) + 113412*Dmst12*pow4(Mst2) + 47112*
         pow6(Mst2))))))) + Mt*(40500*Dmst12*oneLoopFlag*s2t*(-2*Dmst12*Mt*(
-        MuSUSY*s2t + 6*Mt*Tbeta)*pow2(Mst2) + pow2(Dmst12)*(2*Mt*MuSUSY*s2t +
+        MuSUSY*s2t + 6*Mt*Tbeta)*pow2(Mst2) + xDmst12*pow2(Dmst12)*(2*Mt*MuSUSY*s2t +
         8*Tbeta*pow2(Mt) - Tbeta*pow2(Mst1)*pow2(s2t)) + 24*Tbeta*pow2(Mt)*
         pow4(Mst2))*pow6(Mst1) + 1440*Al4p*twoLoopFlag*pow3(Mst1)*(-25*s2t*
-        pow3(Dmst12)*(8*(5 + 6*lmMst1)*MuSUSY*pow2(Mst1)*pow2(Mt) + 2*pow2(
+        xDmst12*pow3(Dmst12)*(8*(5 + 6*lmMst1)*MuSUSY*pow2(Mst1)*pow2(Mt) + 2*pow2(
         Dmglst1)*(24*MuSUSY*pow2(Mt) + (11 - 6*lmMst1)*Tbeta*pow2(s2t)*pow3(
         Mst1)) - 8*Dmglst1*((5 - 6*lmMst1)*Mst1*MuSUSY*pow2(Mt) + (-1 + 3*
         lmMst1)*Tbeta*pow2(s2t)*pow4(Mst1)) + 3*Tbeta*pow2(s2t)*pow5(Mst1)) +
-        Mt*(50*Dmst12*MuSUSY*s2t*(Mst1*s2t*pow2(Dmst12)*(16*Dmglst1*(1 - 3*
+        Mt*(50*Dmst12*MuSUSY*s2t*(Mst1*s2t*xDmst12*pow2(Dmst12)*(16*Dmglst1*(1 - 3*
         lmMst1)*Mst1 + (44 - 24*lmMst1)*pow2(Dmglst1) + (1 + 6*lmMst1)*pow2(
         Mst1)) + 4*Dmst12*Mt*(6*pow2(Dmglst1) + pow2(Mst1))*pow2(Mst2) -
         Dmst12*Mst1*s2t*(8*Dmglst1*(1 - 3*lmMst1)*Mst1 + (22 - 12*lmMst1)*pow2(
@@ -699,21 +699,21 @@ double H32q2g::getS12() const {
         (-25*pow2(Mst1)*(-(pow2(Dmst12)*pow2(Mst2)*(24*(1 - 3*lmMst1)*Mst1*Mt*
         s2t + 2*(5 + 6*lmMst1 + 6*lmMt)*pow2(Mt) + 9*(1 + 2*lmMst1)*pow2(Mst1)*
         pow2(s2t))) + (-48*(-1 + lmMst1)*Mst1*Mt*s2t - 4*(5 + 6*lmMst1)*pow2(
-        Mt) + 6*(1 + 3*lmMst1)*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) + 4*Dmst12*
+        Mt) + 6*(1 + 3*lmMst1)*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) + 4*Dmst12*
         Mt*(2*(5 + 6*lmMst1 + 3*lmMt)*Mt - 9*(1 + 2*lmMst1)*Mst1*s2t)*pow4(
         Mst2) + 72*(1 + lmMst1 + lmMt)*pow2(Mt)*pow6(Mst2)) + 2*pow2(Dmglst1)*(
         9*pow2(Dmst12)*pow2(Mst2)*(5*Mst1*Mt*s2t + (-109 + 10*lmMst1 - 10*lmMt)
         *pow2(Mt) - 25*pow2(Mst1)*pow2(s2t)) + (60*(-29 + 15*lmMst1)*Mst1*Mt*
         s2t + (981 - 90*lmMst1 + 90*lmMt)*pow2(Mt) + 450*pow2(Mst1)*pow2(s2t))*
-        pow3(Dmst12) + 3*Dmst12*Mt*((327 - 30*lmMst1 + 30*lmMt)*Mt + 50*(11 -
+        xDmst12*pow3(Dmst12) + 3*Dmst12*Mt*((327 - 30*lmMst1 + 30*lmMt)*Mt + 50*(11 -
         6*lmMst1)*Mst1*s2t)*pow4(Mst2) + 100*(17 - 3*lmMst1 + 3*lmMt)*pow2(Mt)*
         pow6(Mst2)) + Dmglst1*Mst1*(-3*pow2(Dmst12)*(pow2(Mst2)*(100*Mst1*Mt*
         s2t - 2*(-41 + 90*lmMst1 + 10*lmMt)*pow2(Mt) + 25*(5 - 6*lmMst1)*pow2(
-        Mst1)*pow2(s2t)) + Dmst12*(-1200*lmMst1*Mst1*Mt*s2t + 8*(17 - 30*lmMst1
+        Mst1)*pow2(s2t)) + xDmst12*Dmst12*(-1200*lmMst1*Mst1*Mt*s2t + 8*(17 - 30*lmMst1
         + 5*lmMt)*pow2(Mt) + 25*(-5 + 6*lmMst1)*pow2(Mst1)*pow2(s2t))) + 300*
         Dmst12*Mt*((3 - 6*lmMst1)*Mt + 2*(1 - 6*lmMst1)*Mst1*s2t)*pow4(Mst2) -
         200*(-7 + 15*lmMst1 + 3*lmMt)*pow2(Mt)*pow6(Mst2))))) + 2*Mst1*
-        threeLoopFlag*pow2(Al4p)*(5*Mst1*Mt*MuSUSY*(40*Dmglst1*(2*pow3(Dmst12)*
+        threeLoopFlag*pow2(Al4p)*(5*Mst1*Mt*MuSUSY*(40*Dmglst1*(2*xDmst12*pow3(Dmst12)*
         (Mt*s2t*(6000*Dmsqst1 + 6*(-1282471 + 7264*lmMst1 + 18120*pow2(lmMst1))
         *pow2(Mst1)) + 5*Mst1*(403559 + 384*(lmMst1 + lmMt) - 4608*pow2(lmMst1)
         )*pow2(Mt) + 15*(-84209 - 1264*lmMst1 + 240*pow2(lmMst1))*pow2(s2t)*
@@ -730,7 +730,7 @@ double H32q2g::getS12() const {
         2400*Dmsqst1*Mst1*(7 - 12*lmMst1*(-2 + shiftst1 + shiftst2) + 18*(
         shiftst1 + shiftst2))*pow2(s2t) - 80*(1429 - 454*lmMst1 - 180*(shiftst1
         + shiftst2) + 360*lmMst1*(shiftst1 + shiftst2) - 126*shiftst3 + 108*
-        lmMst1*shiftst3 + 24*pow2(lmMst1))*pow2(s2t)*pow3(Mst1))) - 2*pow3(
+        lmMst1*shiftst3 + 24*pow2(lmMst1))*pow2(s2t)*pow3(Mst1))) - 2*xDmst12*pow3(
         Dmst12)*(80*Mt*s2t*(-840*Dmsqst1 + (36863 - 80*lmMst1 - 552*pow2(
         lmMst1))*pow2(Mst1)) + Mst1*(1763661 - 47104*lmMst1 + 5120*lmMt -
         24576*pow2(lmMst1))*pow2(Mt) + pow2(s2t)*(2400*Dmsqst1*Mst1*(-7 + 24*
@@ -748,7 +748,7 @@ double H32q2g::getS12() const {
         + 5288*lmMst1 - 11820*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)) - 2*(15*Mst1*
         Mt*s2t*(-954181 - 11256*lmMst1 + 11520*pow2(lmMst1)) + 2*(-6233611 -
         58800*lmMst1 + 4560*lmMt + 14400*pow2(lmMst1))*pow2(Mt) + 15*(655743 +
-        5288*lmMst1 - 11820*pow2(lmMst1))*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) +
+        5288*lmMst1 - 11820*pow2(lmMst1))*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) +
         2*Dmst12*Mt*(15*Mst1*s2t*(954181 + 11256*lmMst1 - 11520*pow2(lmMst1)) -
         2*Mt*(-6233611 - 58800*lmMst1 + 4560*lmMt + 14400*pow2(lmMst1)))*pow4(
         Mst2) - 50*(-230009 - 4704*lmMst1 + 480*lmMt + 1152*pow2(lmMst1))*pow2(
@@ -757,7 +757,7 @@ double H32q2g::getS12() const {
         + 11520*pow2(lmMst1))*pow2(Mst1)) + 4*Mst1*(84334067 + 120*lmMst1*(2843
         - 120*lmMt) + 202200*lmMt - 828000*pow2(lmMst1) - 21600*pow2(lmMt))*
         pow2(Mt) + 75*(954181 + 11256*lmMst1 - 11520*pow2(lmMst1))*pow2(s2t)*
-        pow3(Mst1)) - pow2(Dmst12)*(600*s2t*(90*Dmsqst1 + (-274009 - 964*lmMst1
+        pow3(Mst1)) - xDmst12*pow2(Dmst12)*(600*s2t*(90*Dmsqst1 + (-274009 - 964*lmMst1
         - 104*lmMt + 8310*pow2(lmMst1))*pow2(Mst1))*pow2(Mt) + 150*Mt*(954181 +
         11256*lmMst1 - 11520*pow2(lmMst1))*pow2(s2t)*pow3(Mst1) + 4*Mst1*(
         84334067 + 120*lmMst1*(2843 - 120*lmMt) + 202200*lmMt - 828000*pow2(
@@ -771,13 +771,13 @@ double H32q2g::getS12() const {
         pow6(Mst2)) - Dmglst1*(1200*Dmsqst1*Mst1*Mt*(-(pow2(Dmst12)*pow2(Mst2)*
         (14100*Mst1*Mt*s2t + 4*(557 + 120*lmMst1 - 120*lmMt)*pow2(Mt) + 375*
         pow2(Mst1)*pow2(s2t))) + 2*(7050*Mst1*Mt*s2t + 2*(557 + 120*lmMst1 -
-        120*lmMt)*pow2(Mt) + 375*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) + 4*Dmst12*
+        120*lmMt)*pow2(Mt) + 375*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) + 4*Dmst12*
         Mt*((557 + 120*lmMst1 - 120*lmMt)*Mt + 3525*Mst1*s2t)*pow4(Mst2) + 200*
         (26 + 3*lmMst1 - 3*lmMt)*pow2(Mt)*pow6(Mst2)) + pow3(Mst1)*(12*Mt*pow2(
         Dmst12)*pow2(Mst2)*(300*Mst1*Mt*s2t*(17539 + 574*lmMst1 + 160*lmMt -
         1920*pow2(lmMst1)) + (39474953 + 3300*lmMt + 20*lmMst1*(-2639 + 4380*
         lmMt) - 319200*pow2(lmMst1) - 14400*pow2(lmMt))*pow2(Mt) + 375*(-33261
-        + 532*lmMst1 + 660*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)) - pow3(Dmst12)*(
+        + 532*lmMst1 + 660*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)) - xDmst12*pow3(Dmst12)*(
         3600*Mst1*s2t*(12383 + 4128*lmMst1 + 80*lmMt - 1260*pow2(lmMst1))*pow2(
         Mt) + 225*Mt*(284641 + 8696*lmMst1 + 1680*pow2(lmMst1))*pow2(Mst1)*
         pow2(s2t) + 8*(193364399 + 90000*lmMt - 300*lmMst1*(3781 + 582*lmMt) -
@@ -792,7 +792,7 @@ double H32q2g::getS12() const {
         1361 + 10*lmMst1 + 54*pow2(lmMst1))*pow2(Mst1)*pow2(s2t) - (-2284899 +
         49840*lmMt - 32*lmMst1*(-1793 + 555*lmMt) + 87360*pow2(lmMst1) + 28800*
         pow2(lmMt))*pow3(Mt) + 1350*(-1 + 2*lmMst1)*(10*shiftst1 - 10*shiftst2
-        + shiftst3)*pow3(Mst1)*pow3(s2t)) - pow3(Dmst12)*(15*Mst1*s2t*(-102747
+        + shiftst3)*pow3(Mst1)*pow3(s2t)) - xDmst12*pow3(Dmst12)*(15*Mst1*s2t*(-102747
         + 640*lmMt + 6720*shiftst3 - 32*lmMst1*(331 + 90*shiftst3) + 13888*
         pow2(lmMst1))*pow2(Mt) - 75*Mt*(-20531 + 200*lmMst1 + 1200*pow2(lmMst1)
         )*pow2(Mst1)*pow2(s2t) - 4*(-3454599 + 16840*lmMt + 48*lmMst1*(262 +
@@ -808,7 +808,7 @@ double H32q2g::getS12() const {
         Mst2)) + 500*Dmsqst1*pow2(Mst1)*(-(pow2(Dmst12)*pow2(Mst2)*(483*Mst1*
         s2t*pow2(Mt) + 252*Mt*pow2(Mst1)*pow2(s2t) + 16*(65 - 6*lmMst1 + 6*
         lmMt)*pow3(Mt) + 54*(3 - 2*lmMst1)*(shiftst1 - shiftst2)*pow3(Mst1)*
-        pow3(s2t))) + pow3(Dmst12)*(6*Mst1*s2t*(173 - 144*lmMst1*(-1 +
+        pow3(s2t))) + xDmst12*pow3(Dmst12)*(6*Mst1*s2t*(173 - 144*lmMst1*(-1 +
         shiftst2) + 216*shiftst2)*pow2(Mt) + 504*Mt*pow2(Mst1)*pow2(s2t) + 16*(
         65 - 6*lmMst1 + 6*lmMt)*pow3(Mt) + 3*(7 + 72*shiftst1 - 36*shiftst2 +
         24*lmMst1*(1 - 2*shiftst1 + shiftst2))*pow3(Mst1)*pow3(s2t)) + pow2(Mt)
diff --git a/source/himalaya/hierarchies/H3q22g.cpp b/source/himalaya/hierarchies/H3q22g.cpp
index 6e2ca59..c58301f 100644
--- a/source/himalaya/hierarchies/H3q22g.cpp
+++ b/source/himalaya/hierarchies/H3q22g.cpp
@@ -689,18 +689,18 @@ double H3q22g::getS2() const {
  */
 double H3q22g::getS12() const {
    return -(MuSUSY*(40500*Dmst12*Mt*oneLoopFlag*s2t*pow4(Msq)*(-2*Dmst12*Mt*(
-        MuSUSY*s2t + 6*Mt*Tbeta)*pow2(Mst2) + pow2(Dmst12)*(2*Mt*MuSUSY*s2t +
+        MuSUSY*s2t + 6*Mt*Tbeta)*pow2(Mst2) + xDmst12*pow2(Dmst12)*(2*Mt*MuSUSY*s2t +
         8*Tbeta*pow2(Mt) - Tbeta*pow2(Mst1)*pow2(s2t)) + 24*Tbeta*pow2(Mt)*
         pow4(Mst2))*pow5(Mst1) + 32*Al4p*pow2(Msq)*(4*xDmglst1*pow3(Dmglst1)*(
-        45*Mst1*twoLoopFlag*pow2(Msq)*pow2(Mt)*(80*Dmst12*Mt*MuSUSY*s2t*(pow2(
+        45*Mst1*twoLoopFlag*pow2(Msq)*pow2(Mt)*(80*Dmst12*Mt*MuSUSY*s2t*(xDmst12*pow2(
         Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) - Tbeta*(pow2(Dmst12)*pow2(
         Mst2)*(660*Mst1*Mt*s2t + (-181 + 90*lmMst1 - 90*lmMt)*pow2(Mt) - 60*
         pow2(Mst1)*pow2(s2t)) + (-660*Mst1*Mt*s2t + (181 - 90*lmMst1 + 90*lmMt)
-        *pow2(Mt) + 120*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) + Dmst12*Mt*((181 -
+        *pow2(Mt) + 120*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) + Dmst12*Mt*((181 -
         90*lmMst1 + 90*lmMt)*Mt - 660*Mst1*s2t)*pow4(Mst2) + 12*(16 - 15*lmMst1
         + 15*lmMt)*pow2(Mt)*pow6(Mst2))) + Al4p*threeLoopFlag*(5*MuSUSY*pow2(
         Msq)*pow3(Mt)*(Dmst12*Mst1*s2t*(14217821 + 161940*lmMst1 - 28800*pow2(
-        lmMst1))*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 2*(2219399 +
+        lmMst1))*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 2*(2219399 +
         9600*lmMst1 + 960*lmMt)*Mt*pow6(Mst2)) - (Mst1*Tbeta*pow2(Mt)*(pow2(
         Msq)*(-15*pow2(Dmst12)*pow2(Mst2)*(980*Mst1*Mt*s2t*(520781 + 17172*
         lmMst1 - 192*lmMt - 11520*pow2(lmMst1)) + (2834349878 - 802536*lmMt +
@@ -710,18 +710,18 @@ double H3q22g::getS12() const {
         192*lmMt - 11520*pow2(lmMst1)) + (1417174939 - 401268*lmMt + 4*lmMst1*(
         4061413 + 37800*lmMt) - 3185280*pow2(lmMst1) + 211680*pow2(lmMt))*pow2(
         Mt) + 49*(14217821 + 161940*lmMst1 - 28800*pow2(lmMst1))*pow2(Mst1)*
-        pow2(s2t))*pow3(Dmst12) + Dmst12*Mt*(490*Mst1*s2t*(520781 + 17172*
+        pow2(s2t))*xDmst12*pow3(Dmst12) + Dmst12*Mt*(490*Mst1*s2t*(520781 + 17172*
         lmMst1 - 192*lmMt - 11520*pow2(lmMst1)) + Mt*(1417174939 - 401268*lmMt
         + 4*lmMst1*(4061413 + 37800*lmMt) - 3185280*pow2(lmMst1) + 211680*pow2(
         lmMt)))*pow4(Mst2))) + 392*(60*Dmsqst1*(1541 - 420*lmMst1 + 420*lmMt) +
         (54198467 + 43950*lmMt + 180*lmMst1*(6353 + 135*lmMt) - 272700*pow2(
         lmMst1) + 32400*pow2(lmMt))*pow2(Msq))*pow2(Mt)*pow6(Mst2)))/196.)) +
-        45*Mt*twoLoopFlag*pow2(Msq)*pow2(Mst1)*(-25*s2t*pow3(Dmst12)*(8*(5 + 6*
+        45*Mt*twoLoopFlag*pow2(Msq)*pow2(Mst1)*(-25*s2t*xDmst12*pow3(Dmst12)*(8*(5 + 6*
         lmMst1)*MuSUSY*pow2(Mst1)*pow2(Mt) + 2*pow2(Dmglst1)*(24*MuSUSY*pow2(
         Mt) + (11 - 6*lmMst1)*Tbeta*pow2(s2t)*pow3(Mst1)) - 8*Dmglst1*((5 - 6*
         lmMst1)*Mst1*MuSUSY*pow2(Mt) + (-1 + 3*lmMst1)*Tbeta*pow2(s2t)*pow4(
         Mst1)) + 3*Tbeta*pow2(s2t)*pow5(Mst1)) + Mt*(50*Dmst12*MuSUSY*s2t*(
-        Mst1*s2t*pow2(Dmst12)*(16*Dmglst1*(1 - 3*lmMst1)*Mst1 + (44 - 24*
+        Mst1*s2t*xDmst12*pow2(Dmst12)*(16*Dmglst1*(1 - 3*lmMst1)*Mst1 + (44 - 24*
         lmMst1)*pow2(Dmglst1) + (1 + 6*lmMst1)*pow2(Mst1)) + 4*Dmst12*Mt*(6*
         pow2(Dmglst1) + pow2(Mst1))*pow2(Mst2) - Dmst12*Mst1*s2t*(8*Dmglst1*(1
         - 3*lmMst1)*Mst1 + (22 - 12*lmMst1)*pow2(Dmglst1) + 3*pow2(Mst1))*pow2(
@@ -730,16 +730,16 @@ double H3q22g::getS12() const {
         Dmst12)*pow2(Mst2)*(24*(1 - 3*lmMst1)*Mst1*Mt*s2t + 2*(5 + 6*lmMst1 +
         6*lmMt)*pow2(Mt) + 9*(1 + 2*lmMst1)*pow2(Mst1)*pow2(s2t))) + (-48*(-1 +
         lmMst1)*Mst1*Mt*s2t - 4*(5 + 6*lmMst1)*pow2(Mt) + 6*(1 + 3*lmMst1)*
-        pow2(Mst1)*pow2(s2t))*pow3(Dmst12) + 4*Dmst12*Mt*(2*(5 + 6*lmMst1 + 3*
+        pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) + 4*Dmst12*Mt*(2*(5 + 6*lmMst1 + 3*
         lmMt)*Mt - 9*(1 + 2*lmMst1)*Mst1*s2t)*pow4(Mst2) + 72*(1 + lmMst1 +
         lmMt)*pow2(Mt)*pow6(Mst2)) + 2*pow2(Dmglst1)*(9*pow2(Dmst12)*pow2(Mst2)
         *(5*Mst1*Mt*s2t + (-109 + 10*lmMst1 - 10*lmMt)*pow2(Mt) - 25*pow2(Mst1)
         *pow2(s2t)) + (60*(-29 + 15*lmMst1)*Mst1*Mt*s2t + (981 - 90*lmMst1 +
-        90*lmMt)*pow2(Mt) + 450*pow2(Mst1)*pow2(s2t))*pow3(Dmst12) + 3*Dmst12*
+        90*lmMt)*pow2(Mt) + 450*pow2(Mst1)*pow2(s2t))*xDmst12*pow3(Dmst12) + 3*Dmst12*
         Mt*((327 - 30*lmMst1 + 30*lmMt)*Mt + 50*(11 - 6*lmMst1)*Mst1*s2t)*pow4(
         Mst2) + 100*(17 - 3*lmMst1 + 3*lmMt)*pow2(Mt)*pow6(Mst2)) + Dmglst1*
         Mst1*(-3*pow2(Dmst12)*(pow2(Mst2)*(100*Mst1*Mt*s2t - 2*(-41 + 90*lmMst1
-        + 10*lmMt)*pow2(Mt) + 25*(5 - 6*lmMst1)*pow2(Mst1)*pow2(s2t)) + Dmst12*
+        + 10*lmMt)*pow2(Mt) + 25*(5 - 6*lmMst1)*pow2(Mst1)*pow2(s2t)) + xDmst12*Dmst12*
         (-1200*lmMst1*Mst1*Mt*s2t + 8*(17 - 30*lmMst1 + 5*lmMt)*pow2(Mt) + 25*(
         -5 + 6*lmMst1)*pow2(Mst1)*pow2(s2t))) + 300*Dmst12*Mt*((3 - 6*lmMst1)*
         Mt + 2*(1 - 6*lmMst1)*Mst1*s2t)*pow4(Mst2) - 200*(-7 + 15*lmMst1 + 3*
@@ -751,7 +751,7 @@ double H3q22g::getS12() const {
         s2t)) - 2*(15*Mst1*Mt*s2t*(-954181 - 11256*lmMst1 + 11520*pow2(lmMst1))
         + 2*(-6233611 - 58800*lmMst1 + 4560*lmMt + 14400*pow2(lmMst1))*pow2(Mt)
         + 15*(655743 + 5288*lmMst1 - 11820*pow2(lmMst1))*pow2(Mst1)*pow2(s2t))*
-        pow3(Dmst12) + 2*Dmst12*Mt*(15*Mst1*s2t*(954181 + 11256*lmMst1 - 11520*
+        xDmst12*pow3(Dmst12) + 2*Dmst12*Mt*(15*Mst1*s2t*(954181 + 11256*lmMst1 - 11520*
         pow2(lmMst1)) - 2*Mt*(-6233611 - 58800*lmMst1 + 4560*lmMt + 14400*pow2(
         lmMst1)))*pow4(Mst2) - 50*(-230009 - 4704*lmMst1 + 480*lmMt + 1152*
         pow2(lmMst1))*pow2(Mt)*pow6(Mst2)) + 40*Dmglst1*Mst1*(-(pow2(Dmst12)*
@@ -761,7 +761,7 @@ double H3q22g::getS12() const {
         pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))) + 2*(6000*Dmsqst1*Mst1*Mt*s2t +
         pow2(Msq)*(6*Mst1*Mt*s2t*(-1282471 + 7264*lmMst1 + 18120*pow2(lmMst1))
         + 5*(403559 + 384*(lmMst1 + lmMt) - 4608*pow2(lmMst1))*pow2(Mt) + 15*(-
-        84209 - 1264*lmMst1 + 240*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))*pow3(
+        84209 - 1264*lmMst1 + 240*pow2(lmMst1))*pow2(Mst1)*pow2(s2t)))*xDmst12*pow3(
         Dmst12) + 10*Dmst12*Mt*(1200*Dmsqst1*Mst1*s2t + (Mt*(403559 + 384*(
         lmMst1 + lmMt) - 4608*pow2(lmMst1)) - 12*Mst1*s2t*(-33261 + 532*lmMst1
         + 660*pow2(lmMst1)))*pow2(Msq))*pow4(Mst2) + 240*(9631 + 16*lmMst1 +
@@ -778,7 +778,7 @@ double H3q22g::getS12() const {
         1763661 + 47104*lmMst1 - 5120*lmMt + 24576*pow2(lmMst1))*pow2(Mt) + (
         350605 + 4320*shiftst1 + 2880*shiftst2 + 8352*shiftst3 - 96*lmMst1*(-
         115 + 90*shiftst1 + 60*shiftst2 + 54*shiftst3) - 2160*pow2(lmMst1))*
-        pow2(Mst1)*pow2(s2t)))*pow3(Dmst12) + 160*Dmst12*(60*Dmsqst1*Mst1*s2t*(
+        pow2(Mst1)*pow2(s2t)))*xDmst12*pow3(Dmst12) + 160*Dmst12*(60*Dmsqst1*Mst1*s2t*(
         14*Mt + 3*(3 - 2*lmMst1)*Mst1*s2t*(shiftst1 - shiftst2)) + pow2(Msq)*(
         4*Mst1*Mt*s2t*(1361 + 10*lmMst1 + 54*pow2(lmMst1)) + (11389 - 704*
         lmMst1 + 192*lmMt - 384*pow2(lmMst1))*pow2(Mt) + 18*(1 - 2*lmMst1)*(10*
@@ -786,23 +786,23 @@ double H3q22g::getS12() const {
         1920*(349 - 56*lmMst1 + 24*lmMt - 32*pow2(lmMst1))*pow2(Msq)*pow2(Mt)*
         pow6(Mst2))))/2. - 2*Mst1*Tbeta*(225*Dmst12*Mst1*s2t*pow2(Mt)*(Dmst12*
         Mst1*s2t*(2*pow2(Dmglst1)*(954181 + 11256*lmMst1 - 11520*pow2(lmMst1))*
-        pow2(Msq)*(2*Dmst12 - pow2(Mst2)) + 5*pow2(Mst1)*(1680*Dmsqst1*(2*
-        Dmst12 - pow2(Mst2)) + pow2(Msq)*(Dmst12*(-20531 + 200*lmMst1 + 1200*
+        pow2(Msq)*(2*xDmst12*Dmst12 - pow2(Mst2)) + 5*pow2(Mst1)*(1680*Dmsqst1*(2*
+        xDmst12*Dmst12 - pow2(Mst2)) + pow2(Msq)*(xDmst12*Dmst12*(-20531 + 200*lmMst1 + 1200*
         pow2(lmMst1)) - 8*(1361 + 10*lmMst1 + 54*pow2(lmMst1))*pow2(Mst2))) +
-        Dmglst1*Mst1*(2000*Dmsqst1*(2*Dmst12 - pow2(Mst2)) - pow2(Msq)*(Dmst12*
+        Dmglst1*Mst1*(2000*Dmsqst1*(2*xDmst12*Dmst12 - pow2(Mst2)) - pow2(Msq)*(xDmst12*Dmst12*
         (284641 + 8696*lmMst1 + 1680*pow2(lmMst1)) - 20*(-33261 + 532*lmMst1 +
         660*pow2(lmMst1))*pow2(Mst2)))) + Mt*(4*pow2(Dmglst1)*(360*Dmsqst1*(
-        pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(Msq)*(4*pow2(
+        xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(Msq)*(4*xDmst12*pow2(
         Dmst12)*(-274009 - 964*lmMst1 - 104*lmMt + 8310*pow2(lmMst1)) + Dmst12*
         (515917 + 6972*lmMst1 - 192*lmMt - 11520*pow2(lmMst1))*pow2(Mst2) + 2*(
         32101 - 5044*lmMst1 + 400*lmMt - 5100*pow2(lmMst1))*pow4(Mst2))) +
-        pow2(Mst1)*(100*Dmsqst1*((346 + 288*lmMst1)*pow2(Dmst12) - 161*Dmst12*
-        pow2(Mst2) - 24*(1 + 12*lmMst1)*pow4(Mst2)) + pow2(Msq)*(pow2(Dmst12)*(
+        pow2(Mst1)*(100*Dmsqst1*((346 + 288*lmMst1)*xDmst12*pow2(Dmst12) - 161*Dmst12*
+        pow2(Mst2) - 24*(1 + 12*lmMst1)*pow4(Mst2)) + pow2(Msq)*(xDmst12*pow2(Dmst12)*(
         102747 + 10592*lmMst1 - 640*lmMt - 13888*pow2(lmMst1)) + 20*Dmst12*(-
         2071 - 296*lmMst1 + 96*lmMt + 600*pow2(lmMst1))*pow2(Mst2) - 160*(631 -
         lmMst1 + 36*lmMt + 21*pow2(lmMst1))*pow4(Mst2))) + 16*Dmglst1*Mst1*(
-        4700*Dmsqst1*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(
-        Msq)*(pow2(Dmst12)*(-12383 - 4128*lmMst1 - 80*lmMt + 1260*pow2(lmMst1))
+        4700*Dmsqst1*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(
+        Msq)*(xDmst12*pow2(Dmst12)*(-12383 - 4128*lmMst1 - 80*lmMt + 1260*pow2(lmMst1))
         + Dmst12*(17539 + 574*lmMst1 + 160*lmMt - 1920*pow2(lmMst1))*pow2(Mst2)
         + 5*(-4539 + 596*lmMst1 - 48*lmMt + 516*pow2(lmMst1))*pow4(Mst2))))) +
         2*pow4(Mt)*(-3*pow2(Dmst12)*(4*pow2(Dmglst1)*(84334067 + 120*lmMst1*(
@@ -818,7 +818,7 @@ double H3q22g::getS12() const {
         90000*lmMt + 300*lmMst1*(3781 + 582*lmMt) + 2005200*pow2(lmMst1) +
         43200*pow2(lmMt))*pow2(Msq)) + 15*(2000*Dmsqst1*(65 - 6*lmMst1 + 6*
         lmMt) + (-3454599 + 16840*lmMt + 48*lmMst1*(262 + 405*lmMt) + 46560*
-        pow2(lmMst1))*pow2(Msq))*pow2(Mst1))*pow3(Dmst12) + 40*Dmst12*((3*pow2(
+        pow2(lmMst1))*pow2(Msq))*pow2(Mst1))*xDmst12*pow3(Dmst12) + 40*Dmst12*((3*pow2(
         Dmglst1)*(84334067 + 120*lmMst1*(2843 - 120*lmMt) + 202200*lmMt -
         828000*pow2(lmMst1) - 21600*pow2(lmMt))*pow2(Msq))/10. + 2*Dmglst1*
         Mst1*(30*Dmsqst1*(557 + 120*lmMst1 - 120*lmMt) + (3746977 + 4005*lmMt -
@@ -833,52 +833,52 @@ double H3q22g::getS12() const {
         Dmsqst1*(20 - 3*lmMst1 + 3*lmMt) + (434 - 83*lmMst1 + 174*lmMt - 66*
         lmMst1*lmMt + 183*pow2(lmMst1) + 108*pow2(lmMt))*pow2(Msq))*pow2(Mst1))
         *pow6(Mst2)) + 750*pow3(Mst1)*(-36*shiftst2*(5*Mt*pow2(Dmst12)*(
-        Dmsqst1*(3 - 2*lmMst1) + (1 - 2*lmMst1)*pow2(Msq))*pow2(Mst1)*(2*Dmst12
+        Dmsqst1*(3 - 2*lmMst1) + (1 - 2*lmMst1)*pow2(Msq))*pow2(Mst1)*(2*xDmst12*Dmst12
         - 3*pow2(Mst2))*pow3(s2t) + 120*s2t*pow3(Mt)*((1 - 2*lmMst1)*pow2(Msq)*
-        (Dmst12 + pow2(Mst2))*pow4(Mst2) + Dmsqst1*(-3 + 2*lmMst1)*(pow3(
+        (Dmst12 + pow2(Mst2))*pow4(Mst2) + Dmsqst1*(-3 + 2*lmMst1)*(xDmst12*pow3(
         Dmst12) - Dmst12*pow4(Mst2) - pow6(Mst2)))) + Mt*s2t*(-(((pow2(Dmglst1)
         *(655743 + 5288*lmMst1 - 11820*pow2(lmMst1))*pow2(Msq))/5. + (Dmglst1*
         Mst1*(84209 + 1264*lmMst1 - 240*pow2(lmMst1))*pow2(Msq))/2. - 30*
         Dmsqst1*(7 + 24*lmMst1)*pow2(Mst1) + (1429 - 454*lmMst1 + 24*pow2(
-        lmMst1))*pow2(Msq)*pow2(Mst1))*pow2(s2t)*pow3(Dmst12)) + 180*shiftst1*(
+        lmMst1))*pow2(Msq)*pow2(Mst1))*pow2(s2t)*xDmst12*pow3(Dmst12)) + 180*shiftst1*(
         Dmsqst1*(3 - 2*lmMst1) + (1 - 2*lmMst1)*pow2(Msq))*(pow2(Dmst12)*pow2(
-        Mst1)*(4*Dmst12 - 3*pow2(Mst2))*pow2(s2t) + 24*pow2(Mt)*pow6(Mst2)) -
-        18*shiftst3*pow2(Msq)*(pow2(Dmst12)*pow2(Mst1)*(Dmst12*(-13 + 14*
+        Mst1)*(4*xDmst12*Dmst12 - 3*pow2(Mst2))*pow2(s2t) + 24*pow2(Mt)*pow6(Mst2)) -
+        18*shiftst3*pow2(Msq)*(pow2(Dmst12)*pow2(Mst1)*(xDmst12*Dmst12*(-13 + 14*
         lmMst1) + 3*(1 - 2*lmMst1)*pow2(Mst2))*pow2(s2t) + 8*pow2(Mt)*(6*(-2 +
-        lmMst1)*pow2(Dmst12)*pow2(Mst2) + (14 - 6*lmMst1)*pow3(Dmst12) + 3*
+        lmMst1)*pow2(Dmst12)*pow2(Mst2) + (14 - 6*lmMst1)*xDmst12*pow3(Dmst12) + 3*
         Dmst12*(3 - 2*lmMst1)*pow4(Mst2) + 3*(-1 + 2*lmMst1)*pow6(Mst2))))))) +
         75*(-576*z2*pow5(Mst1)*(-50*Mt*s2t*xDmsqst1*pow2(Dmsqst1)*(s2t*pow2(
         Dmst12)*(2*Mt*MuSUSY*(shiftst1 + shiftst2) + 3*s2t*(-shiftst1 +
         shiftst2)*Tbeta*pow2(Mst1))*pow2(Mst2) + (-8*Mt*MuSUSY*s2t*shiftst2 +
         24*shiftst2*Tbeta*pow2(Mt) + 2*(2*shiftst1 - shiftst2)*Tbeta*pow2(Mst1)
-        *pow2(s2t))*pow3(Dmst12) - 4*Dmst12*Mt*(MuSUSY*s2t*(shiftst1 -
+        *pow2(s2t))*xDmst12*pow3(Dmst12) - 4*Dmst12*Mt*(MuSUSY*s2t*(shiftst1 -
         shiftst2) + 6*Mt*shiftst2*Tbeta)*pow4(Mst2) + 24*(shiftst1 - shiftst2)*
         Tbeta*pow2(Mt)*pow6(Mst2)) + pow2(Msq)*(2*Dmst12*MuSUSY*pow2(Mt)*pow2(
-        s2t)*(2*pow2(Dmst12)*(100*Dmsqst1*shiftst2 + (15*shiftst1 + 10*shiftst2
+        s2t)*(2*xDmst12*pow2(Dmst12)*(100*Dmsqst1*shiftst2 + (15*shiftst1 + 10*shiftst2
         + 9*shiftst3)*pow2(Msq)) - 5*Dmst12*(10*Dmsqst1*(shiftst1 + shiftst2) +
         (10*(shiftst1 + shiftst2) + 3*shiftst3)*pow2(Msq))*pow2(Mst2) + 10*(10*
         Dmsqst1*(shiftst1 - shiftst2) + (10*shiftst1 - 10*shiftst2 + shiftst3)*
         pow2(Msq))*pow4(Mst2)) + 5*shiftst3*Tbeta*pow2(Msq)*(-(Mt*pow2(Dmst12)*
-        pow2(Mst1)*(7*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) + 24*s2t*pow3(Mt)*(-(
-        pow2(Dmst12)*pow2(Mst2)) + pow3(Dmst12) + Dmst12*pow4(Mst2) - pow6(
+        pow2(Mst1)*(7*xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) + 24*s2t*pow3(Mt)*(-(
+        pow2(Dmst12)*pow2(Mst2)) + xDmst12*pow3(Dmst12) + Dmst12*pow4(Mst2) - pow6(
         Mst2))) - 50*Tbeta*(shiftst2*(-(Mt*pow2(Dmst12)*(Dmsqst1 + pow2(Msq))*
-        pow2(Mst1)*(2*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) + 24*s2t*pow3(Mt)*(
-        Dmsqst1*pow3(Dmst12) - (Dmsqst1 + pow2(Msq))*(Dmst12 + pow2(Mst2))*
+        pow2(Mst1)*(2*xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t)) + 24*s2t*pow3(Mt)*(
+        Dmsqst1*xDmst12*pow3(Dmst12) - (Dmsqst1 + pow2(Msq))*(Dmst12 + pow2(Mst2))*
         pow4(Mst2))) + shiftst1*(Dmsqst1 + pow2(Msq))*(Mt*pow2(Dmst12)*pow2(
-        Mst1)*(4*Dmst12 - 3*pow2(Mst2))*pow3(s2t) + 24*s2t*pow3(Mt)*pow6(Mst2))
+        Mst1)*(4*xDmst12*Dmst12 - 3*pow2(Mst2))*pow3(s2t) + 24*s2t*pow3(Mt)*pow6(Mst2))
         ))) + Mt*((32*Mst1*xDmsqst1*pow2(Dmsqst1)*(-20*Dmglst1*Mt*pow2(Mst1)*(-
         (pow2(Dmst12)*pow2(Mst2)*(-100*Mt*s2t*(5*MuSUSY - 141*Mst1*Tbeta) + 4*(
         557 + 120*lmMst1 - 120*lmMt)*Tbeta*pow2(Mt) + 375*Tbeta*pow2(Mst1)*
         pow2(s2t))) + 2*(-50*Mt*s2t*(5*MuSUSY - 141*Mst1*Tbeta) + 2*(557 + 120*
         lmMst1 - 120*lmMt)*Tbeta*pow2(Mt) + 375*Tbeta*pow2(Mst1)*pow2(s2t))*
-        pow3(Dmst12) + 4*Dmst12*Mt*(-125*MuSUSY*s2t + (557 + 120*lmMst1 - 120*
+        xDmst12*pow3(Dmst12) + 4*Dmst12*Mt*(-125*MuSUSY*s2t + (557 + 120*lmMst1 - 120*
         lmMt)*Mt*Tbeta + 3525*Mst1*s2t*Tbeta)*pow4(Mst2) + 100*(44 + 3*lmMst1 -
         3*lmMt)*Tbeta*pow2(Mt)*pow6(Mst2)) - 125*pow3(Mst1)*(-2*pow2(Dmst12)*
         pow2(Mst2)*(-6*s2t*(28*MuSUSY + Mst1*(11 + 36*shiftst2)*Tbeta)*pow2(Mt)
         - 3*Mst1*Mt*(MuSUSY*(7 + 30*shiftst1 + 6*shiftst2 - 12*lmMst1*(-2 +
         shiftst1 + shiftst2)) - 42*Mst1*Tbeta)*pow2(s2t) + Tbeta*(8*(65 - 6*
         lmMst1 + 6*lmMt)*pow3(Mt) - 54*(-2 + lmMst1)*(shiftst1 - shiftst2)*
-        pow3(Mst1)*pow3(s2t))) + pow3(Dmst12)*(-(s2t*(336*MuSUSY - 9*Mst1*(47 +
+        pow3(Mst1)*pow3(s2t))) + xDmst12*pow3(Dmst12)*(-(s2t*(336*MuSUSY - 9*Mst1*(47 +
         96*(lmMst1 + shiftst2 - lmMst1*shiftst2))*Tbeta)*pow2(Mt)) - 12*Mst1*
         Mt*(MuSUSY*(7 + 6*shiftst1 - 24*lmMst1*(-1 + shiftst2) + 30*shiftst2) -
         42*Mst1*Tbeta)*pow2(s2t) + Tbeta*(16*(65 - 6*lmMst1 + 6*lmMt)*pow3(Mt)
@@ -890,44 +890,44 @@ double H3q22g::getS12() const {
         lmMt)*Mt - 54*(-2 + lmMst1)*Mst1*s2t*(shiftst1 - shiftst2))*Tbeta*pow2(
         Mt)*pow6(Mst2)) + 8*Tbeta*pow2(Dmglst1)*pow2(Mt)*(4*Dmglst1*(-1541 +
         420*lmMst1 - 420*lmMt)*Mt*xDmglst1*pow6(Mst2) + 15*Mst1*(-45*Dmst12*
-        Mst1*s2t*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 4*(206 - 15*
+        Mst1*s2t*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + 4*(206 - 15*
         lmMst1 + 15*lmMt)*Mt*pow6(Mst2)))))/5. - 15*z3*(-5040*Dmst12*s2t*
-        xDmsqst1*pow2(Dmsqst1)*(2*Dmst12*Mt*MuSUSY*s2t*pow2(Mst2) + pow2(
+        xDmsqst1*pow2(Dmsqst1)*(2*Dmst12*Mt*MuSUSY*s2t*pow2(Mst2) + xDmst12*pow2(
         Dmst12)*(-4*Mt*MuSUSY*s2t + 15*Tbeta*pow2(Mt) + Tbeta*pow2(Mst1)*pow2(
         s2t)) - 15*Tbeta*pow2(Mt)*pow4(Mst2))*pow5(Mst1) + 32*Mt*xDmglst1*pow3(
-        Dmglst1)*pow4(Msq)*(44*Mt*MuSUSY*(4789*Dmst12*Mst1*s2t*(pow2(Dmst12) -
+        Dmglst1)*pow4(Msq)*(44*Mt*MuSUSY*(4789*Dmst12*Mst1*s2t*(xDmst12*pow2(Dmst12) -
         Dmst12*pow2(Mst2) + pow4(Mst2)) + 1503*Mt*pow6(Mst2)) - 3*Mst1*Tbeta*(
-        52679*pow2(Dmst12)*pow2(Mst1)*(2*Dmst12 - pow2(Mst2))*pow2(s2t) +
-        38236*Dmst12*Mst1*Mt*s2t*(pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)
-        ) + 3*pow2(Mt)*(-71189*pow2(Dmst12)*pow2(Mst2) + 71189*Dmst12*(pow2(
+        52679*pow2(Dmst12)*pow2(Mst1)*(2*xDmst12*Dmst12 - pow2(Mst2))*pow2(s2t) +
+        38236*Dmst12*Mst1*Mt*s2t*(xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)
+        ) + 3*pow2(Mt)*(-71189*pow2(Dmst12)*pow2(Mst2) + 71189*Dmst12*(xDmst12*pow2(
         Dmst12) + pow4(Mst2)) + 35412*pow6(Mst2)))) + Mst1*pow2(Msq)*(Mt*
         MuSUSY*(-2*pow2(Dmst12)*pow2(Mst1)*(20*Dmglst1*(29926*Dmglst1 + 10097*
-        Mst1)*pow2(Msq)*(2*Dmst12 - pow2(Mst2)) - pow2(Mst1)*(5040*Dmsqst1*(2*
-        Dmst12 - pow2(Mst2)) + pow2(Msq)*(37669*Dmst12 + 10296*pow2(Mst2))))*
+        Mst1)*pow2(Msq)*(2*xDmst12*Dmst12 - pow2(Mst2)) - pow2(Mst1)*(5040*Dmsqst1*(2*
+        xDmst12*Dmst12 - pow2(Mst2)) + pow2(Msq)*(37669*xDmst12*Dmst12 + 10296*pow2(Mst2))))*
         pow2(s2t) + Mt*pow2(Msq)*(16*Dmst12*Mst1*s2t*(210810*pow2(Dmglst1)*(
-        pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(Mst1)*(-40594*
-        pow2(Dmst12) + 17285*Dmst12*pow2(Mst2) + 6024*pow4(Mst2)) + Dmglst1*
-        Mst1*(-285974*pow2(Dmst12) + 105405*Dmst12*pow2(Mst2) + 75164*pow4(
+        xDmst12*pow2(Dmst12) - Dmst12*pow2(Mst2) + pow4(Mst2)) + pow2(Mst1)*(-40594*
+        xDmst12*pow2(Dmst12) + 17285*Dmst12*pow2(Mst2) + 6024*pow4(Mst2)) + Dmglst1*
+        Mst1*(-285974*xDmst12*pow2(Dmst12) + 105405*Dmst12*pow2(Mst2) + 75164*pow4(
         Mst2))) + 3*Mt*(-(pow2(Mst1)*(-31963*pow2(Dmst12)*pow2(Mst2) + 131926*
-        pow3(Dmst12) - 68000*Dmst12*pow4(Mst2) - 24064*pow6(Mst2))) + 48*
-        Dmglst1*Mst1*(-8213*pow2(Dmst12)*pow2(Mst2) + 8213*Dmst12*(pow2(Dmst12)
+        xDmst12*pow3(Dmst12) - 68000*Dmst12*pow4(Mst2) - 24064*pow6(Mst2))) + 48*
+        Dmglst1*Mst1*(-8213*pow2(Dmst12)*pow2(Mst2) + 8213*Dmst12*(xDmst12*pow2(Dmst12)
         + pow4(Mst2)) + 4664*pow6(Mst2)) + 96*pow2(Dmglst1)*(-10226*pow2(
-        Dmst12)*pow2(Mst2) + 10226*Dmst12*(pow2(Dmst12) + pow4(Mst2)) + 4715*
+        Dmst12)*pow2(Mst2) + 10226*Dmst12*(xDmst12*pow2(Dmst12) + pow4(Mst2)) + 4715*
         pow6(Mst2))))) - 4*Mst1*Tbeta*(-((5*Dmglst1*(29926*Dmglst1 + 10097*
-        Mst1)*pow2(Msq) - 18*(70*Dmsqst1 - 143*pow2(Msq))*pow2(Mst1))*pow3(
+        Mst1)*pow2(Msq) - 18*(70*Dmsqst1 - 143*pow2(Msq))*pow2(Mst1))*xDmst12*pow3(
         Dmst12)*pow3(Mst1)*pow3(s2t)) - Dmst12*Mst1*s2t*pow2(Mt)*(-(pow2(Mst1)*
-        (pow2(Msq)*(32783*pow2(Dmst12) - 14508*Dmst12*pow2(Mst2) - 15840*pow4(
-        Mst2)) + 1260*Dmsqst1*(22*pow2(Dmst12) - 7*Dmst12*pow2(Mst2) - 8*pow4(
-        Mst2)))) + 24*Dmglst1*pow2(Msq)*(11*Dmglst1*(5777*pow2(Dmst12) - 2607*
-        Dmst12*pow2(Mst2) - 563*pow4(Mst2)) + Mst1*(4744*pow2(Dmst12) - 3821*
+        (pow2(Msq)*(32783*xDmst12*pow2(Dmst12) - 14508*Dmst12*pow2(Mst2) - 15840*pow4(
+        Mst2)) + 1260*Dmsqst1*(22*xDmst12*pow2(Dmst12) - 7*Dmst12*pow2(Mst2) - 8*pow4(
+        Mst2)))) + 24*Dmglst1*pow2(Msq)*(11*Dmglst1*(5777*xDmst12*pow2(Dmst12) - 2607*
+        Dmst12*pow2(Mst2) - 563*pow4(Mst2)) + Mst1*(4744*xDmst12*pow2(Dmst12) - 3821*
         Dmst12*pow2(Mst2) + 2898*pow4(Mst2)))) + pow2(Msq)*(3*Mt*pow2(Dmst12)*
-        pow2(Mst1)*(210810*pow2(Dmglst1)*(2*Dmst12 - pow2(Mst2)) - pow2(Mst1)*(
-        11261*Dmst12 + 6024*pow2(Mst2)) - Dmglst1*Mst1*(30241*Dmst12 + 75164*
+        pow2(Mst1)*(210810*pow2(Dmglst1)*(2*xDmst12*Dmst12 - pow2(Mst2)) - pow2(Mst1)*(
+        11261*xDmst12*Dmst12 + 6024*pow2(Mst2)) - Dmglst1*Mst1*(30241*xDmst12*Dmst12 + 75164*
         pow2(Mst2)))*pow2(s2t) + 2*pow3(Mt)*(1404*pow2(Dmglst1)*(-1065*pow2(
-        Dmst12)*pow2(Mst2) + 1065*pow3(Dmst12) + 1065*Dmst12*pow4(Mst2) + 512*
-        pow6(Mst2)) + pow2(Mst1)*(51181*pow2(Dmst12)*pow2(Mst2) - 152018*pow3(
+        Dmst12)*pow2(Mst2) + 1065*xDmst12*pow3(Dmst12) + 1065*Dmst12*pow4(Mst2) + 512*
+        pow6(Mst2)) + pow2(Mst1)*(51181*pow2(Dmst12)*pow2(Mst2) - 152018*xDmst12*pow3(
         Dmst12) + 49656*Dmst12*pow4(Mst2) + 10176*pow6(Mst2)) + 4*Dmglst1*Mst1*
-        (86833*pow2(Dmst12)*pow2(Mst2) - 287078*pow3(Dmst12) + 113412*Dmst12*
+        (86833*pow2(Dmst12)*pow2(Mst2) - 287078*xDmst12*pow3(Dmst12) + 113412*Dmst12*
         pow4(Mst2) + 47112*pow6(Mst2))))))))))))/(3.888e6*Tbeta*pow4(Msq)*pow5(
         Mst1)*pow6(Mst2));
 }
-- 
2.43.0


From 7a8fb6c0fd2ebd004cee9cf5b38fdfaa38d3499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 4/5] fix: keep the O(at^2) EFT contribution for vanishing
 bottom mass

The EFT calculator switched off YT6, the pure O(at^2) order, when Mb = 0, so the
two-loop EFT result lost a term that does not depend on Mb.
---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index b966552..3537aa9 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -99,7 +99,6 @@ Mh2EFTCalculator::Mh2EFTCalculator(const himalaya::Parameters& p_, bool verbose)
         setCorrectionFlag(CouplingOrders::YT2YB4  , 0);
         setCorrectionFlag(CouplingOrders::YB2YT4  , 0);
         setCorrectionFlag(CouplingOrders::YTAU4YB2, 0);
-        setCorrectionFlag(CouplingOrders::YT6     , 0);
     }
 
     if (std::abs(p.Mtau) < eps) {
-- 
2.43.0


From 63c3af0ef2b64fa8694293dff39d400590d4b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 5/5] fix: threshold loop function phi(x,y,z) is dimensionless

The threshold corrections of LAMBDA_YT6, LAMBDA_YB6, LAMBDA_YTAU6,
LAMBDA_YT4_YB2, LAMBDA_YT2_YB4 use the Davydychev-Tausk function
Phi(x/z, y/z), but phi_xyz() returned it multiplied by
z*lambda^2(x/z, y/z)/2, which has mass dimension 2.
---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e53cc78..79b8582 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1398,9 +1398,9 @@ namespace {
  */
 double phi_xyz(double x, double y, double z) noexcept
 {
-   sort(x, y, z);
    const auto u = x/z, v = y/z;
-   return phi_uv(u,v)*z*lambda_2(u, v)/2;
+
+   return phi_uv(u,v);
 }
 
 } // namespace threshold_loop_functions
-- 
2.43.0

