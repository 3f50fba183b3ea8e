From e70dbc93a78c28b8c6b8afdc61f4fadfa27aeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 01/39] fix: sign of the highest-order term in the expansion of
 F6(x) around x = 1

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e53cc78..e1fb435 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -184,7 +184,7 @@ double F6(double x) noexcept
 
    if (is_equal(x2, 1., 0.01)) {
       const double d = (x - 1)*(x + 1);
-      return d*(1/3. + d*(-1/8. + d*(1/15. + d/24.)));
+      return d*(1/3. + d*(-1/8. + d*(1/15. - d/24.)));
    }
 
    return (x2 - 3)/(4*(1 - x2)) + x2*(x2 - 2)/(2*sqr(1 - x2))*std::log(x2);
-- 
2.43.0


From f56a79fc8ba7bd1720779fdfc707085bc7a2d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 02/39] fix: sign of the linear term of F9(x1,x2) in the limit
 x1 -> 1, x2 -> 0

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e1fb435..2fa6f5c 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -369,7 +369,7 @@ static double F9_1_x2(double x1, double x2) noexcept
    const double lx22 = std::log(x22);
 
    if (is_zero(x2, 0.01)) {
-      return 2 + d;
+      return 2 - d;
    }
 
    return
-- 
2.43.0


From 3fb7160b6120dcf6ad4de81f04ef9ab53b01e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 03/39] fix: f6(r1,r2) is nan for r2 = 0 and small, non-zero r1

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 2fa6f5c..27714fd 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -725,6 +725,10 @@ static double f6_0_0(double r1, double r2) noexcept
       return 0.;
    }
 
+   if (std::abs(r1) > std::abs(r2)) {
+      std::swap(r1, r2);
+   }
+
    const double r22 = sqr(r2);
    const double lr22 = std::log(r22);
 
-- 
2.43.0


From ce531e51b68b13d778fdb40da0a8383b91ed6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 04/39] fix: f5-f8 are singular (nan or cancellation) for an
 argument at -1

---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 125 +++++++++++++++++-
 1 file changed, 124 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 27714fd..2a951d7 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -670,6 +670,21 @@ static double f5_r1_r2(double r1, double r2) noexcept
    );
 }
 
+/// f5(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f5_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+   const double d12 = sqr(d1);
+   const double d22 = sqr(d2);
+
+   return 0.75
+      + 1./8.*(d1 - d2)
+      + 1./8.*(d12 + d1*d2 + d22)
+      + 1./20.*(-d1*d12 + d2*d22)
+      - 1./40.*d1*d2*(d12 + d22);
+}
+
 double f5(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -687,6 +702,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f5_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f5_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., eps_one)) {
       return f5_1_r2(r1, r2);
    }
@@ -695,6 +718,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f5_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f5_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f5_0_r2(r1, r2);
    }
@@ -841,6 +872,21 @@ static double f6_r1_r2(double r1, double r2) noexcept
       );
 }
 
+/// f6(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f6_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+   const double d12 = sqr(d1);
+   const double d22 = sqr(d2);
+
+   return 3./7.
+      + 2./7.*(d1 - d2)
+      + 1./7.*(d12 + 2*d1*d2 + d22)
+      + 1./10.*(-d1*d12 + d2*d22) + 1./14.*d1*d2*(-d1 + d2)
+      + 3./70.*(sqr(d12) + sqr(d22)) - 1./70.*d1*d2*(d12 + 5*d1*d2 + d22);
+}
+
 double f6(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -857,6 +903,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., 0.02) && is_equal(r2, -1., 0.02)) {
+      return f6_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., 0.02) && is_equal(r2, 1., 0.02)) {
+      return f6_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., 0.001)) {
       return f6_1_r2(r1, r2);
    }
@@ -865,6 +919,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., 0.001)) {
+      return f6_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., 0.001)) {
+      return f6_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f6_0_r2(r1, r2);
    }
@@ -1011,6 +1073,21 @@ static double f7_r1_r2(double r1, double r2) noexcept
    return 6*res;
 }
 
+/// f7(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f7_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+   const double d12 = sqr(d1);
+   const double d22 = sqr(d2);
+
+   return 3
+      - d1 + d2
+      - d1*d2
+      + 0.3*(d1*d12 - d2*d22) + 0.5*d1*d2*(d1 - d2)
+      - 0.3*(sqr(d12) + sqr(d22)) + 0.1*d1*d2*(-d12 + 5*d1*d2 - d22);
+}
+
 double f7(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -1028,6 +1105,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f7_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f7_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., eps_one)) {
       return f7_1_r2(r1, r2);
    }
@@ -1036,6 +1121,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f7_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f7_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f7_0_r2(r1, r2);
    }
@@ -1187,6 +1280,20 @@ static double f8_r1_r2(double r1, double r2) noexcept
       + d4*(-3 + r22*(-285 - 90*lr22 + r22*(-570 - 630*lr22 + r22*(570 - 630*lr22 + r22*(285 - 90*lr22 + 3*r22)))))/(5.*r2*y7);
 }
 
+/// f8(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f8_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+   const double d12 = sqr(d1);
+   const double d22 = sqr(d2);
+
+   return 0.5*(d1 + d2)
+      + 0.25*(-d12 + d22)
+      + 3./40.*(d1*d12 + d2*d22) - 1./8.*d1*d2*(d1 + d2)
+      + 0.1*d1*d2*(d12 - d22);
+}
+
 double f8(double r1, double r2) noexcept
 {
    const double eps_zero = 5e-5;
@@ -1201,7 +1308,15 @@ double f8(double r1, double r2) noexcept
    }
 
    if (is_equal(r1, -1., eps_one) && is_equal(r2, -1., eps_one)) {
-      return -1.;
+      return -f8_1_1(-r1, -r2);
+   }
+
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f8_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f8_1_m1(r2, r1);
    }
 
    if (is_equal(r1, 1., eps_one)) {
@@ -1212,6 +1327,14 @@ double f8(double r1, double r2) noexcept
       return f8_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return -f8_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return -f8_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f8_0_r2(r1, r2);
    }
-- 
2.43.0


From 23aeed45ef0d07a77c743975611ccfca42fcea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 05/39] fix: normalisation of Phi(x,y,z) in the 2-loop
 threshold corrections

The threshold corrections were derived with the dimensionless function
phi(x/z,y/z).  threshold_loop_functions::phi_xyz() returns the symmetric
function of mass dimension two, Delta(x,y,z)/(2z) phi(x/z,y/z), so the
corrections diverged for degenerate sfermion masses.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f26414e..9f2bfad 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -14,6 +14,7 @@
 #include "himalaya/misc/Numerics.hpp"
 #include "himalaya/misc/Powers.hpp"
 #include "himalaya/misc/RAII.hpp"
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <limits>
@@ -111,6 +112,10 @@ double deltaxyz(double x, double y, double z) noexcept
  *
  * Davydychev and Tausk, Nucl. Phys. B397 (1993) 23
  *
+ * @note This is the dimensionless function \f$\phi(x/z,y/z)\f$,
+ * which is related to threshold_loop_functions::phi_xyz() by a factor
+ * \f$2z/\Delta(x,y,z)\f$.
+ *
  * @param x squared mass
  * @param y squared mass
  * @param z squared mass
@@ -119,7 +124,16 @@ double deltaxyz(double x, double y, double z) noexcept
  */
 double phixyz(double x, double y, double z) noexcept
 {
-   return threshold_loop_functions::phi_xyz(x, y, z);
+   const double m = std::max(x, std::max(y, z));
+   const double u = x/m, v = y/m, w = z/m;
+   const double lambda2 = deltaxyz(u, v, w);
+
+   if (std::abs(lambda2) < 1e-8) {
+      const double su = std::sqrt(u), sv = std::sqrt(v), sw = std::sqrt(w);
+      return -w*(su*std::log(u) + sv*std::log(v) + sw*std::log(w))/(su*sv*sw);
+   }
+
+   return 2*w*threshold_loop_functions::phi_xyz(u, v, w)/lambda2;
 }
 
 } // anonymous namespace
-- 
2.43.0


From 0c5d19c773c2ccc256a62134a9d8ab417930d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 06/39] fix: logarithm of the shifted stop mass in the O(at^2)
 threshold correction

The masses are shifted to avoid the degenerate limit, but log(mQ3^2/Q^2)
was calculated from the unshifted mass, which spoils the cancellation of
the 1/(mQ3^2-mU3^2)^n poles.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 9f2bfad..a666a36 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1404,7 +1404,6 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt4 = pow2(Xt2);
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
-   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
 
    if (is_equal_rel(mQ32, mU32, 0.1) &&
        (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
@@ -1417,6 +1416,7 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double mU3 = std::sqrt(mU32);
    const double Mu = p.mu * std::sqrt(1.03);
    const double Mu2 = pow2(Mu);
+   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR = omitLogs*std::log(Mu2 / MR2);
 
    return (18*pow2(cbeta)*pow2(log(mA2/MR2)))/pow2(sbeta) - (288*Yt*pow2(cbeta)*
-- 
2.43.0


From 155daa4e3d245cd8a0122394e9b421799151d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 07/39] fix: normalisation of the degenerate-mass limits of the
 2-loop bottom and tau corrections

The limits are given in terms of the MSSM Yukawa couplings, while the
general case (and the caller) uses the Standard Model ones; the tau^6
limit was in addition too large by the colour factor.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index a666a36..816850e 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1115,7 +1115,7 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
         + 0.025041919999999957*pow2(sbeta)*pow2(Yb))*pow4(M) - 
         0.0041457066666666705*pow2(sbeta)*pow2(Yb)*pow4(Xb) + (0.8 + pow2(
         cbeta) - 0.6699863197821283*pow2(sbeta))*pow6(M) - 0.06666666666666667*
-        pow2(cbeta)*pow6(Xb)))/pow6(M);
+        pow2(cbeta)*pow6(Xb)))/(pow6(M)*pow6(cbeta));
    }
 
    return 3*(10 - 5/pow2(cbeta) - (2*mD32)/(mQ32*pow2(cbeta)) - (4*mQ32)/(mD32*
@@ -1820,7 +1820,7 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
      + lMS*(-30. + 58.5*pow2(sbe))) + (54. - 9.75*lMS + 18.*pow2(lMS))
      *pow4(cbe) + lMS*(-2.25 + 30.*pow2(sbe) - 9.75*pow4(sbe)))*pow6(M)
      + (lMS*(1.5 - 1.5*pow2(sbe)) + pow2(cbe)*(1.5*lMS - 0.12437120000000013
-     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau)))/pow6(M);
+     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau)))/(3.*pow6(M)*pow6(cbe));
    }
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
@@ -2254,7 +2254,7 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         8.407868305684794*Xb2 + Xt*(8.96939551822411*Xt - 7.0078102449377395*Yb
         - 7.0078102449377395*Yt) + Xb*(-7.0078102449377395*Xt + 
         5.0462249716513705*Yb + 5.0462249716513705*Yt))*pow2(sbeta)*pow4(M) + (
-        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
+        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow2(sbeta)*pow4(cbeta));
    }
 
    return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
@@ -2654,7 +2654,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(sbeta) + Xb2*(-2.2423488795560274 + 8.96939551822411*pow2(sbeta))
         + Xt*((5.0462249716513705*Yb + 5.0462249716513705*Yt)*pow2(sbeta) + Xt*
         (-2.2423488795560274 + 9.530922730763425*pow2(sbeta))))*pow4(M) + (-
-        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
+        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow4(sbeta)*pow2(cbeta));
    }
 
    return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
-- 
2.43.0


From 3e0632c7a6cc87d9b6829a63139328f301d74359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 08/39] fix: constant term of the O(at^2 ab) threshold
 correction

The general case must approach the degenerate-mass limit, and agree with
the O(at ab^2) correction under the exchange of stops and sbottoms where
the 1-loop threshold corrections vanish.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 816850e..87b6393 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2657,7 +2657,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow4(sbeta)*pow2(cbeta));
    }
 
-   return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
+   return -6 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
         mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*std::abs(Mu)*(dilog(1 - Mu2/mQ32) -
         dilog(1 - Mu2/mU32)))/(cbeta*(mQ32 - mU32)*sbeta) - 9/pow2(cbeta) - (6*
-- 
2.43.0


From 96f2437ad6247aceb3d031d90a9d33509061cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 09/39] fix: dependence of the O(at ab^2) and O(at^2 ab)
 corrections on the sign of mu

Terms odd in mu were calculated from |mu|, so that the corrections were
not invariant under (mu, At, Ab) -> (-mu, -At, -Ab) and wrong for
mu < 0.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 107 +++++++++---------
 1 file changed, 52 insertions(+), 55 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 87b6393..721d883 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2257,8 +2257,8 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow2(sbeta)*pow4(cbeta));
    }
 
-   return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
-        mD32 - mQ32)*sbeta) + (48*Xt*std::abs(Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
+   return -6 + (48*Xb*Mu*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
+        mD32 - mQ32)*sbeta) + (48*Xt*Mu*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
         - Mu2/mQ32) + (mQ32 - Mu2)*(Mu2 + mU32)*dilog(1 - Mu2/mU32)))/(cbeta*(-
         mQ32 + Mu2)*(mQ32 - mU32)*(Mu2 - mU32)*sbeta) - (24*dilog(1 - Mu2/mD32)
         )/pow2(cbeta) + 8*pow2(Pi) + 12*dilog(1 - Mu2/mQ32)*(-2/pow2(cbeta) +
@@ -2267,15 +2267,15 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         - Mu2/mU32))/pow2(sbeta) + (3*pow2(cbeta))/pow2(sbeta) - (6*mA2*pow2(
         cbeta))/(mQ32*pow2(sbeta)) + (2*pow2(cbeta)*pow2(Pi))/pow2(sbeta) - (6*
         pow2(cbeta)*pow2(Yt))/(mQ32*pow2(sbeta)) + (24 + (6*pow2(cbeta))/pow2(
-        sbeta))*pow2(log(mA2/MR2)) + (48*((-mD32 - mQ32 + 2*Mu2)*sbeta*std::abs(Mu)*
-        dilog(1 - Mu2/mD32) + (mD32 + mQ32 - 2*Mu2)*sbeta*std::abs(Mu)*dilog(1 -
-        Mu2/mQ32) - 2*(mD32 - mQ32)*(2*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(
+        sbeta))*pow2(log(mA2/MR2)) + (48*((-mD32 - mQ32 + 2*Mu2)*sbeta*Mu*
+        dilog(1 - Mu2/mD32) + (mD32 + mQ32 - 2*Mu2)*sbeta*Mu*dilog(1 -
+        Mu2/mQ32) - 2*(mD32 - mQ32)*(2*sbeta*Mu + cbeta*(Yb + Yt)*pow2(
         sbeta) + Yt*pow3(cbeta)))*pow3(Xb))/(cbeta*pow2(sbeta)*pow3(mD32 -
         mQ32)) - (24*dilog(1 - Mu2/mU32)*pow4(Mu))/(pow2(Mu2 - mU32)*pow2(
-        sbeta)) + pow2(log(mU32/mQ32))*((24*(Mu2 + mU32)*Xt*std::abs(Mu))/(cbeta*(
+        sbeta)) + pow2(log(mU32/mQ32))*((24*(Mu2 + mU32)*Xt*Mu)/(cbeta*(
         Mu2 - mU32)*(-mQ32 + mU32)*sbeta) - (6*Xt2*(2*mU32 + 3*(mQ32 - mU32 +
         Xb2)*pow2(cbeta)))/(pow2(cbeta)*pow2(mQ32 - mU32)) + (6 - (12*pow4(Mu))
-        /pow2(Mu2 - mU32))/pow2(sbeta)) + 6*pow2(lmQ3MR)*(3 + (8*pow(Mu2,1.5)
+        /pow2(Mu2 - mU32))/pow2(sbeta)) + 6*pow2(lmQ3MR)*(3 + (8*pow3(Mu)
         *Xt)/(cbeta*(-mQ32 + Mu2)*(Mu2 - mU32)*sbeta) + (2*(-1 + pow2(sbeta)))/
         pow2(cbeta) + pow2(cbeta)/pow2(sbeta) + (2 - (2*pow4(Mu))/pow2(Mu2 -
         mU32))/pow2(sbeta)) + (12*Xb2*(3*mD32*mQ32*pow2(cbeta) - 2*mD32*Mu2*
@@ -2295,10 +2295,10 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         (mD32 - Mu2)*pow2(cbeta)) + 1/(mQ32*pow2(sbeta))))/(mD32 - mQ32) - (2/
         mQ32 + (Mu2 + 2*mU32)/pow2(Mu2 - mU32))/pow2(sbeta) + (2*(mD32 + 2*
         mQ32)*pow4(Xb))/(mQ32*pow2(sbeta)*pow3(-mD32 + mQ32))) + 6*pow2(log(
-        mD32/mQ32))*((4*Xb*std::abs(Mu))/(cbeta*mD32*sbeta - cbeta*mQ32*sbeta) - 2/
+        mD32/mQ32))*((4*Xb*Mu)/(cbeta*mD32*sbeta - cbeta*mQ32*sbeta) - 2/
         pow2(cbeta) + (2*Xb2*((mD32 - Mu2)*pow2(cbeta) + mQ32*pow2(sbeta)))/(
         pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) - (4*(mD32 + mQ32 - 2*Mu2)*
-        std::abs(Mu)*pow3(Xb))/(cbeta*sbeta*pow3(mD32 - mQ32)) - ((mD32 + 2*mQ32 -
+        Mu*pow3(Xb))/(cbeta*sbeta*pow3(mD32 - mQ32)) - ((mD32 + 2*mQ32 -
         3*Mu2)*(mD32 - Mu2)*pow4(Xb))/(pow2(sbeta)*pow4(mD32 - mQ32))) + (6*
         phixyz(mA2,mU32,mD32)*((2*Xb*Yt*(pow2(cbeta) + pow2(sbeta))*(-3*mD32*
         mU32 - mA2*(3*mD32 + 2*mU32) + pow4(mA) + 2*pow4(mD3) + pow4(mU3)))/((
@@ -2405,13 +2405,13 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         pow2(cbeta)*pow3(-mD32 + mQ32)))))/pow4(mQ3) + lmQ3MR*((-6*(mD32 - mQ32
         + Xb2)*(mQ32 - mU32 + Xt2)*pow2(mA2 + mD32 - mQ32)*pow2(sbeta)*pow2(Yb)
         )/(mD32*(mD32 - mQ32)*(mQ32 - mU32)*deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)
-        ) + (48*(2*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)
+        ) + (48*(2*sbeta*Mu + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)
         )*pow3(Xb))/(cbeta*pow2(mD32 - mQ32)*pow2(sbeta)) + (6*Xb2*(4 + (-4 - (
         2*mU32)/mQ32)/pow2(sbeta) + (-(Mu2*pow2(sbeta)*pow2(Yb)) + mD32*(-2*
         Mu2*(1 + pow2(sbeta)) + pow2(sbeta)*pow2(Yb)) + 2*(-1 + pow2(sbeta))*
         pow4(mD3))/(mD32*(mD32 - Mu2)*pow2(cbeta)) + (pow2(cbeta)*((mA2 - mU32)
         *pow2(Yt) + 2*pow4(mQ3)))/(pow2(sbeta)*pow4(mQ3))))/(mD32 - mQ32) + (
-        12*lmUMR*((-4*pow(Mu2,1.5)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-mQ32 +
+        12*lmUMR*((-4*pow3(Mu)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-mQ32 +
         Mu2)) + pow4(Mu)))/(pow2(Mu2 - mU32)*pow2(sbeta)) + 3*((8*Mu2*(1/(-mD32
         + Mu2) + 1/(-mQ32 + Mu2)) + 2*pow2(sbeta)*(-4 + pow2(Yb)/mD32))/pow2(
         cbeta) - (pow2(cbeta)*((mA2 - mU32)*pow2(Yt) + 4*pow4(mQ3)))/(pow2(
@@ -2435,12 +2435,12 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         sbeta))*pow6(mQ3))/(mQ32*(mQ32 - Mu2))))/(pow2(cbeta)*pow2(mQ32 - mU32)
         ))) + log(mU32/mQ32)*((6*Xb2*((-mA2 + mU32)*pow2(cbeta)*pow2(Yt) + 2*
         mQ32*(mU32 + pow2(cbeta)*pow2(Yt))))/((-mD32 + mQ32)*pow2(sbeta)*pow4(
-        mQ3)) + (12*lmUMR*((-4*pow(Mu2,1.5)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-
+        mQ3)) + (12*lmUMR*((-4*pow3(Mu)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-
         mQ32 + mU32)) + pow4(Mu)))/(pow2(Mu2 - mU32)*pow2(sbeta)) + (3*((2*(
         mU32 + pow2(cbeta)*pow2(Yt)))/mQ32 + ((-mA2 + mU32)*pow2(cbeta)*pow2(
         Yt))/pow4(mQ3) + (2*(2*Mu2*mU32 + pow4(mU3)))/pow2(Mu2 - mU32)))/pow2(
         sbeta) + 6*lmQ3MR*(2 + pow2(sbeta)/pow2(cbeta) + (2*Xt*(4*cbeta*(Mu2 +
-        mU32)*std::abs(Mu) + (Mu2 - mU32)*sbeta*(Xb + Yb + Yt)*pow2(cbeta) + (Mu2 -
+        mU32)*Mu + (Mu2 - mU32)*sbeta*(Xb + Yb + Yt)*pow2(cbeta) + (Mu2 -
         mU32)*(Xb + Yb)*pow3(sbeta)))/((mQ32 - mU32)*(-Mu2 + mU32)*sbeta*pow2(
         cbeta)) + (2 + pow2(cbeta) - (4*pow4(Mu))/pow2(Mu2 - mU32))/pow2(sbeta)
         - (Xt2*(mQ32*(2*mU32*(1 + 5*pow2(cbeta)) + (mA2 - Yb*(2*Xb + Yb))*pow2(
@@ -2467,15 +2467,15 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         cbeta) - pow2(cbeta)/pow2(sbeta)) - (12*(mA2 + mD32 - mQ32)*(mD32 -
         mQ32 + Xb2)*(mQ32 - mU32 + Xt2)*pow2(sbeta)*pow2(Yb))/((mD32 - mQ32)*(
         mQ32 - mU32)*deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)) - (24*Xb*(2*sbeta*
-        std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)))/(cbeta*(mD32 -
-        mQ32)*pow2(sbeta)) + (24*(3*mD32 + mQ32)*(2*sbeta*std::abs(Mu) + cbeta*(Yb +
+        Mu + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)))/(cbeta*(mD32 -
+        mQ32)*pow2(sbeta)) + (24*(3*mD32 + mQ32)*(2*sbeta*Mu + cbeta*(Yb +
         Yt)*pow2(sbeta) + Yt*pow3(cbeta))*pow3(Xb))/(cbeta*pow2(sbeta)*pow3(
         mD32 - mQ32)) - (12*Xb2*(-((mD32 - Mu2)*pow2(cbeta)*(2*Mu2 - mU32 + 3*
         mD32*(-1 + pow2(sbeta)) + mQ32*pow2(sbeta))) + (mD32 - Mu2)*(mA2 - mD32
         - mQ32 + pow2(Yt))*pow4(cbeta) + pow2(sbeta)*(mQ32*Mu2*(-2 + pow2(
         sbeta)) + mD32*(-mQ32 + Mu2)*pow2(sbeta) - (-2 + pow2(sbeta))*pow4(mD3)
         )))/((mD32 - Mu2)*pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) + (12*
-        lmUMR*pow3(Xb)*(-8*mD32*pow(Mu2,1.5)*sbeta + 8*mQ32*pow(Mu2,1.5)*
+        lmUMR*pow3(Xb)*(-8*mD32*pow3(Mu)*sbeta + 8*mQ32*pow3(Mu)*
         sbeta + 3*cbeta*Xb*pow4(Mu)))/(cbeta*pow2(sbeta)*pow4(mD32 - mQ32)) + (
         12*(mQ32*(-2*Mu2 + mU32 + mQ32*pow2(sbeta)) + mD32*(-7*Mu2 + 2*mU32 +
         mQ32*(3 + 6*pow2(sbeta))) + pow2(cbeta)*(mA2*(2*mD32 + mQ32) + (5*mD32
@@ -2496,13 +2496,13 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         sbeta)*pow4(mD32 - mQ32)) + (6*lmQ3MR*(2*(mD32 - mQ32)*Xb*Xt*pow2(
         sbeta)*(-2*Xb2*Yb*Yt*pow2(cbeta) + pow2(mD32 - mQ32)*(pow2(cbeta) +
         pow2(sbeta)) - (mD32 - mQ32)*Xb*((Yb - Yt)*pow2(cbeta) + Yb*pow2(sbeta)
-        )) + 2*cbeta*(mD32 - mQ32)*(8*pow(Mu2,1.5)*sbeta + 2*cbeta*(-(mU32*
+        )) + 2*cbeta*(mD32 - mQ32)*(8*pow3(Mu)*sbeta + 2*cbeta*(-(mU32*
         Yt) + mA2*(Yb + Yt))*pow2(sbeta) + 2*(mA2 - mU32)*Yt*pow3(cbeta) -
-        mD32*(4*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)) -
-        mQ32*(4*sbeta*std::abs(Mu) + cbeta*(3*Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))
+        mD32*(4*sbeta*Mu + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)) -
+        mQ32*(4*sbeta*Mu + cbeta*(3*Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))
         )*pow3(Xb) + pow4(mD32 - mQ32)*(-2*pow2(sbeta) + 2*pow2(cbeta)*pow2(
         sbeta) + pow4(cbeta) + pow4(sbeta)) + 2*Xb*pow3(mD32 - mQ32)*(4*cbeta*
-        sbeta*std::abs(Mu) + (Yb + Yt)*pow2(cbeta)*pow2(sbeta) + Yt*pow4(cbeta) +
+        sbeta*Mu + (Yb + Yt)*pow2(cbeta)*pow2(sbeta) + Yt*pow4(cbeta) +
         Yb*pow4(sbeta)) - Xb2*pow2(mD32 - mQ32)*(mQ32*(-2 + pow2(sbeta))*pow2(
         sbeta) + 2*pow2(cbeta)*(2*Mu2 - mU32 - 2*mQ32*pow2(sbeta) + mU32*pow2(
         sbeta) + mD32*(-2 + 3*pow2(sbeta))) + (-mA2 + mQ32 + mU32 - pow2(Yt))*
@@ -2657,9 +2657,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow4(sbeta)*pow2(cbeta));
    }
 
-   return -6 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
+   return -6 + (48*Xb*Mu*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
-        mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*std::abs(Mu)*(dilog(1 - Mu2/mQ32) -
+        mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*Mu*(dilog(1 - Mu2/mQ32) -
         dilog(1 - Mu2/mU32)))/(cbeta*(mQ32 - mU32)*sbeta) - 9/pow2(cbeta) - (6*
         mD32)/(mQ32*pow2(cbeta)) + (6*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (12*
         Mu2)/(mQ32*pow2(cbeta)) + 8*pow2(Pi) + 12*dilog(1 - Mu2/mQ32)*(1/pow2(
@@ -2668,9 +2668,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(Pi)*pow2(sbeta))/pow2(cbeta) + 6*pow2(lmQ3MR)*(3 + (2*(-1 + pow2(
         cbeta)))/pow2(sbeta) + pow2(sbeta)/pow2(cbeta)) - (6*pow2(sbeta)*pow2(
         Yb))/(mQ32*pow2(cbeta)) + (24 + (6*pow2(sbeta))/pow2(cbeta))*pow2(log(
-        mA2/MR2)) + (48*(cbeta*(-mQ32 + 2*Mu2 - mU32)*std::abs(Mu)*dilog(1 - Mu2/
-        mQ32) + cbeta*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu)*dilog(1 - Mu2/mU32) - 2*(
-        mQ32 - mU32)*(2*cbeta*std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(
+        mA2/MR2)) + (48*(cbeta*(-mQ32 + 2*Mu2 - mU32)*Mu*dilog(1 - Mu2/
+        mQ32) + cbeta*(mQ32 - 2*Mu2 + mU32)*Mu*dilog(1 - Mu2/mU32) - 2*(
+        mQ32 - mU32)*(2*cbeta*Mu + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(
         sbeta)))*pow3(Xt))/(sbeta*pow2(cbeta)*pow3(mQ32 - mU32)) - (6*Xb2*(4*
         mD32*mQ32 + 4*mD32*mQ32*dilog(1 - Mu2/mD32) - 4*mD32*mQ32*dilog(1 -
         Mu2/mQ32) - 4*mD32*mQ32*pow2(cbeta) - 6*mD32*mQ32*pow2(sbeta) + 6*(mD32
@@ -2696,7 +2696,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Xb2*pow2(cbeta)*pow2(Yt) - (mD32 - mQ32)*(-(mA2*pow2(cbeta)*pow2(Yt)) +
         mQ32*(-2*mU32*pow2(sbeta) + 5*pow2(cbeta)*pow2(Yt)) + 2*pow2(sbeta)*
         pow4(mQ3))))/((mD32 - mQ32)*pow2(mQ32 - mU32)*pow2(sbeta)*pow4(mQ3))) +
-        6*pow2(log(mD32/mQ32))*((-4*(mD32 + Mu2)*Xb*std::abs(Mu))/(cbeta*(mD32 -
+        6*pow2(log(mD32/mQ32))*((-4*(mD32 + Mu2)*Xb*Mu)/(cbeta*(mD32 -
         mQ32)*(mD32 - Mu2)*sbeta) - (2*mD32*Xb2)/(pow2(mD32 - mQ32)*pow2(sbeta)
         ) + (-2*mD32*Mu2 + pow4(mD3) - pow4(Mu))/(pow2(cbeta)*pow2(mD32 - Mu2))
         ) + (12*dilog(1 - Mu2/mD32)*(-2*mD32*Mu2 + pow4(mD3) - pow4(Mu)))/(
@@ -2704,15 +2704,14 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Mu2)/pow2(mD32 - Mu2))/pow2(cbeta)) + (4*(1/(mQ32 - Mu2) + 1/(-Mu2 +
         mU32)))/pow2(sbeta)) + (4*Mu2*Xb2)/((mD32 - mQ32)*(-mQ32 + Mu2)*pow2(
         sbeta)) + 4*Mu2*Xt2*(1/((mQ32 - mU32)*(Mu2 - mU32)*pow2(sbeta)) - 1/(
-        pow2(cbeta)*(-(mQ32*mU32) + pow4(mQ3)))) + (2*Xt4*((4*cbeta*pow(Mu2,
-        1.5)*(-mD32 + Mu2)*(mQ32 - mU32)*Xb)/((-mQ32 + Mu2)*sbeta) + (Mu2*(2*
+        pow2(cbeta)*(-(mQ32*mU32) + pow4(mQ3)))) + (2*Xt4*((4*cbeta*pow3(Mu)*(-mD32 + Mu2)*(mQ32 - mU32)*Xb)/((-mQ32 + Mu2)*sbeta) + (Mu2*(2*
         mQ32 + mU32)*pow4(mD3) - 2*mD32*(2*mQ32 + mU32)*pow4(Mu) + (Mu2*mU32 +
         mQ32*(2*Mu2 + mU32) - pow4(mQ3))*pow4(Mu))/mQ32))/(pow2(cbeta)*pow2(
-        mD32 - Mu2)*pow3(mQ32 - mU32))) + 6*pow2(log(mU32/mQ32))*((-4*Xt*std::abs(
-        Mu))/(cbeta*mQ32*sbeta - cbeta*mU32*sbeta) - 2/pow2(sbeta) + (Xt2*(2*(-
+        mD32 - Mu2)*pow3(mQ32 - mU32))) + 6*pow2(log(mU32/mQ32))*((-4*Xt*
+        Mu)/(cbeta*mQ32*sbeta - cbeta*mU32*sbeta) - 2/pow2(sbeta) + (Xt2*(2*(-
         Mu2 + mU32)*pow2(sbeta) + pow2(cbeta)*(3*(-2*mU32 + Xb2)*pow2(sbeta) +
         mQ32*(2 + 6*pow2(sbeta)))))/(pow2(cbeta)*pow2(mQ32 - mU32)*pow2(sbeta))
-        + (4*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu)*pow3(Xt))/(cbeta*sbeta*pow3(mQ32 -
+        + (4*(mQ32 - 2*Mu2 + mU32)*Mu*pow3(Xt))/(cbeta*sbeta*pow3(mQ32 -
         mU32)) + (Xt4*((Mu2 - mU32)*(2*mQ32 - 3*Mu2 + mU32) + 3*pow2(cbeta)*(
         mD32*Xb2 - 2*mU32*Xb2 + mQ32*(-2*mU32 + Xb2) + pow4(mQ3) + pow4(mU3))))
         /(pow2(cbeta)*pow4(mQ32 - mU32))) + 3*phixyz(mA2,mQ32,mD32)*((2*Xt2*Yb*
@@ -2815,7 +2814,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         /pow2(sbeta) - (2*(-mD32 + mQ32 + Xb2)*(mQ32 - mU32 - Xt2)*pow2(cbeta)*
         pow2(mA2 + mQ32 - mU32)*pow2(Yt))/(mQ32*(-mD32 + mQ32)*(mQ32 - mU32)*
         deltaxyz(mA2,mU32,mQ32)*pow2(sbeta)) + (2*pow2(cbeta)*(-4 + pow2(Yt)/
-        mQ32))/pow2(sbeta) + (16*(2*cbeta*std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta)
+        mQ32))/pow2(sbeta) + (16*(2*cbeta*Mu + sbeta*(Yb + Yt)*pow2(cbeta)
         + Yb*pow3(sbeta))*pow3(Xt))/(sbeta*pow2(cbeta)*pow2(mQ32 - mU32)) + (2*
         Xt2*((Xb2*(2*mD32*pow2(sbeta) - 2*mQ32*pow2(sbeta) + pow2(cbeta)*pow2(
         Yt)))/(mD32 - mQ32) + (2*mQ32*pow2(cbeta)*(mU32*(1 - 2*pow2(sbeta)) +
@@ -2829,8 +2828,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         cbeta) + (2*Xb2*(Mu2*(mD32*pow2(sbeta) - pow2(cbeta)*pow2(Yt)) - mQ32*(
         mD32*pow2(sbeta) + Mu2*(2 + 2*pow2(cbeta) + 3*pow2(sbeta)) - pow2(
         cbeta)*pow2(Yt)) + (-2 + 2*pow2(cbeta) + 3*pow2(sbeta))*pow4(mQ3)))/(
-        mQ32*(-mD32 + mQ32)*(mQ32 - Mu2)*pow2(sbeta)) + (Xt4*((-16*pow(Mu2,
-        1.5)*(mQ32 - mU32)*Xb)/(cbeta*(-mD32 + Mu2)*(-mQ32 + Mu2)*sbeta) - (2*(
+        mQ32*(-mD32 + mQ32)*(mQ32 - Mu2)*pow2(sbeta)) + (Xt4*((-16*pow3(Mu)*(mQ32 - mU32)*Xb)/(cbeta*(-mD32 + Mu2)*(-mQ32 + Mu2)*sbeta) - (2*(
         5*mQ32 + mU32)*Xb2)/mQ32 - (pow4(mD3)*(mU32*(-4*Mu2 + pow2(sbeta)*pow2(
         Yb)) + mQ32*(-32*Mu2 + mU32*(6 - 16*pow2(cbeta)) + 11*pow2(sbeta)*pow2(
         Yb)) + 2*(3 + 8*pow2(cbeta))*pow4(mQ3)) - 2*mD32*Mu2*(mU32*(-Mu2 +
@@ -2843,8 +2841,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         sbeta))/pow2(cbeta) + (24*Mu2)/((Mu2 - mU32)*pow2(sbeta)) - (6*pow2(
         cbeta)*(2*mQ32 - pow2(Yt)))/(mQ32*pow2(sbeta)) + (6*Xb2*(2*mQ32 + pow2(
         cbeta)*pow2(Yt)))/(mQ32*(-mD32 + mQ32)*pow2(sbeta)) + (24*Xt*(2*cbeta*
-        std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(sbeta)))/((mQ32 - mU32)
-        *sbeta*pow2(cbeta)) - (24*(mQ32 + 3*mU32)*(2*cbeta*std::abs(Mu) + sbeta*(Yb
+        Mu + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(sbeta)))/((mQ32 - mU32)
+        *sbeta*pow2(cbeta)) - (24*(mQ32 + 3*mU32)*(2*cbeta*Mu + sbeta*(Yb
         + Yt)*pow2(cbeta) + Yb*pow3(sbeta))*pow3(Xt))/(sbeta*pow2(cbeta)*pow3(
         mQ32 - mU32)) - (6*(-mD32 + mQ32 + Xb2)*(mQ32 - mU32 - Xt2)*pow2(cbeta)
         *pow2(Yt)*(-2*mA2*mU32 + pow4(mA) - pow4(mQ3) + pow4(mU3)))/(mQ32*(-
@@ -2868,12 +2866,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(sbeta)*(2*mA2 + 5*pow2(Yb))) - (3 + 12*pow2(cbeta) + pow2(sbeta))*
         pow4(mQ3)))/((mD32 - Mu2)*pow2(cbeta)) + (4*Xb2*(-7*mQ32*mU32 + mD32*(
         mQ32 + 5*mU32) + pow4(mU3)))/(mD32 - mQ32)))/pow4(mQ32 - mU32) + (6*
-        lmUMR*(16*cbeta*(mQ32 - Mu2)*pow(Mu2,1.5)*(mQ32 - mU32)*pow2(mD32 -
-        Mu2)*pow3(Xt) + 2*Xt2*pow3(mQ32 - mU32)*(4*cbeta*pow(Mu2,1.5)*(-mD32
+        lmUMR*(16*cbeta*(mQ32 - Mu2)*pow3(Mu)*(mQ32 - mU32)*pow2(mD32 -
+        Mu2)*pow3(Xt) + 2*Xt2*pow3(mQ32 - mU32)*(4*cbeta*pow3(Mu)*(-mD32
         + Mu2)*Xb + (mQ32 - Mu2)*sbeta*pow4(Mu)) + Xt4*(4*cbeta*(mD32 - Mu2)*
-        pow(Mu2,1.5)*(mQ32 - mU32)*(mQ32 + mU32)*Xb + (mQ32 - Mu2)*sbeta*
+        pow3(Mu)*(mQ32 - mU32)*(mQ32 + mU32)*Xb + (mQ32 - Mu2)*sbeta*
         pow4(Mu)*(-12*mD32*Mu2 + 6*pow4(mD3) - pow4(mQ3) + 6*pow4(Mu) + pow4(
-        mU3))) + 4*cbeta*(mD32 - Mu2)*pow(Mu2,1.5)*Xb*pow4(mQ32 - mU32) + (-
+        mU3))) + 4*cbeta*(mD32 - Mu2)*pow3(Mu)*Xb*pow4(mQ32 - mU32) + (-
         mQ32 + Mu2)*sbeta*pow4(Mu)*pow4(mQ32 - mU32)))/((mQ32 - Mu2)*sbeta*
         pow2(cbeta)*pow2(mD32 - Mu2)*pow4(mQ32 - mU32)) + 6*log(mA2/MR2)*(-2 +
         pow2(cbeta)/pow2(sbeta) + (2*((-2*mD32*Yb + mQ32*Yb + mU32*Yb - mQ32*Yt
@@ -2887,19 +2885,18 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mD32 + 2*mQ32 - 3*mU32 - Xb*Yb + Xb*Yt)*pow2(cbeta)*pow2(sbeta) + (mA2
         - mD32 + mQ32 - 2*Xb*Yt - pow2(Yt))*pow4(cbeta) - (mA2 + mD32 + mQ32 -
         2*mU32 + pow2(Yb))*pow4(sbeta)))/(pow2(cbeta)*pow2(mQ32 - mU32)*pow2(
-        sbeta))) + 6*lmQ3MR*(2 - (4*pow(Mu2,1.5)*Xb)/(cbeta*(-mD32 + Mu2)*(-
+        sbeta))) + 6*lmQ3MR*(2 - (4*pow3(Mu)*Xb)/(cbeta*(-mD32 + Mu2)*(-
         mQ32 + Mu2)*sbeta) - 2/pow2(sbeta) + pow2(cbeta)/pow2(sbeta) + (2*(4*
-        cbeta*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu) + sbeta*(2*mD32*Yb + mQ32*Yb +
+        cbeta*(mQ32 - 2*Mu2 + mU32)*Mu + sbeta*(2*mD32*Yb + mQ32*Yb +
         mU32*Yb + 3*mQ32*Yt + mU32*Yt + 2*Xb*Yb*Yt - 2*mA2*(Yb + Yt))*pow2(
         cbeta) + (-2*mA2 + 2*mD32 + mQ32 + mU32)*Yb*pow3(sbeta))*pow3(Xt))/(
         sbeta*pow2(cbeta)*pow3(mQ32 - mU32)) + ((2*mD32*Mu2)/pow2(mD32 - Mu2) +
         pow2(sbeta) - pow4(mD3)/pow2(mD32 - Mu2))/pow2(cbeta) - (2*Xt*(4*cbeta*
-        sbeta*std::abs(Mu) + (Xb + Yb + Yt)*pow2(cbeta)*pow2(sbeta) + (Xb + Yt)*
+        sbeta*Mu + (Xb + Yb + Yt)*pow2(cbeta)*pow2(sbeta) + (Xb + Yt)*
         pow4(cbeta) + Yb*pow4(sbeta)))/((mQ32 - mU32)*pow2(cbeta)*pow2(sbeta))
         + (Xt2*(-2*mD32 - 6*mU32 + 2*Xb2 + mQ32*(4 + 2/pow2(sbeta)) - (pow2(
-        cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt)))/pow2(sbeta) + (2*Xb*(4*pow(
-        Mu2,1.5)*mU32*sbeta + cbeta*Mu2*(-mD32 + Mu2)*(Yt*pow2(cbeta) + (-Yb +
-        Yt)*pow2(sbeta)) - mQ32*(4*pow(Mu2,1.5)*sbeta + cbeta*(mD32 - Mu2)*(
+        cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt)))/pow2(sbeta) + (2*Xb*(4*pow3(Mu)*mU32*sbeta + cbeta*Mu2*(-mD32 + Mu2)*(Yt*pow2(cbeta) + (-Yb +
+        Yt)*pow2(sbeta)) - mQ32*(4*pow3(Mu)*sbeta + cbeta*(mD32 - Mu2)*(
         Yb - Yt)*pow2(sbeta) + (-mD32 + Mu2)*Yt*pow3(cbeta))))/(cbeta*(mD32 -
         Mu2)*(-mQ32 + Mu2)*pow2(sbeta)) + (-(mD32*Mu2*(4*mU32 + Mu2*(-10 +
         pow2(sbeta)) - 2*mQ32*(-2 + pow2(sbeta)) + 2*pow2(sbeta)*(mA2 + pow2(
@@ -2907,7 +2904,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mA2*pow2(sbeta) + pow2(sbeta)*pow2(Yb))*pow4(mD3) + (-4*Mu2 + 4*mU32 +
         pow2(sbeta)*(mA2 - mQ32 + pow2(Yb)))*pow4(Mu) - (-2 + pow2(sbeta))*
         pow6(mD3))/(pow2(cbeta)*pow2(mD32 - Mu2))))/pow2(mQ32 - mU32) + (Xt4*((
-        -4*pow(Mu2,1.5)*(mQ32 - mU32)*(mQ32 + mU32)*Xb)/(cbeta*(-mD32 + Mu2)*
+        -4*pow3(Mu)*(mQ32 - mU32)*(mQ32 + mU32)*Xb)/(cbeta*(-mD32 + Mu2)*
         (-mQ32 + Mu2)*sbeta) - 2*(mQ32 + 2*mU32)*Xb2 - (pow4(Mu)*(-8*Mu2*mU32 -
         3*mA2*pow2(sbeta)*pow2(Yb) + 2*mU32*pow2(sbeta)*pow2(Yb) + mQ32*(-4*Mu2
         + 4*mU32 + pow2(sbeta)*pow2(Yb)) + 6*pow4(Mu) + 4*pow2(cbeta)*(pow4(
@@ -2929,12 +2926,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mD32 - mQ32)*pow2(sbeta)) - (3*pow2(sbeta)*pow2(mQ32 - mU32 + Xt2)*
         pow2(Yb)*(-2*mA2*mQ32 + pow4(mA) - pow4(mD3) + pow4(mQ3)))/(mQ32*
         deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)*pow2(mQ32 - mU32)) + (12*lmUMR*((4*
-        cbeta*(mD32 - Mu2)*pow(Mu2,1.5)*Xb)/((mD32 - mQ32)*sbeta) + pow4(Mu))
+        cbeta*(mD32 - Mu2)*pow3(Mu)*Xb)/((mD32 - mQ32)*sbeta) + pow4(Mu))
         )/(pow2(cbeta)*pow2(mD32 - Mu2)) + 6*lmQ3MR*(2 + pow2(cbeta)/pow2(
         sbeta) + (2*Xb*Xt*((mD32 - mQ32 + Xb*Yt)*pow2(cbeta) + (mD32 - mQ32)*
         pow2(sbeta)))/(pow2(mD32 - mQ32)*pow2(sbeta)) + (Xb2*(2*mD32*(-1 +
         pow2(sbeta)) + pow2(cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt))))/(pow2(mD32
-        - mQ32)*pow2(sbeta)) + (2*Xb*(-4*pow(Mu2,1.5)*sbeta + cbeta*(mD32 -
+        - mQ32)*pow2(sbeta)) + (2*Xb*(-4*pow3(Mu)*sbeta + cbeta*(mD32 -
         Mu2)*(Yb + Yt)*pow2(sbeta) + (mD32 - Mu2)*Yt*pow3(cbeta)))/(cbeta*(mD32
         - mQ32)*(mD32 - Mu2)*pow2(sbeta)) + (pow2(sbeta) - (2*pow4(Mu))/pow2(
         mD32 - Mu2))/pow2(cbeta)) - (6*log(mA2/MR2)*(2*(mD32 - mQ32)*(mD32 -
@@ -2942,7 +2939,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Xb*(Xb - 2*(Xt + Yt)) + Xb2*(-mA2 + Yt*(2*Xt + Yt)) - mD32*(2*mQ32 +
         Xb*(Xb - 2*(Xt + Yt))) + pow4(mD3) + pow4(mQ3)) + pow2(mD32 - mQ32)*
         pow4(sbeta)))/(pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) + Xt4*((48*
-        mD32*Xb*std::abs(Mu))/(cbeta*(mD32 - mQ32)*(mD32 - Mu2)*sbeta*pow2(mQ32 -
+        mD32*Xb*Mu)/(cbeta*(mD32 - mQ32)*(mD32 - Mu2)*sbeta*pow2(mQ32 -
         mU32)) + (6*mD32*Xb2)/((mD32 - mQ32)*pow2(-(mQ3*mU32) + pow3(mQ3))) - (
         3*(2*mD32*Mu2*(mU32*(Mu2 - pow2(sbeta)*pow2(Yb)) + mQ32*(5*Mu2 + 4*mU32
         + pow2(sbeta)*pow2(Yb)) - 4*pow4(mQ3)) + pow4(mD3)*(mU32*(-4*Mu2 +
@@ -2956,13 +2953,13 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Mu2)*pow2(sbeta)*(Xb*Yt*pow2(cbeta) + (mD32 - mQ32)*(pow2(cbeta) +
         pow2(sbeta)))*pow3(Xt) + Xb2*pow2(cbeta)*pow2(mD32 - Mu2)*(2*mD32 +
         pow2(cbeta)*pow2(Yt))*pow4(mQ32 - mU32) - 2*cbeta*(mD32 - mQ32)*(mD32 -
-        Mu2)*Xb*(cbeta*Mu2*Yt*(pow2(cbeta) + pow2(sbeta)) - mD32*(2*sbeta*std::abs(
-        Mu) + cbeta*Yt*pow2(sbeta) + Yt*pow3(cbeta)))*pow4(mQ32 - mU32) + pow2(
+        Mu2)*Xb*(cbeta*Mu2*Yt*(pow2(cbeta) + pow2(sbeta)) - mD32*(2*sbeta*
+        Mu + cbeta*Yt*pow2(sbeta) + Yt*pow3(cbeta)))*pow4(mQ32 - mU32) + pow2(
         mD32 - mQ32)*(2*pow2(cbeta)*pow2(mD32 - Mu2)*pow2(sbeta) + pow2(mD32 -
         Mu2)*pow4(cbeta) + pow2(sbeta)*(-2*mD32*Mu2*(-1 + pow2(sbeta)) + (-1 +
         pow2(sbeta))*pow4(mD3) + pow2(sbeta)*pow4(Mu)))*pow4(mQ32 - mU32) +
         sbeta*Xt4*(4*cbeta*mD32*(mD32 - mQ32)*(mD32 - Mu2)*(mQ32 - mU32)*(mQ32
-        + mU32)*Xb*std::abs(Mu) - 2*mD32*(mD32 - mU32)*(3*mD32 - 2*mQ32 - mU32)*
+        + mU32)*Xb*Mu - 2*mD32*(mD32 - mU32)*(3*mD32 - 2*mQ32 - mU32)*
         sbeta*Xb2*pow2(cbeta)*pow2(mD32 - Mu2) - sbeta*pow2(mD32 - mQ32)*((-3*
         mA2 + mQ32 + 2*mU32)*pow2(sbeta)*pow2(Yb)*pow4(Mu) + pow4(mD3)*(-3*mA2*
         pow2(sbeta)*pow2(Yb) + 2*mU32*pow2(sbeta)*pow2(Yb) + mQ32*(-4*Mu2 +
@@ -2976,8 +2973,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         sbeta)*pow4(mD3))) - 2*cbeta*(mD32 - mQ32)*(mD32 - Mu2)*Xb*(-(cbeta*
         Mu2*(-(mU32*Yb*pow2(sbeta)) + mQ32*Yt*(pow2(cbeta) + pow2(sbeta)) +
         mA2*(-(Yt*pow2(cbeta)) + (Yb - Yt)*pow2(sbeta)))) - mD32*(mU32*sbeta*(
-        cbeta*sbeta*Yb + 4*std::abs(Mu)) + cbeta*(mA2 + Mu2)*(Yt*pow2(cbeta) + (-Yb
-        + Yt)*pow2(sbeta)) - mQ32*(4*sbeta*std::abs(Mu) + cbeta*Yt*pow2(sbeta) + Yt*
+        cbeta*sbeta*Yb + 4*Mu) + cbeta*(mA2 + Mu2)*(Yt*pow2(cbeta) + (-Yb
+        + Yt)*pow2(sbeta)) - mQ32*(4*sbeta*Mu + cbeta*Yt*pow2(sbeta) + Yt*
         pow3(cbeta))) + (cbeta*(-Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))*pow4(
         mD3)) + pow2(mD32 - mQ32)*(2*(mA2 - mD32 - mQ32)*pow2(cbeta)*pow2(mD32
         - Mu2)*pow2(sbeta) + (mA2 - mD32 - mQ32)*pow2(mD32 - Mu2)*pow4(cbeta) -
-- 
2.43.0


From ceb49b16e9e5184ea36f4ab55df623c9f82aff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 10/39] fix: scale dependence of the degenerate-mass limit of
 the O(atau^2) correction

The coefficients of log(M^2/Q^2) Xtau^2 and log(M^2/Q^2) Xtau^4 disagreed
with the general case and with the running of Xtau.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 721d883..7853b05 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1809,10 +1809,10 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
      const double M = mL3;
      const double Xtau2 = pow2(Xtau);
      return (pow2(cbe)*(cbe*(4.994969600000008 - 48.*lMS)*sbe*pow3(M)*pow3(Xtau)
-     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(99. - 40.5*pow2(sbe))
+     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(51. - 40.5*pow2(sbe))
      + 25.88317440000001*pow2(sbe)) + (-96. + 6.75*lMS)*pow4(cbe) + lMS*(74.25
      - 99.*pow2(sbe) + 6.75*pow4(sbe))) + pow2(M)*(-0.12437120000000013
-     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-22.5 + 4.5*pow2(sbe)))
+     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-14.5 + 4.5*pow2(sbe)))
      + (39. - 0.75*lMS)*pow4(cbe) + lMS*(-18.75 + 22.5*pow2(sbe)
      - 0.75*pow4(sbe)))*pow4(Xtau) + cbe*(4.507545599999993 + 108.*lMS)*sbe
      *Xtau*pow5(M) + cbe*(-0.24874240000000025 + 6.*lMS)*M*sbe*pow5(Xtau)
-- 
2.43.0


From 9a3bf6b88320163bfbe94a07181b871a0eb89254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 11/39] fix: bottom and tau Yukawa contributions in the
 O(at)-only 1-loop fixed-order result

---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index 1846938..a0d46c4 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -201,8 +201,8 @@ RM22 MSSM_mass_eigenstates::delta_mh2_1loop(double p2) const
    const auto g1     = pars.g1;
    const auto g2     = pars.g2;
    const auto yt     = pars.Yu(2,2);
-   const auto yb     = pars.Yd(2,2);
-   const auto ytau   = pars.Ye(2,2);
+   const auto yb     = orders.at(CouplingOrders::ONLY_AT_AS) == 1 ? 0. : pars.Yd(2,2);
+   const auto ytau   = orders.at(CouplingOrders::ONLY_AT_AS) == 1 ? 0. : pars.Ye(2,2);
    const auto vu     = pars.vu;
    const auto vd     = pars.vd;
    const auto mu     = pars.mu;
-- 
2.43.0


From b70f9ec53cf5dadcac3ad600d9de542366785075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 12/39] fix: expansion depth in MSt1^2-MSt2^2 of hierarchies
 h3, h9 and their siblings is controlled by its own flag

H3, H32q2g, H3q22g, H9 and H9q2 read the flag of the gluino-stop mass
difference (Dmglst1) instead, so truncating the expansion in Dmst12 had
no effect in getExpansionUncertainty().
---
 source/himalaya/hierarchies/H3.cpp     | 2 +-
 source/himalaya/hierarchies/H32q2g.cpp | 2 +-
 source/himalaya/hierarchies/H3q22g.cpp | 2 +-
 source/himalaya/hierarchies/H9.cpp     | 2 +-
 source/himalaya/hierarchies/H9q2.cpp   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/hierarchies/H3.cpp b/source/himalaya/hierarchies/H3.cpp
index 2c7bfec..602a23e 100644
--- a/source/himalaya/hierarchies/H3.cpp
+++ b/source/himalaya/hierarchies/H3.cpp
@@ -65,7 +65,7 @@ H3::H3 (const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H32q2g.cpp b/source/himalaya/hierarchies/H32q2g.cpp
index fc5bf95..2c32daf 100644
--- a/source/himalaya/hierarchies/H32q2g.cpp
+++ b/source/himalaya/hierarchies/H32q2g.cpp
@@ -62,7 +62,7 @@ H32q2g::H32q2g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H3q22g.cpp b/source/himalaya/hierarchies/H3q22g.cpp
index 66c8f1f..6e2ca59 100644
--- a/source/himalaya/hierarchies/H3q22g.cpp
+++ b/source/himalaya/hierarchies/H3q22g.cpp
@@ -64,7 +64,7 @@ H3q22g::H3q22g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H9.cpp b/source/himalaya/hierarchies/H9.cpp
index 0a6719f..524496f 100644
--- a/source/himalaya/hierarchies/H9.cpp
+++ b/source/himalaya/hierarchies/H9.cpp
@@ -64,7 +64,7 @@ H9::H9(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, double
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
diff --git a/source/himalaya/hierarchies/H9q2.cpp b/source/himalaya/hierarchies/H9q2.cpp
index 748610e..43e78f3 100644
--- a/source/himalaya/hierarchies/H9q2.cpp
+++ b/source/himalaya/hierarchies/H9q2.cpp
@@ -66,7 +66,7 @@ H9q2::H9q2(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, dou
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
-- 
2.43.0


From fd65fc6874c9cd5dd7b29c971cf52cd6aa2c5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 13/39] fix: 2-loop DR' -> MS-bar shift of Delta lambda
 contained the 1-loop prefactor twice

---
 source/himalaya/HierarchyCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..2b4b2c9 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -234,7 +234,8 @@ himalaya::HierarchyObject HierarchyCalculator::calculateDMh3L(bool isAlphab)
    ho.setDLambdaDRbarPrimeToMSbarShift(1, 0.);
    if (!isAlphab) {
       ho.setDLambda(3, ho.getDLambdaEFT());
-      ho.setDLambdaDRbarPrimeToMSbarShift(2, pref_2L*(-4*ho.getDLambda(1)
+      ho.setDLambdaDRbarPrimeToMSbarShift(2, pref_2L*(-4*tc.getThresholdCorrection(
+         mh2_eft::ThresholdCouplingOrders::LAMBDA_AT, mh2_eft::RenSchemes::DRBARPRIME, 1)
          *tc.getThresholdCorrection(mh2_eft::ThresholdCouplingOrders::YT_AS,
                                  mh2_eft::RenSchemes::DRBARPRIME, 1))/v2);
    } else {
-- 
2.43.0


From f346e315d45d920654ba3908311949dc6f3891cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 14/39] fix: use the equal-mass limit of the H3m -> DR' shift
 for nearly degenerate stops

The selection between the general expression and its limit preferred the
general expression exactly when cancellations had spoiled it.
---
 source/himalaya/HierarchyCalculator.cpp | 61 +++----------------------
 1 file changed, 6 insertions(+), 55 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 2b4b2c9..5a09009 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -964,7 +964,6 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double scale2 = pow2(p.scale);
    const double Xt2 = pow2(Xt);
    const double Mst22 = pow2(Mst2);
-   const double Dmst12 = Mst12 - Mst22;
 
    // logarithms
    const double lmMst1 = std::log(scale2 / Mst12);
@@ -972,30 +971,9 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double lmMsq = std::log(scale2 / Msq2);
    const double lmMgl = std::log(scale2 / Mgl2);
 
-   // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*Xt2*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1))*pow2(p.mu))/(3.*pow6(Mst1));
-      // exact result
-      const double exact = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2)*pow2(Mst1)*pow2(Mst2) + pow4(Mst1) - pow4(Mst2)))/(pow2(Mst1)*
-        pow2(Mst2)*pow3(pow2(Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2shift)*pow2(Mst1)*pow2(Mst2shift) + pow4(Mst1) - pow4(Mst2shift)))/(pow2(Mst1)*
-        pow2(Mst2shift)*pow3(pow2(Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
+   // use the limit for degenerate stop masses, because the general
+   // expression suffers from cancellations ~ 1/(Mst1^2 - Mst2^2)^3
+   const bool isDegenerate = std::abs(Mst1 - Mst2) < eps;
 
    Eigen::Matrix2d shift;
 
@@ -1081,7 +1059,6 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
    const double scale2 = pow2(p.scale);
    const double Xt2 = pow2(Xt);
    const double Mst22 = pow2(Mst2);
-   const double Dmst12 = Mst12 - Mst22;
 
    // logarithms
    const double lmMst1 = omitLogs * std::log(scale2 / Mst12);
@@ -1089,35 +1066,9 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
    const double lmMsq = omitLogs * std::log(scale2 / Mst12) - std::log(Msq2 / Mst12);
    const double lmMgl = omitLogs * std::log(scale2 / Mst12) - std::log(Mgl2 / Mst12);
 
-   // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1))*(-6*Xt2*pow2(Mst1) + truncateXt*pow2(Xt2) + 6*pow4(Mst1)))/
-        (3.*pow6(Mst1));
-      // exact result
-      const double exact =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*(4*truncateXt*std::log(Mst2/Mst1)*
-        pow2(Mst1)*pow2(Mst2)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2)) +
-        (pow2(Mst1) + pow2(Mst2))*pow3(pow2(Mst1) - pow2(Mst2)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2))))/(pow2(Mst1)*pow2(Mst2)*pow3(pow2(
-        Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*(4*truncateXt*std::log(Mst2shift/Mst1)*
-        pow2(Mst1)*pow2(Mst2shift)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2shift)) +
-        (pow2(Mst1) + pow2(Mst2shift))*pow3(pow2(Mst1) - pow2(Mst2shift)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2shift))))/(pow2(Mst1)*pow2(Mst2shift)*pow3(pow2(
-        Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
+   // use the limit for degenerate stop masses, because the general
+   // expression suffers from cancellations ~ 1/(Mst1^2 - Mst2^2)^3
+   const bool isDegenerate = std::abs(Mst1 - Mst2) < eps;
 
    double shift = 0.;
 
-- 
2.43.0


From 78eaa3a00f5acdb0a1e3a667b040f31bcb3c2017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 15/39] fix: suitability criterion of hierarchy h9q2 compared
 Mst1 with itself

---
 source/himalaya/HierarchyCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 5a09009..e385f5c 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -434,7 +434,7 @@ bool HierarchyCalculator::isHierarchySuitable(const himalaya::HierarchyObject& h
       case Hierarchies::h9:
          return (Mst2 >= Msq) && ((Mst2 - Mst1) < (Mst1 - Mgl));
       case Hierarchies::h9q2:
-         return (Msq > Mst2) && ((Mst1 - Mst1) < (Mst1 - Mgl));
+         return (Msq > Mst2) && ((Mst2 - Mst1) < (Mst1 - Mgl));
    }
    return false;
 }
-- 
2.43.0


From 7aeba56731a205ee9f5f5eb792c7a318bd7d12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 16/39] fix: cancellation in B0(0,m1,m2) for nearly equal
 masses

---
 source/himalaya/mh2_fo/PV.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 2174a38..f797abd 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -161,7 +161,8 @@ double b0(double p2, double m12, double m22, double q2) noexcept
          return 1 - std::log(m22 / q2);
       }
 
-      return 1 - std::log(m22 / q2) + m12 * std::log(m22 / m12) / (m12 - m22);
+      const double d = (m22 - m12) / m12;
+      return 1 - std::log(m22 / q2) - std::log1p(d) / d;
    }
 
    if (m12 < EPSTOL * EPSTOL * m22) {
-- 
2.43.0


From fcd1288f1ed1e56d7348cbdd11ff783de9372d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 17/39] fix: B0(p,0,m) had a wrong logarithm

---
 source/himalaya/mh2_fo/PV.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index f797abd..166c90f 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -166,8 +166,9 @@ double b0(double p2, double m12, double m22, double q2) noexcept
    }
 
    if (m12 < EPSTOL * EPSTOL * m22) {
-      const double del = std::hypot(m22 - p2, EPSTOL * m22);
-      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / p2);
+      const double r = p2 / m22;
+      const double l = r < 0.5 ? std::log1p(-r) : std::log(std::hypot(1 - r, EPSTOL));
+      return 2 - std::log(m22 / q2) + (1 - r) / r * l;
    }
 
    const double s = p2 - m22 + m12;
-- 
2.43.0


From c4ab922196f5d6138b46c7ac5507580b8692ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 18/39] fix: O(at^2) correction was dropped for a massless
 bottom quark

---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index b966552..3537aa9 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -99,7 +99,6 @@ Mh2EFTCalculator::Mh2EFTCalculator(const himalaya::Parameters& p_, bool verbose)
         setCorrectionFlag(CouplingOrders::YT2YB4  , 0);
         setCorrectionFlag(CouplingOrders::YB2YT4  , 0);
         setCorrectionFlag(CouplingOrders::YTAU4YB2, 0);
-        setCorrectionFlag(CouplingOrders::YT6     , 0);
     }
 
     if (std::abs(p.Mtau) < eps) {
-- 
2.43.0


From 7e35ea1d4fb4472df5e9b548c700e810775fb312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 19/39] fix: Phi(x,y,z) for one light and two similar masses
 used an expansion outside of its range of validity

---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 36 +++----------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 2a951d7..d14bd7a 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1374,40 +1374,12 @@ namespace {
       return sqr(1 - u - v) - 4*u*v;
    }
 
-   /// expansion of (1 - lambda + u - v)/2 for u ~ v ~ 0 up to including O(u^3 v^3)
-   double l00(double u, double v) noexcept
-   {
-      return v*(1 + u*(1 + u*(1 + u)) + v*(u*(1 + u*(3 + 6*u)) + u*(1 + u*(6 + 20*u))*v));
-   }
-
-   /// expansion of (1 - lambda + u - v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double l0v(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return u*(0.5*(1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
-   /// expansion of (1 - lambda - u + v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double lv0(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return v + u*(0.5*(-1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
-   /// returns tuple (0.5*(1 - lambda + u - v), 0.5*(1 - lambda - u + v))
+   /// returns tuple (0.5*(1 - lambda + u - v), 0.5*(1 - lambda - u + v)),
+   /// in a form without cancellations for u,v < 1
    std::tuple<double,double> luv(double lambda, double u, double v) noexcept
    {
-      if (v < qdrt_eps) {
-         return std::make_tuple(l00(u, v), l00(v, u));
-      } else if (u < qdrt_eps) {
-         return std::make_tuple(l0v(u, v), lv0(u, v));
-      }
-      return std::make_tuple(0.5*(1 - lambda + u - v),
-                             0.5*(1 - lambda - u + v));
+      return std::make_tuple(2*u/(1 + lambda + u - v),
+                             2*v/(1 + lambda - u + v));
    }
 
    /// u < 1 && v < 1, lambda^2(u,v) > 0; note: phi_pos(u,v) = phi_pos(v,u)
-- 
2.43.0


From 9d270d3e06ac5247ce5cf76ef3ae9793a8ec3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 20/39] fix: Phi(x,y,z) treated two light masses as equal if
 their difference was small compared to the heavy mass

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index d14bd7a..0eb8c09 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1392,7 +1392,7 @@ namespace {
       const double pi23 = 3.2898681336964529; // Pi^2/3
       const auto lambda = std::sqrt(lambda_2(u,v));
 
-      if (is_equal(u, v, eps)) {
+      if (is_equal(u, v, eps*u)) {
          const double x = u < qdrt_eps ? u*(1 + u*(1 + u*(2 + 5*u))) : 0.5*(1 - lambda);
 
          return (- sqr(std::log(u)) + 2*sqr(std::log(x))
-- 
2.43.0


From effe07da07154b4c846dec2270ec946ff4a5d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 21/39] fix: pass S12 and S22 of taubot in the order of the
 Fortran routine

The subroutine taubot returns (S11,S12,S22), unlike the other routines
in DSZHiggs.f.  The wrapper passed (S11,S22,S12), so the (2,2) and (1,2)
elements of the O(ab*atau) correction were interchanged.
---
 source/himalaya/mh2l/DSZHiggs.cpp | 2 +-
 source/himalaya/mh2l/DSZHiggs.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index c36674d..1530e3d 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -399,7 +399,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
            &mstau12, &mstau22, &msb12, &msb22,
            &sintau, &costau, &sxb, &cxb,
            &scale2, &mu, &tanb, &vev2,
-           &result(0,0), &result(1,1), &result(0,1));
+           &result(0,0), &result(0,1), &result(1,1));
 
    result(1,0) = result(0,1);
 
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index 6f4b677..cc62d7d 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -102,7 +102,7 @@ int taubot_(double * t, double * b,
             double * T1, double * T2, double * B1, double * B2,
             double * st, double * ct, double * sb, double * cb,
             double * q, double * mu, double * tanb, double * vv,
-            double * S11, double * S22, double * S12);
+            double * S11, double * S12, double * S22);
 
 /**
  * Two-loop O(a_t a_s) corrections to the CP-odd Higgs mass in the
-- 
2.43.0


From 1f70ffe0835aff7fc15e2b6c21f3eabd5df108f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 22/39] fix: remove spurious 1/sin(beta)^2 from the O(yb^2)
 threshold of yb

The sbottom contribution to the Higgs wave function renormalization is
proportional to cos(beta)^2*Xb^2, in analogy to sin(beta)^2*Xt^2 in
getDeltaYtYt().
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 7853b05..815216d 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -772,7 +772,7 @@ double ThresholdCalculator::getDeltaYbYb(int omitLogs) const
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
    return (6*lmUMR + 4*F6(mD3/p.mu) + 8*F6(mQ3/p.mu) - (2*Xb2*F5(mQ3/mD3)*pow2(cbeta))/
-        (mD3*mQ3*pow2(sbeta)) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
+        (mD3*mQ3) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
 }
 
 double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
-- 
2.43.0


From 8f486d52fac5d107af533dbfffd9dfbe1abcb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 23/39] fix: sign of Xb in the O(yb^4*g3^2) threshold
 correction to lambda

The expressions in getDeltaLambdaYb4G32() are written in a convention in
which Xb has the opposite sign relative to the gluino mass.  With
calcXb() the terms odd in Xb came with the wrong sign compared to the
O(at*as) expressions with the replacement (Xt,mU3) -> (Xb,mD3), and
compared to the fixed-order O(ab*as) correction.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 815216d..31cdf9d 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -936,7 +936,8 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
    const double mQ3 = std::sqrt(mQ32);
    const double mD3 = std::sqrt(mD32);
    const double m3 = std::sqrt(m32);
-   const double Xb = calcXb();
+   // sign convention of the expressions below: Xb -> -Xb w.r.t. calcXb()
+   const double Xb = -calcXb();
    const double Xb2 = pow2(Xb);
    const double eps = 0.01*mQ3;
    const double lmQ3MR = log(mQ32) - lMR;
-- 
2.43.0


From 4b9ee8e23b5b7d7f9f4dd228a0b123058aaf2938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 24/39] fix: O(yb^2) threshold of ytau is due to sbottoms, not
 stops

The O(yb^2) correction to ytau is the sbottom contribution to the Higgs
wave function renormalization, -cos(beta)^2*Xb^2*F5(mQ3/mD3)/(4*mQ3*mD3).
The O(yt^2) stop contribution was returned instead.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 31cdf9d..a8fb65f 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -915,12 +915,12 @@ double ThresholdCalculator::getDeltaVevG22(int /* omitLogs */) const
 
 double ThresholdCalculator::getDeltaYtauYb() const
 {
-   const double Xt2 = pow2(calcXt());
+   const double Xb2 = pow2(calcXb());
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
-   const double sbeta = calcSinBeta();
+   const double mD3 = std::sqrt(p.md2(2,2));
+   const double cbeta = calcCosBeta();
 
-   return -(pow2(sbeta)*Xt2*F5(mQ3/mU3))/(4*mQ3*mU3);
+   return -(pow2(cbeta)*Xb2*F5(mQ3/mD3))/(4*mQ3*mD3);
 }
 
 double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
-- 
2.43.0


From 2b3c65bbe364ad9ec630985714031b39ce302880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 25/39] fix: sfermion terms in the O(yt^2) threshold of yb and
 O(yb^2) threshold of yt

The sfermions of the other flavour enter via the Higgs wave function
renormalization only: -sin(beta)^2*Xt^2*F5(mQ3/mU3)/(4*mQ3*mU3) at O(yt^2)
and -cos(beta)^2*Xb^2*F5(mQ3/mD3)/(4*mQ3*mD3) at O(yb^2), see getDeltaYtYt()
and getDeltaYbYb().  Both functions contained in addition terms of the
wrong order.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index a8fb65f..d5ec624 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -784,8 +784,6 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    const double MR2 = pow2(p.scale);
    const double mU3 = std::sqrt(p.mu2(2,2));
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mD3 = std::sqrt(p.md2(2,2));
-   const double Xb2 = pow2(calcXb());
    const double Xt = calcXt();
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
    const double lmAMR = omitLogs*std::log(mA2/MR2);
@@ -793,8 +791,7 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    return (2 * lmUMR + 4 * F6(mU3 / p.mu) +
            (4 * tbe * Xt * F9(mQ3 / p.mu, mU3 / p.mu)) / p.mu +
            (-1 + 2 * lmAMR) * pow2(cbeta) -
-           (2 * Xb2 * F5(mQ3 / mD3) * pow2(cbeta)) / (mD3 * mQ3 * pow2(sbeta)) -
-           (4 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
+           (2 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
            8 * (-1 + lmAMR) * pow2(sbeta)) /
           8.;
 }
@@ -818,17 +815,13 @@ double ThresholdCalculator::getDeltaYtYb(int omitLogs) const
    const double sbeta = calcSinBeta();
    const double mD3 = std::sqrt(p.md2(2,2));
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
    const double Xb = calcXb();
-   const double Xt = calcXt();
    const double lmAMR = omitLogs*std::log(pow2(p.MA) / MR2);
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
-   return (-2*p.mu*mU3*pow2(Xb)*F5(mQ3/mD3)*pow2(cbeta)*(1 + pow2(sbeta)) + mD3*pow2(
-        sbeta)*(-2*p.mu*pow2(Xt)*F5(mQ3/mU3)*pow2(sbeta) + mQ3*mU3*(4*p.mu*F6(mD3/p.mu) +
+   return (-2*p.mu*pow2(Xb)*F5(mQ3/mD3)*pow2(cbeta) + mD3*mQ3*(4*p.mu*F6(mD3/p.mu) +
         4*p.vd/p.vu*Xb*F9(mQ3/p.mu,mD3/p.mu) + p.mu*(2*lmUMR - 8*pow2(cbeta) - pow2(
-        sbeta) + 2*lmAMR*(4*pow2(cbeta) + pow2(sbeta))))))/(8.*mD3*mQ3*
-        p.mu*mU3*pow2(sbeta));
+        sbeta) + 2*lmAMR*(4*pow2(cbeta) + pow2(sbeta)))))/(8.*mD3*mQ3*p.mu);
 }
 
 double ThresholdCalculator::getDeltaVevYt2(Limits limit) const
-- 
2.43.0


From efbb1b154e8e54d74cc0e68c6bdf923cb4b6f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:45 +0000
Subject: [PATCH 26/39] fix: relative sign of mu and Xt, Xb in the
 O(yt^4*yb^2), O(yt^2*yb^4) lambda thresholds

The expressions in getDeltaLambdaYt4Yb2() and getDeltaLambdaYt2Yb4() are
written in a convention with the opposite sign of mu, i.e. all terms odd
in mu (at fixed Xt, Yt, Xb, Yb) had the wrong sign compared to the
fixed-order calculation.  As only the relative sign matters, flip Xt,
Yt, Xb and Yb.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index d5ec624..ca77532 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2209,10 +2209,12 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double Xt = calcXt();
-   const double Yt = calcYt();
-   const double Xb = calcXb();
-   const double Yb = calcYb();
+   // sign convention of the expressions below:
+   // (Xt, Yt, Xb, Yb) -> -(Xt, Yt, Xb, Yb) w.r.t. the sign of mu
+   const double Xt = -calcXt();
+   const double Yt = -calcYt();
+   const double Xb = -calcXb();
+   const double Yb = -calcYb();
    const double Mu = p.mu;
    const double Mu2 = pow2(Mu);
    const double Xt2 = pow2(Xt);
@@ -2609,10 +2611,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double Xt = calcXt();
-   const double Yt = calcYt();
-   const double Xb = calcXb();
-   const double Yb = calcYb();
+   // sign convention of the expressions below:
+   // (Xt, Yt, Xb, Yb) -> -(Xt, Yt, Xb, Yb) w.r.t. the sign of mu
+   const double Xt = -calcXt();
+   const double Yt = -calcYt();
+   const double Xb = -calcXb();
+   const double Yb = -calcYb();
    const double Mu = p.mu;
    const double Mu2 = pow2(Mu);
    const double Xt2 = pow2(Xt);
-- 
2.43.0


From 1db2a5747d80e14514cd82f50645bc4eeaea4183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 27/39] fix: beta dependence of the O(yb^4*ytau^2),
 O(ytau^4*yb^2) lambda thresholds

The terms stem from the quartic coupling yb*ytau*(Q3*D3)(L3*E3)^*, and
both sfermion loops couple to the Higgs with yb*Xb*cos(beta) and
ytau*Xtau*cos(beta).  In units of yb^4*ytau^2*cos(beta)^6 the correction
is thus proportional to 1/cos(beta)^2, not 1/(sin(beta)*cos(beta)).
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index ca77532..8600d86 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -3027,24 +3027,23 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
    const double mL3 = std::sqrt(p.ml2(2,2));
    const double mE3 = std::sqrt(p.me2(2,2));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(cbeta*sbeta*pow4(mL3));
+      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(pow2(cbeta)*pow4(mL3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (-4*Xb*Xtau*(-6*pow2(mL3) + Xtau2)*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(
-        mD32/mQ32)))/(cbeta*(mD32 - mQ32)*sbeta*pow4(mL3));
+        mD32/mQ32)))/(pow2(cbeta)*(mD32 - mQ32)*pow4(mL3));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-24*lmQ3MR*Xb*Xtau*(2*(-mE32 + mL32)*Xtau2 + log(mE32/mL32)*(mL32*Xtau2
-        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(cbeta*sbeta*pow3(
+        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(pow2(cbeta)*pow3(
         mE32 - mL32));
    }
 
@@ -3052,7 +3051,7 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
       = (-24*Xb*Xtau*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(mD32/mQ32))*(2*
         Xtau2*(-pow2(mE3) + pow2(mL3)) + log(pow2(mE3)/pow2(mL3))*(Xtau2*pow2(
         mL3) + pow2(mE3)*(Xtau2 + 2*pow2(mL3)) - pow4(mE3) - pow4(mL3))))/(
-        cbeta*(mD32 - mQ32)*sbeta*pow3(pow2(mE3) - pow2(mL3)));
+        pow2(cbeta)*(mD32 - mQ32)*pow3(pow2(mE3) - pow2(mL3)));
 
    return exact;
 }
@@ -3073,32 +3072,31 @@ double ThresholdCalculator::getDeltaLambdaYtau2Yb4(int omitLogs) const
    const double lmD3MR = omitLogs*std::log(pow2(mD3)/pow2(p.scale));
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(cbeta*sbeta*pow4(mQ3));
+      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(pow2(cbeta)*pow4(mQ3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (24*lmL3MR*Xb*Xtau*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*Xb2 + mD32*(2*mQ32
         + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR*(-(mQ32*Xb2) - mD32*(2*mQ32 +
-        Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*sbeta*pow3(mD32 - mQ32));
+        Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(cbeta)*pow3(mD32 - mQ32));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-4*(-mE32 + lmE3MR*mE32 + mL32 - lmL3MR*mL32)*Xb*(-6*mQ32 + Xb2)*Xtau)/(
-        cbeta*(mE32 - mL32)*sbeta*pow4(mQ3));
+        pow2(cbeta)*(mE32 - mL32)*pow4(mQ3));
    }
 
    const double exact
       = (24*Xb*Xtau*(-pow2(mE3) + lmE3MR*pow2(mE3) + pow2(mL3) -
         lmL3MR*pow2(mL3))*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*
         Xb2 + mD32*(2*mQ32 + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR
-        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*
-        sbeta*(pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
+        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(
+        cbeta)*(pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
 
    return exact;
 }
-- 
2.43.0


From 0781bacafb62a4ea205b8667b23b0789bfde043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 28/39] fix: include the O(ytau^2) threshold of yb in the
 O(yb^4*ytau^2) correction

The bottom Yukawa coupling receives the O(ytau^2) threshold correction
-cos(beta)^2*Xtau^2*F5(mL3/mE3)/(12*mL3*mE3) from the stau contribution to
the Higgs wave function renormalization, just as ytau receives the
O(yb^2) correction getDeltaYtauYb(), which is included at O(ytau^4*yb^2).
It was missing at O(yb^4*ytau^2), so the sbottom-stau terms did not agree
with the fixed-order calculation.
---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index 3537aa9..23564ee 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -629,8 +629,12 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
            2.),
        "dmh2yt6"));
 
+    // O(ytau^2) threshold correction of yb / cos^2(beta)
+    const double dybytau = -dvytau2;
+
     const double dmh2yb4ytau2 = CALC_IF(orders.at(CouplingOrders::YTAU2YB4), discardNaN(
-          (((dlambdayb4ytau2 - 96 * B00DR * lmMt -
+          (((4 * dybytau * (12 * B00DR + dlambdayb4 + 12 * lmMt) +
+             dlambdayb4ytau2 - 96 * B00DR * lmMt -
              dlambdayb4 * (-1 + B00DR + lmMt) +
              2 * dvytau2 * (-12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
              48 * pow2(lmMt)) *
-- 
2.43.0


From 04cc311910b7fdbcd694242c6e009bd1a63edfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 29/39] fix: O(atau^2) contribution was NaN for small mu,
 because the unused OS-scheme shifts were evaluated

---
 source/himalaya/mh2l/DSZHiggs.f | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 937522d..ea4ab47 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5775,8 +5775,18 @@ c$$$  k = 3d0*ht**2/(16d0*Pi**2)**2
       call taufuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,F1,F2,F3)
       call tausfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,ht,
      $     dmuF2,dmuF3,dAtF2,dAtF3,DM12,DM22)
-      call taudfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,v2,
-     $     DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3)
+      if (OS.ne.0) then
+         call taudfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,v2,
+     $        DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3)
+      else
+         DF1 = 0d0
+         DF2 = 0d0
+         DF3 = 0d0
+         DdmuF2 = 0d0
+         DdmuF3 = 0d0
+         DdAtF2 = 0d0
+         DdAtF3 = 0d0
+      endif
       
       osdr = 1d0*OS
       
-- 
2.43.0


From c667bc625dab08e693c648e58d3a4b167bb93343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 30/39] fix: O(at^2 + at*ab + ab^2) contribution was NaN for mu
 = 0

---
 source/himalaya/mh2l/DSZHiggs.f | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index ea4ab47..7c08671 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -49,11 +49,17 @@ c
       double precision, parameter :: eps_b1t2 = 1d-7
       double precision, parameter :: eps_b2t1 = 1d-8
       double precision, parameter :: eps_b2t2 = 1d-9
+      double precision, parameter :: eps_mu = 1d-10
       double precision, parameter :: pi = 3.1415926535897932d0
       
       mt = dsqrt(t)
       mb = dsqrt(b)
 
+c     guard against NANs when mu == 0
+      if (mu.eq.0d0) then
+         mu = eps_mu*dsqrt(T1)
+      endif
+
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
          if (st.ge.0.0d0) then
@@ -208,11 +214,17 @@ c     end of addition by ALEX
       double precision, parameter :: eps_b1t2 = 1d-7
       double precision, parameter :: eps_b2t1 = 1d-8
       double precision, parameter :: eps_b2t2 = 1d-9
+      double precision, parameter :: eps_mu = 1d-10
       double precision, parameter :: pi = 3.1415926535897932d0
       
       mt = dsqrt(t)
       mb = dsqrt(b)
       
+c     guard against NANs when mu == 0
+      if (mu.eq.0d0) then
+         mu = eps_mu*dsqrt(T1)
+      endif
+
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
          if (st.ge.0.0d0) then
-- 
2.43.0


From ad6dd52cead2e71813f046a49f3d90f0bd219f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 31/39] fix: O(ab*atau) contribution was NaN or dominated by
 rounding errors for unmixed or degenerate staus or sbottoms

---
 source/himalaya/mh2l/DSZHiggs.f | 76 +++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 7c08671..75bcc7b 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5316,10 +5316,48 @@ c
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
       double precision, parameter :: pi = 3.1415926535897932d0
+      double precision, parameter :: eps_s = 1d-8
+      double precision, parameter :: eps_m = 1d-5
       
       mt = dsqrt(t)
       mb = dsqrt(b)
       
+c     guard against NANs when sin theta is zero
+      if (dabs(st).lt.eps_s) then
+         if (st.ge.0d0) then
+            st = eps_s
+         else
+            st = -eps_s
+         endif
+      endif
+
+c     guard against NANs when sin theta is zero
+      if (dabs(sb).lt.eps_s) then
+         if (sb.ge.0d0) then
+            sb = eps_s
+         else
+            sb = -eps_s
+         endif
+      endif
+
+c     guard against NANs when T1 == T2
+      if (dabs((T1-T2)/T1).lt.eps_m) then
+         if (T1.gt.T2) then
+            T1 = T2 / (1d0 - eps_m)
+         else
+            T1 = T2 / (1d0 + eps_m)
+         endif
+      endif
+
+c     guard against NANs when B1 == B2
+      if (dabs((B1-B2)/B1).lt.eps_m) then
+         if (B1.gt.B2) then
+            B1 = B2 / (1d0 - eps_m)
+         else
+            B1 = B2 / (1d0 + eps_m)
+         endif
+      endif
+
       s2t = 2d0*ct*st
       s2b = 2d0*cb*sb
       c2t = ct**2 - st**2
@@ -5381,10 +5419,48 @@ c
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
       double precision, parameter :: pi = 3.1415926535897932d0
+      double precision, parameter :: eps_s = 1d-8
+      double precision, parameter :: eps_m = 1d-5
       
       mt = dsqrt(t)
       mb = dsqrt(b)
       
+c     guard against NANs when sin theta is zero
+      if (dabs(st).lt.eps_s) then
+         if (st.ge.0d0) then
+            st = eps_s
+         else
+            st = -eps_s
+         endif
+      endif
+
+c     guard against NANs when sin theta is zero
+      if (dabs(sb).lt.eps_s) then
+         if (sb.ge.0d0) then
+            sb = eps_s
+         else
+            sb = -eps_s
+         endif
+      endif
+
+c     guard against NANs when T1 == T2
+      if (dabs((T1-T2)/T1).lt.eps_m) then
+         if (T1.gt.T2) then
+            T1 = T2 / (1d0 - eps_m)
+         else
+            T1 = T2 / (1d0 + eps_m)
+         endif
+      endif
+
+c     guard against NANs when B1 == B2
+      if (dabs((B1-B2)/B1).lt.eps_m) then
+         if (B1.gt.B2) then
+            B1 = B2 / (1d0 - eps_m)
+         else
+            B1 = B2 / (1d0 + eps_m)
+         endif
+      endif
+
       s2t = 2d0*ct*st
       s2b = 2d0*cb*sb
       c2t = ct**2 - st**2
-- 
2.43.0


From 2fd0f0a29b2bc7b962c740a77838bd3ebae89629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 32/39] fix: O(atau^2) contribution was NaN or dominated by
 rounding errors for degenerate staus and sneutrino

---
 source/himalaya/mh2l/DSZHiggs.f | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 75bcc7b..d40df41 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5841,7 +5841,22 @@ C     .
       double precision DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3,F2_s
       double precision S11,S22,S12,osdr,DMom,ShiftB,ShiftB2,ShiftB3,sw
       double precision, parameter :: pi = 3.1415926535897932d0
+      double precision, parameter :: eps_t1 = 1d-5
+      double precision, parameter :: eps_bl = 1d-8
       
+c     guard against NANs when T1 == T2
+      if (dabs((T1-T2)/T1).lt.eps_t1) then
+         if (T1.gt.T2) then
+            T1 = T2 / (1d0 - eps_t1)
+         else
+            T1 = T2 / (1d0 + eps_t1)
+         endif
+      endif
+
+c     guard against NANs when BL == T1 or BL == T2
+      if (dabs((BL-T1)/T1).lt.eps_bl) BL = T1*(1d0 + eps_bl)
+      if (dabs((BL-T2)/T2).lt.eps_bl) BL = T2*(1d0 + eps_bl)
+
       tanb = 1d0/tb             ! swap H1 <-> H2 !!!
       
       mt = dsqrt(t)
@@ -6616,7 +6631,22 @@ c     DMA = 2-loop corrections to the CP-odd Higgs mass.
      $     ,c2t
       double precision FA,FA_A,DMA
       double precision, parameter :: pi = 3.1415926535897932d0
+      double precision, parameter :: eps_t1 = 1d-5
+      double precision, parameter :: eps_bl = 1d-8
       
+c     guard against NANs when T1 == T2
+      if (dabs((T1-T2)/T1).lt.eps_t1) then
+         if (T1.gt.T2) then
+            T1 = T2 / (1d0 - eps_t1)
+         else
+            T1 = T2 / (1d0 + eps_t1)
+         endif
+      endif
+
+c     guard against NANs when BL == T1 or BL == T2
+      if (dabs((BL-T1)/T1).lt.eps_bl) BL = T1*(1d0 + eps_bl)
+      if (dabs((BL-T2)/T2).lt.eps_bl) BL = T2*(1d0 + eps_bl)
+
       tanb = 1d0/tb             ! swap H1 <-> H2 !!!
       
       mt = dsqrt(t)
-- 
2.43.0


From de01e58c3e3b00ae1d9f0f7beae9be38444b4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 33/39] fix: O(at^2 + at*ab + ab^2) contribution was dominated
 by rounding errors for degenerate unmixed sbottoms or stops

---
 source/himalaya/mh2l/DSZHiggs.f | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index d40df41..df8b17e 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -42,9 +42,9 @@ c
      $     ,FAp
       integer atat
       double precision, parameter :: eps_st = 1d-5
-      double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-8
-      double precision, parameter :: eps_b1 = 1d-5
+      double precision, parameter :: eps_t1 = 1d-4
+      double precision, parameter :: eps_sb = 1d-5
+      double precision, parameter :: eps_b1 = 1d-4
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
       double precision, parameter :: eps_b2t1 = 1d-8
@@ -207,9 +207,9 @@ c     end of addition by ALEX
      $     ,FAp
       integer atat
       double precision, parameter :: eps_st = 1d-5
-      double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-8
-      double precision, parameter :: eps_b1 = 1d-5
+      double precision, parameter :: eps_t1 = 1d-4
+      double precision, parameter :: eps_sb = 1d-5
+      double precision, parameter :: eps_b1 = 1d-4
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
       double precision, parameter :: eps_b2t1 = 1d-8
-- 
2.43.0


From 96705ed0daf34afa89382d01bd5e2f171c11496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 34/39] fix: contribution of O(at^2) to the CP-odd Higgs mass
 lacked terms and had a pole at vanishing stop mixing

---
 source/himalaya/mh2l/DSZHiggs.f | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index df8b17e..141b1c4 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -321,19 +321,18 @@ c     end of addition by ALEX
       cbe = dcos(datan(tanb))
       
       ht = dsqrt(2d0/vv)*mt/sbe
-      if (atat.eq.1) then
-        hb = 0d0
-      else
-        hb = dsqrt(2d0/vv)*mb/cbe
-      endif
+      hb = dsqrt(2d0/vv)*mb/cbe
       
       k = 3d0/(16d0*Pi**2)**2 
       
       call makefuncs(t,b,A0,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb,
      $     F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb,FAp,atat)
       
-      DMA = -(ht**2*mu*At/(T1-T2)*Ft + hb**2*mu*Ab/(B1-B2)*Fb
-     $     + 2d0*ht*hb*FAp)/sbe/cbe
+c     FAp contains terms proportional to ht**2/hb, which contribute at
+c     O(at^2); its other terms vanish for atat == 1
+      DMA = ht**2*mu*At/(T1-T2)*Ft + 2d0*ht*hb*FAp
+      if (atat.ne.1) DMA = DMA + hb**2*mu*Ab/(B1-B2)*Fb
+      DMA = -DMA/sbe/cbe
       
       DMA = k*DMA
       
-- 
2.43.0


From c5038816c473e5d020fafc8bce7cca1357ec6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:04 +0000
Subject: [PATCH 35/39] fix: O(at*as) contribution was wrong for degenerate
 stops, if |mst - mg| < mt

---
 source/himalaya/mh2l/DSZHiggs.cpp | 93 +++++++------------------------
 source/himalaya/mh2l/DSZHiggs.h   |  6 ++
 2 files changed, 25 insertions(+), 74 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index 1530e3d..4317546 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -7,7 +7,6 @@
 
 #include "himalaya/mh2l/DSZHiggs.hpp"
 #include "himalaya/mh2l/DSZHiggs.h"
-#include "himalaya/mh2l/Li2f.hpp"
 #include "himalaya/misc/CouplingOrders.hpp"
 #include <cmath>
 #include <iostream>
@@ -32,13 +31,27 @@ template <typename T> T constexpr sqr(T a) { return a * a; }
 template <typename T> T sqrtabs(T a) { return std::sqrt(std::abs(a)); }
 template <typename T> T logabs(T x) { return std::log(std::abs(x)); }
 
+/// function Phi(x/z,y/z) of Davydychev and Tausk
+double phi(double x, double y, double z)
+{
+   return phi_(&x, &y, &z);
+}
+
+/// First derivative of phi[t,T,g] w.r.t. T
+double dphi_010(double t, double T, double g)
+{
+   const double del = sqr(g - t - T) - 4*t*T;
+
+   return (g*(g - t - T)/T*std::log(t/g) + 2*g*std::log(T/g)
+           + (g + t - T)*phi(t,T,g))/del;
+}
+
 /// limit st -> 0 and mst1 -> mst2
 Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    double mt2, double mg, double mst12, double /* mst22 */,
    double /* sxt */, double /* cxt */, double scale2, double mu,
    double tanb, double vev2, double g3, int /* scheme */)
 {
-   constexpr double Pi2 = M_PI * M_PI;
    constexpr double Pi4 = M_PI * M_PI * M_PI * M_PI;
    const double g = sqr(mg);
    const double g2 = sqr(g);
@@ -48,7 +61,6 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    const double T = mst12;
    const double Tsq = sqr(mst12);
    const double del = g2 + tsq + Tsq - 2*(g*t + g*T + t*T);
-   const double rdel = sqrtabs(del);
    const double sb = std::sin(std::atan(tanb));
    const double ht2 = 2./vev2*mt2/sqr(sb);
 
@@ -56,22 +68,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
 
    result(0,0) = 0.;
 
-   result(0,1) = (sqr(g3)*ht2*mg*mt2*mu* (-1 + logabs(t/q) -
-      (T*((2*del* (-(logabs(t/g)/T) - (2*(g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T - g*sqrtabs(del/g2))/
-      (2.*g)))/ (g*sqrtabs(del/g2)* (t - T + g*(-1 +
-      sqrtabs(del/g2)))) + (2*logabs((g - t + T - g*sqrtabs(del/g2))/
-      (2.*g)))/(g*sqrtabs(del/g2)) - (2*((g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T + g*sqrtabs(del/g2))/
-      (2.*g)) + (g - t + T - g*sqrtabs(del/g2))* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g))))/ (g*sqrtabs(del/g2)* (t - T +
-      g*(-1 + sqrtabs(del/g2))))))/ g2 + (2*(g + t - T)*(Pi2 -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g))*logabs((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g))))/ (3.*g2)))/(2.*std::pow(std::abs(del)/g2,1.5))))/
-      (8.*Pi4*T);
+   result(0,1) = (sqr(g3)*ht2*mg*mt2*mu*(-1 + logabs(t/q) -
+      T*dphi_010(t,T,g)))/(8.*Pi4*T);
 
    result(1,0) = result(0,1);
 
@@ -81,27 +79,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
       + T) + 2*g*t*(t + 5*T))*logabs(t/g) +
       4*g2*T*logabs(T/g)))/(del*T) + 2*logabs(T/q) -
       8*sqr(logabs(T/q)) + 5*logabs(Tsq/tsq) + sqr(logabs(Tsq/tsq)) +
-      (4*g2*(g + t - T)*(Pi2 - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/ (2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))* logabs((-rdel + g - t +
-      T)/(2.*g))))/(3.*std::pow(std::abs(del),1.5)) + (4*g*(g + t - T)*(Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((g + t - T - g*sqrtabs(del/g2))/(2.*g))* logabs((g - t
-      + T - g*sqrtabs(del/g2))/(2.*g))))/ (3.*del*sqrtabs(del/g2)) +
-      (8*mg*mu*(1/T - logabs(t/q)/T + (g*(g + t - T)* (Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))*logabs((-rdel + g - t +
-      T)/(2.*g))))/ (3.*std::pow(std::abs(del),1.5)) + (g*(-(logabs(t/g)/T) -
-      (2*(-(g*logabs(4.)) + (rdel + g + t - T)*logabs((-rdel + g + t -
-      T)/g) + (-rdel + g - t + T)*logabs((-rdel + g - t + T)/g)))/
-      (rdel*(rdel - g + t - T)) - 2*(((rdel + g + t - T)* logabs((g +
-      t - T + g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(t - T + g*(-1 +
-      sqrtabs(del/g2)))) - ((rdel - g - t + T)* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(-t + T + g*(-1 +
-      sqrtabs(del/g2)))))))/ rdel))/tanb))/(32.*Pi4);
+      (8*g*(g + t - T)*phi(t,T,g))/del +
+      (8*mg*mu*(1/T - logabs(t/q)/T + dphi_010(t,T,g)))/tanb))/(32.*Pi4);
 
    return result;
 }
@@ -149,40 +128,6 @@ double calc_At(double mt2, double mst12, double mst22,
    return At;
 }
 
-double phi(double x, double y, double z)
-{
-   const double u = x/z, v = y/z;
-   const double lambda = sqrtabs(sqr(1 - u - v) - 4*u*v);
-   const double xp = 0.5 * (1 + (u - v) - lambda);
-   const double xm = 0.5 * (1 - (u - v) - lambda);
-
-   return 1./lambda * (2*logabs(xp)*logabs(xm) - logabs(u)*logabs(v) -
-                       2*(li2(xp) + li2(xm)) + M_PI*M_PI/3.);
-}
-
-/// First derivative of phi[t,T,g] w.r.t. T
-double dphi_010(double t, double T, double g)
-{
-   constexpr double Pi2 = M_PI * M_PI;
-   const double g2 = sqr(g);
-   const double abbr = (-4*t*T)/g2 + sqr(1 - t/g - T/g);
-   const double rabbr = sqrtabs(abbr);
-
-   return ((g + t - T)*(Pi2 - 6*li2((g - rabbr*g + t - T)/(2.*g)) -
-      6*li2((g - rabbr*g - t + T)/(2.*g)) -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g - rabbr*g + t -
-      T)/(2.*g))*logabs((g - rabbr*g - t + T)/(2.*g))) + (3*rabbr*g* (
-      rabbr*g*((-1 + rabbr)*g + t - T)*logabs(t/g) +
-      2*T*(-2*g*logabs(4.) + (g + rabbr*g + t - T)*logabs((g - rabbr*g
-      + t - T)/g) + (g + rabbr*g + t - T)*logabs((g + rabbr*g + t -
-      T)/g) + g*logabs((g - rabbr*g - t + T)/g) - rabbr*g*logabs((g -
-      rabbr*g - t + T)/g) - t*logabs((g - rabbr*g - t + T)/g) +
-      T*logabs((g - rabbr*g - t + T)/g) + g*logabs((g + rabbr*g - t +
-      T)/g) - rabbr*g*logabs((g + rabbr*g - t + T)/g) - t*logabs((g +
-      rabbr*g - t + T)/g) + T*logabs((g + rabbr*g - t + T)/g)) ) ) /
-      (T*(g - rabbr*g - t + T)))/(3.*std::pow(std::abs(abbr),1.5)*g2);
-}
-
 } // anonymous namespace
 
 double delta_ma2_2loop_at_as_mst1_eq_mst2(
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index cc62d7d..ec5ff71 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -189,6 +189,12 @@ int taubotodd_(double * t, double * b,
             double * q, double * mu, double * tanb, double * vv,
             double * dma);
 
+/**
+ * Function phi(x,y,z) from Davydychev and Tausk,
+ * Nucl. Phys. B397 (1993) 23.
+ */
+double phi_(double * x, double * y, double * z);
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 94dd65efec499a3be45982992cc165d3918aacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:04 +0000
Subject: [PATCH 36/39] fix: O(at*as) contribution was dominated by rounding
 errors for almost degenerate stops

---
 source/himalaya/mh2l/DSZHiggs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index 4317546..ed9321f 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -178,7 +178,7 @@ double delta_ma2_2loop_at_as(
    double sxt, double cxt, double scale2, double mu,
    double tanb, double vev2, double g3)
 {
-   if (std::abs((mst12 - mst22)/mst12) < 1e-8) {
+   if (std::abs((mst12 - mst22)/mst12) < 1e-5) {
       const double At = calc_At(mt2, mst12, mst22, sxt, cxt, mu, tanb);
 
       // if At = 0 => mu = 0 => dMA(2L) = 0
@@ -219,7 +219,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as(
 {
    Eigen::Matrix<double, 2, 2> result;
 
-   if (std::abs((mst12 - mst22)/mst12) < 1e-8) {
+   if (std::abs((mst12 - mst22)/mst12) < 1e-5) {
       result = delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
          mt2, mg, mst12, mst22, sxt, cxt, scale2, mu, tanb, vev2, g3, 0);
    } else {
-- 
2.43.0


From e416854c34f7d9853f6121516a2a8faac1b92410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:56 +0000
Subject: [PATCH 37/39] fix: data race of HierarchyCalculator constructors on
 isInfoPrinted

---
 source/himalaya/HierarchyCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index e385f5c..ff21369 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cmath>
 #include <iostream>
 #include <numeric>
@@ -39,7 +40,7 @@
 
 namespace himalaya {
 
-static bool isInfoPrinted; ///< if true, no info will be printed
+static std::atomic<bool> isInfoPrinted{false}; ///< if true, no info will be printed
 
 namespace {
 
@@ -153,9 +154,8 @@ void printInfo()
 HierarchyCalculator::HierarchyCalculator(const Parameters& p_, bool verbose_)
    : p(p_), verbose(verbose_)
 {
-   if (!isInfoPrinted && verbose) {
+   if (verbose && !isInfoPrinted.exchange(true)) {
       printInfo();
-      isInfoPrinted = true;
    }
 
    p.validate(verbose);
-- 
2.43.0


From 122887e1b84d469e80a98ca7f994f95d597f37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:45 +0000
Subject: [PATCH 38/39] fix: Mathematica interface ignored loopOrder -> 0 and
 loopOrder -> 1

---
 .../LibraryLink/Himalaya_LibraryLink.cpp      | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 178bb44..a06857c 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -369,6 +369,18 @@ struct Results {
 
 /******************************************************************/
 
+/// sets contributions beyond the given loop order to zero
+std::tuple<double,double,double> skip_higher_orders(
+   std::tuple<double,double,double> dmh2, int loopOrder)
+{
+   if (loopOrder < 1) std::get<1>(dmh2) = 0.;
+   if (loopOrder < 2) std::get<2>(dmh2) = 0.;
+
+   return dmh2;
+}
+
+/******************************************************************/
+
 Results calculate_results(const Data& data)
 {
    Results res;
@@ -402,19 +414,19 @@ Results calculate_results(const Data& data)
       // calculate fixed-order corrections for v^2 << MS^2
       himalaya::mh2_eft::Mh2EFTCalculator meft(data.pars);
       const auto dmh2_eft_0l = meft.getDeltaMh2EFT0Loop();
-      const auto dmh2_eft_1l = meft.getDeltaMh2EFT1Loop(1,1);
-      const auto dmh2_eft_2l = meft.getDeltaMh2EFT2Loop(1,1);
+      const auto dmh2_eft_1l = data.loopOrder > 0 ? meft.getDeltaMh2EFT1Loop(1,1) : 0.;
+      const auto dmh2_eft_2l = data.loopOrder > 1 ? meft.getDeltaMh2EFT2Loop(1,1) : 0.;
       const auto zero = 0.;
 
       res.eft = std::make_tuple(dmh2_eft_0l, dmh2_eft_1l, dmh2_eft_2l, 0.);
 
       // calculate fixed-order corrections
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo(data.pars);
-      const auto dmh2_fo = mfo.calculate_Mh2(); // 0L, 1L, 2L
+      const auto dmh2_fo = skip_higher_orders(mfo.calculate_Mh2(), data.loopOrder); // 0L, 1L, 2L
 
       // calculate fixed-order corrections O(at*(at + as))
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo_dom(data.pars, true);
-      const auto dmh2_fo_dom = mfo_dom.calculate_Mh2(); // 0L, 1L, 2L
+      const auto dmh2_fo_dom = skip_higher_orders(mfo_dom.calculate_Mh2(), data.loopOrder); // 0L, 1L, 2L
 
       res.fo = std::tuple_cat(dmh2_fo, std::tie(zero));
       res.fo_dom = std::tuple_cat(dmh2_fo_dom, std::tie(zero));
-- 
2.43.0


From 03b43c34628e46b80266ec107c52c8bac7e465b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:45 +0000
Subject: [PATCH 39/39] fix: Mathematica interface ignored bottom -> True below
 three loops

---
 source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index a06857c..d832fc1 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -411,6 +411,8 @@ Results calculate_results(const Data& data)
       res.fo_dom =
          std::make_tuple(dmh2_fo_0l_at, dmh2_fo_1l_at, dmh2_fo_2l_at, dmh2_fo_3l_at);
    } else {
+      res.ho = himalaya::HierarchyObject(data.bottom);
+
       // calculate fixed-order corrections for v^2 << MS^2
       himalaya::mh2_eft::Mh2EFTCalculator meft(data.pars);
       const auto dmh2_eft_0l = meft.getDeltaMh2EFT0Loop();
-- 
2.43.0

