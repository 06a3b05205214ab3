From 69b2f90dd188025fac7d5606f8c61ff6f062f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:53 +0000
Subject: [PATCH 1/4] fix: epco accepts lower-case 'b' and 'j' for both epoch
 types, as documented

---
 src/epco.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/epco.cc b/src/epco.cc
index e080738..d89bee6 100644
--- a/src/epco.cc
+++ b/src/epco.cc
@@ -34,11 +34,15 @@ namespace sla {
 double epco(char result, char given, double epoch) {
     if (result == 'b') {
         result = 'B';
+    } else if (result == 'j') {
+        result = 'J';
     }
     if (result != 'B' && result != 'J') {
         return 0.0;
     }
-    if (given == 'j') {
+    if (given == 'b') {
+        given = 'B';
+    } else if (given == 'j') {
         given = 'J';
     }
     if (given != 'B' && given != 'J') {
-- 
2.43.0


From 48524fc3a1899f9c73305362da38bd17c0de73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:53 +0000
Subject: [PATCH 2/4] fix: fitxy reports FIT_NONE for two coincident samples
 (solid body rotation)

---
 src/fitxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitxy.cc b/src/fitxy.cc
index 9367044..de75f46 100644
--- a/src/fitxy.cc
+++ b/src/fitxy.cc
@@ -66,7 +66,7 @@ FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSample
     double b_old = 0.0;
     double c_old = 0.0;
     double d_old = 0.0;
-    double sdr2_old = 0.0;
+    double sdr2_old = -1.0; // negative: no solution saved yet
 
     // get floating-point value of the number of samples
     auto num_samples = (const double) nsamples;
-- 
2.43.0


From c0619369a30f063eb49d7032baf90e2262b01346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:53 +0000
Subject: [PATCH 3/4] fix: polmo no longer divides by zero at the true pole

---
 src/polmo.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polmo.cc b/src/polmo.cc
index a61911e..540d7a2 100644
--- a/src/polmo.cc
+++ b/src/polmo.cc
@@ -103,10 +103,14 @@ void polmo(double m_long, double m_phi, double x_pm, double y_pm, double& t_long
 
     cos_phi = std::sqrt(xt * xt + yt * yt);
     if (cos_phi == 0.0) {
+        // at the pole: longitude is indeterminate, use zero
         xt = 1.0;
+        sin_long = 0.0;
+        cos_long = 1.0;
+    } else {
+        sin_long = yt / cos_phi;
+        cos_long = xt / cos_phi;
     }
-    sin_long = yt / cos_phi;
-    cos_long = xt / cos_phi;
 
     // return true longitude and true geodetic latitude of site
     t_long = (xt != 0.0 || yt != 0.0)? std::atan2(yt, xt): 0.0;
-- 
2.43.0


From 6df6b12b891e376a9ef9f0941fb3884e5bca1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:58 +0000
Subject: [PATCH 4/4] fix: svd: carry the rotation over to the superdiagonal
 when cancelling a zero singular value

When a diagonal element of the bidiagonal form vanished exactly, the remaining superdiagonal elements were not
multiplied by the cosine of the rotation, and the factors did not reproduce the matrix.
---
 src/svd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/svd.cc b/src/svd.cc
index 49bc8d2..b24a048 100644
--- a/src/svd.cc
+++ b/src/svd.cc
@@ -273,9 +273,11 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
 
                 // Cancellation of ws[l] if l>1
                 if (cancel) {
+                    c = 0.0;
                     s = 1.0;
                     for (i = l; i <= k; i++) {
                         f = s * ws[i];
+                        ws[i] *= c;
                         if (an + std::fabs(f) == an) {
                             break;
                         }
-- 
2.43.0

