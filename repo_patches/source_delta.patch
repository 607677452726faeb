From 618b47a1749e98bec994d286f32728b5c45a71d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:39 +0000
Subject: [PATCH 1/5] fix: epco accepts both letter cases for both epoch codes

The documentation accepts 'B', 'b', 'J' and 'j' for both arguments, but a
result code of 'j' or a given code of 'b' returned 0.0.
---
 src/epco.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/epco.cc b/src/epco.cc
index e080738..d89bee6 100644
--- a/src/epco.cc
+++ b/src/epco.cc
@@ -34,11 +34,15 @@ namespace sla {
 double epco(char result, char given, double epoch) {
     if (result == 'b') {
         result = 'B';
+    } else if (result == 'j') {
+        result = 'J';
     }
     if (result != 'B' && result != 'J') {
         return 0.0;
     }
-    if (given == 'j') {
+    if (given == 'b') {
+        given = 'B';
+    } else if (given == 'j') {
         given = 'J';
     }
     if (given != 'B' && given != 'J') {
-- 
2.43.0


From b5e74842ac952588dbce9c7b4144a5e3ade0e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:24 +0000
Subject: [PATCH 2/5] fix: djcl and djcal no longer overflow for large accepted
 dates

Dates up to MJD 1e9 pass the range check, but 32-bit intermediates
overflowed from about MJD 5.3e8 on and a wrong calendar date was returned.
---
 src/djcal.cc | 4 ++--
 src/djcl.cc  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/djcal.cc b/src/djcal.cc
index e891a62..9b60d78 100644
--- a/src/djcal.cc
+++ b/src/djcal.cc
@@ -56,9 +56,9 @@ bool djcal(int ndp, double mjd, Date& date) {
         const double d = (df - f) / fd;
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001;
 
-        const int n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
+        const long long n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
         const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
 
         date.d_year = n4 / 1461 - 4712;
diff --git a/src/djcl.cc b/src/djcl.cc
index 2482bf1..8cf34dd 100644
--- a/src/djcl.cc
+++ b/src/djcl.cc
@@ -46,9 +46,9 @@ bool djcl(double mjd, Date& date) {
         const double d = f_anint(mjd - f);
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001;
 
-        const int n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
+        const long long n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
         const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
 
         date.d_year = n4 / 1461 - 4712;
-- 
2.43.0


From 9895c9abd3173e01f56de6ee2ae9b9f5b6ff1d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 3/5] fix: fitxy reports no fit when both solid-body solutions
 are singular

The saved residual of the first pass started at 0.0, so a singular first
pass counted as a perfect fit: two coincident samples returned FIT_OK with
an all-zero model instead of FIT_NONE.
---
 src/fitxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitxy.cc b/src/fitxy.cc
index 9367044..62d7e55 100644
--- a/src/fitxy.cc
+++ b/src/fitxy.cc
@@ -66,7 +66,7 @@ FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSample
     double b_old = 0.0;
     double c_old = 0.0;
     double d_old = 0.0;
-    double sdr2_old = 0.0;
+    double sdr2_old = -1.0;
 
     // get floating-point value of the number of samples
     auto num_samples = (const double) nsamples;
-- 
2.43.0


From 41c2aeabe1b8227c898d2ad0cf6a715a02250884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:29 +0000
Subject: [PATCH 4/5] fix: polmo returns a finite azimuth correction for a site
 at the true pole

---
 src/polmo.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/polmo.cc b/src/polmo.cc
index a61911e..3f16bb6 100644
--- a/src/polmo.cc
+++ b/src/polmo.cc
@@ -92,7 +92,7 @@ void polmo(double m_long, double m_phi, double x_pm, double y_pm, double& t_long
 
     const double zw = (-ym * sin_ypm + zm * cos_ypm);
 
-    double xt = xm * cos_xpm - zw * sin_xpm;
+    const double xt = xm * cos_xpm - zw * sin_xpm;
     const double yt = ym * cos_ypm + zm * sin_ypm;
     const double zt = xm * sin_xpm + zw * cos_xpm;
 
@@ -103,10 +103,13 @@ void polmo(double m_long, double m_phi, double x_pm, double y_pm, double& t_long
 
     cos_phi = std::sqrt(xt * xt + yt * yt);
     if (cos_phi == 0.0) {
-        xt = 1.0;
+        // site at the true pole: the longitude is indeterminate, adopt zero
+        sin_long = 0.0;
+        cos_long = 1.0;
+    } else {
+        sin_long = yt / cos_phi;
+        cos_long = xt / cos_phi;
     }
-    sin_long = yt / cos_phi;
-    cos_long = xt / cos_phi;
 
     // return true longitude and true geodetic latitude of site
     t_long = (xt != 0.0 || yt != 0.0)? std::atan2(yt, xt): 0.0;
-- 
2.43.0


From 5be37759a7b9b235ff01fd9df412cfd0ebbd5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:24 +0000
Subject: [PATCH 5/5] fix: svd: scale the remaining superdiagonal when
 cancelling a zero diagonal element

The Givens rotations that cancel ws[l] when w[l-1] is zero also scale the
following superdiagonal element by c; that was missing (as it is present in
EISPACK SVD), so matrices with, say, a zero first column and three or more
columns were decomposed into factors that do not multiply back to the input.
---
 src/svd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/svd.cc b/src/svd.cc
index 49bc8d2..2e450a1 100644
--- a/src/svd.cc
+++ b/src/svd.cc
@@ -273,9 +273,11 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
 
                 // Cancellation of ws[l] if l>1
                 if (cancel) {
+                    c = 0.0;
                     s = 1.0;
                     for (i = l; i <= k; i++) {
                         f = s * ws[i];
+                        ws[i] = c * ws[i];
                         if (an + std::fabs(f) == an) {
                             break;
                         }
-- 
2.43.0

