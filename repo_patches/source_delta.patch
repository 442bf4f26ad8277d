From 4dceb2620ea323d76bf3fdec0c4a736bf92c9cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 01/13] fix: C cli3..cli6: use clog1p instead of log(1 - z),
 which loses the result for tiny |z|

---
 src/c/Li3.c | 8 ++++----
 src/c/Li4.c | 8 ++++----
 src/c/Li5.c | 8 ++++----
 src/c/Li6.c | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..e3862f4 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -165,11 +165,11 @@ double _Complex cli3(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
    }
 
@@ -317,11 +317,11 @@ long double _Complex cli3l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
    }
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..210ae83 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -224,12 +224,12 @@ double _Complex cli4(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = 1.0/360.0*(-7*PI4 + lmz2*(-30.0*PI2 - 15.0*lmz2));
       sgn = -1;
    }
@@ -377,12 +377,12 @@ long double _Complex cli4l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = 1.0L/360.0L*(-7*PI4 + lmz2*(-30.0L*PI2 - 15.0L*lmz2));
       sgn = -1;
    }
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..5a6cf3a 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -84,12 +84,12 @@ double _Complex cli5(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -1.0/360.0*lmz*(7*PI4 + lmz2*(10.0*PI2 + 3.0*lmz2));
    }
 
@@ -236,12 +236,12 @@ long double _Complex cli5l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -1.0L/360.0L*lmz*(7*PI4 + lmz2*(10.0L*PI2 + 3.0L*lmz2));
    }
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..2a32ce6 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -86,12 +86,12 @@ double _Complex cli6(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = -31.0*PI6/15120.0 + lmz2*(-7.0/720.0*PI4 + lmz2*(-1.0/144.0*PI2 - 1.0/720.0*lmz2));
       sgn = -1;
    }
@@ -247,12 +247,12 @@ long double _Complex cli6l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = -31.0L*PI6/15120.0L
           + lmz2*(-7.0L/720.0L*PI4 +
                   lmz2*(-1.0L/144.0L*PI2 - 1.0L/720.0L*lmz2));
-- 
2.43.0


From b6f55440feff69c84fd1a70c0242b775c9aa0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 02/13] fix: Fortran cdli3..cdli6: use cdlog1p instead of log(1
 - z), which loses the result for tiny |z|

---
 src/fortran/Li3.f90 | 6 +++---
 src/fortran/Li4.f90 | 6 +++---
 src/fortran/Li5.f90 | 6 +++---
 src/fortran/Li6.f90 | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..9f3884e 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -109,7 +109,7 @@ end function dli3
 !*********************************************************************
 double complex function cdli3(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, dli3
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
@@ -165,7 +165,7 @@ double complex function cdli3(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -174,7 +174,7 @@ double complex function cdli3(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(lmz**2/6 + zeta2)
    endif
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..fafff97 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -164,7 +164,7 @@ end function dli4
 !*********************************************************************
 double complex function cdli4(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -225,7 +225,7 @@ double complex function cdli4(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -235,7 +235,7 @@ double complex function cdli4(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = (-7*PI4 + lmz**2*(-30*PI2 - 15*lmz**2))/360
       sgn = -1
    endif
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..4c274d2 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli5(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli5(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -88,7 +88,7 @@ double complex function cdli5(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(7*PI4 + lmz**2*(10*PI2 + 3*lmz**2))/360
    endif
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..bb2c28e 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli6(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli6(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -89,7 +89,7 @@ double complex function cdli6(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = -31*PI6/15120 + lmz**2*(-7*PI4/720 + lmz**2*(-PI2/144 - lmz**2/720))
       sgn = -1
    endif
-- 
2.43.0


From 1239253d404d67ca4a10ae1e9ed42b48ecb73114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 03/13] fix: C cli2f: use clog1pf instead of clogf(1 - z),
 which is inaccurate for small |z|

---
 src/c/Li2.c |  8 ++++----
 src/c/log.c | 16 ++++++++++++++++
 src/c/log.h |  3 +++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..87e59fa 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -332,22 +332,22 @@ float _Complex cli2f(float _Complex z)
    if (rz <= 0.5f) {
       if (nz > 1.0f) {
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       } else { /* nz <= 1 */
-         u = -clogf(1.0f - z);
+         u = -clog1pf(-z);
          rest = 0;
          sgn = 1;
       }
    } else { /* rz > 0.5f */
       if (nz <= 2*rz) {
          u = -clogf(z);
-         rest = u*clogf(1.0f - z) + PI*PI/6;
+         rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
       } else { /* nz > 2*rz */
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       }
diff --git a/src/c/log.c b/src/c/log.c
index 760c063..7572358 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -8,6 +8,22 @@
 #include <math.h>
 
 
+float _Complex clog1pf(float _Complex z)
+{
+   const float _Complex u = 1.0f + z;
+   const float rz = crealf(u);
+   const float iz = cimagf(u);
+
+   if (rz == 1.0f && iz == 0.0f) {
+      return z;
+   } else if (rz <= 0.0f) {
+      return clogf(u);
+   }
+
+   return clogf(u)*(z/(u - 1.0f));
+}
+
+
 double _Complex clog1p(double _Complex z)
 {
    const double _Complex u = 1.0 + z;
diff --git a/src/c/log.h b/src/c/log.h
index 2a7b0cd..2404ebb 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+/** returns clog(1 + z) with single precision */
+float _Complex clog1pf(float _Complex z);
+
 /** returns clog(1 + z) with double precision */
 double _Complex clog1p(double _Complex z);
 
-- 
2.43.0


From 3cb3c48750e6979a4cf2eb7f6d3268a2759a3d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 04/13] fix: Fortran dcl2..dcl6, dli4: do not overwrite the
 caller's argument

---
 src/fortran/Cl2.f90 | 4 +++-
 src/fortran/Cl3.f90 | 4 +++-
 src/fortran/Cl4.f90 | 4 +++-
 src/fortran/Cl5.f90 | 4 +++-
 src/fortran/Cl6.f90 | 4 +++-
 src/fortran/Li4.f90 | 5 ++++-
 6 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..4713963 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl2(x)
       9.5432542196310670D-6,                &
      -1.8184302880448247D-8                 /)
 
+  x = theta
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..9ddf702 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,7 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = theta
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..2cc8529 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,7 @@ double precision function dcl4(x)
       5.9283675098376635D-7,                &
       9.4127575773361230D-10                /)
 
+  x = theta
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..7dac749 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -12,8 +12,9 @@
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,7 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = theta
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..1b92c67 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl6(x)
       3.5669441618295266D-8,                &
       2.5315391843409925D-10                /)
 
+  x = theta
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index fafff97..925e1cb 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -107,13 +107,16 @@ end function dli4_one
 !> @return \f$\operatorname{Li}_4(x)\f$
 !> @author Alexander Voigt
 !*********************************************************************
-double precision function dli4(x)
+double precision function dli4(arg)
   implicit none
+  double precision, intent(in) :: arg
   double precision :: x, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
 
+  x = arg
+
   ! transform x to [-1,1]
   if (x .lt. -1) then
      l = log(-x)
-- 
2.43.0


From c080660a8701478c8ddbfcd3048ab09a195602c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 05/13] fix: zeta, neg_eta, harmonic: avoid signed integer
 overflow for extreme n

---
 src/cpp/eta.cpp      | 2 +-
 src/cpp/harmonic.cpp | 2 +-
 src/cpp/zeta.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/eta.cpp b/src/cpp/eta.cpp
index c59d618..787742c 100644
--- a/src/cpp/eta.cpp
+++ b/src/cpp/eta.cpp
@@ -85,7 +85,7 @@ double neg_eta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
          return NEG_ETA_NEG_N[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (is_even(1 - (1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
diff --git a/src/cpp/harmonic.cpp b/src/cpp/harmonic.cpp
index 84e3e0d..c408852 100644
--- a/src/cpp/harmonic.cpp
+++ b/src/cpp/harmonic.cpp
@@ -63,7 +63,7 @@ double harmonic(int64_t n) noexcept
       return sum;
    } else {
       const double eulergamma = 0.57721566490153286;
-      return eulergamma + digamma(n + 1);
+      return eulergamma + digamma(n) + 1.0/n;
    }
 }
 
diff --git a/src/cpp/zeta.cpp b/src/cpp/zeta.cpp
index bd691f4..9913a28 100644
--- a/src/cpp/zeta.cpp
+++ b/src/cpp/zeta.cpp
@@ -87,7 +87,7 @@ double zeta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(ZETAS_NEG)/sizeof(ZETAS_NEG[0]))) {
          return ZETAS_NEG[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (is_even(1 - (1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
-- 
2.43.0


From 7335243ea3e5274fa77127446d7b4512ce314e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 06/13] fix: Li(1,z): use log1p, -log(1 - z) loses the result
 for tiny |z|

---
 src/cpp/Li.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..590742f 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -13,6 +13,7 @@
 #include "eta.hpp"
 #include "factorial.hpp"
 #include "harmonic.hpp"
+#include "log.hpp"
 #include "zeta.hpp"
 #include <cmath>
 #include <complex>
@@ -44,6 +45,17 @@ namespace {
       return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
    }
 
+   /// Li_1(z) = -log(1 - z)
+   std::complex<double> Li1(const std::complex<double>& z) noexcept
+   {
+      if (std::imag(z) == 0.0) {
+         return std::real(z) <= 1.0
+            ? std::complex<double>(-std::log1p(-std::real(z)), std::imag(z))
+            : -clog(1.0 - z);
+      }
+      return -log1p(-z);
+   }
+
    /// Series expansion of Li_n(z) in terms of powers of z.
    /// Fast convergence for large n >= 12.
    std::complex<double> Li_series(int64_t n, const std::complex<double>& z) noexcept
@@ -207,7 +219,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
-      return -clog(1.0 - z);
+      return Li1(z);
    } else if (n == 2) {
       return Li2(z);
    } else if (n == 3) {
-- 
2.43.0


From 19f821d4ecb4945004e0acee12042047530c2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 07/13] fix: Li(n,z): leave the O(n) loop of Li_unity_pos once
 the terms have vanished

---
 src/cpp/Li.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 590742f..8f747e9 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -84,6 +84,7 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
+         if (p == 0.0) { return sum; }
          sum += zeta(n - j)*p;
       }
 
-- 
2.43.0


From b08b387227a028001eda6bf29ab90df664607d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 08/13] fix: Li(n,z): do not truncate the inversion remainder
 where 1/j! underflows

---
 src/cpp/Li.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 8f747e9..d9b69e6 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -163,17 +163,17 @@ namespace {
       const std::complex<double> lnz2 = lnz*lnz;
       const int64_t kmax = is_even(n) ? n/2 : (n - 1)/2;
       std::complex<double> p = is_even(n) ? 1.0 : lnz;
-      std::complex<double> sum(0.0, 0.0), old_sum;
+      std::complex<double> sum(0.0, 0.0);
 
       for (int64_t k = kmax; k != 0; --k) {
-         const double ifac = inv_fac(n - 2*k);
-         if (ifac == 0) { return 2.0*sum; }
-         sum += neg_eta(2*k)*ifac*p;
-         p *= lnz2;
-         if (sum == old_sum) { break; }
+         const double j = n - 2*k; // p = log(-z)^j/j!
+         const auto old_sum = sum;
+         sum += neg_eta(2*k)*p;
+         if (sum == old_sum) { return 2.0*sum; }
+         p *= lnz2/((j + 1)*(j + 2));
       }
 
-      return 2.0*sum - p*inv_fac(n);
+      return 2.0*sum - p;
    }
 
 } // anonymous namespace
-- 
2.43.0


From bb257921b43f7f1bbfa8186192c07dd8c2604b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 09/13] fix: Li(n,z): do not loop forever for finite z whose
 modulus overflows

---
 src/cpp/Li.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index d9b69e6..58f1dc0 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -42,7 +42,9 @@ namespace {
       } else if (std::imag(z) == 0.0) {
          return { std::log(-std::real(z)), PI };
       }
-      return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
+      const double r = std::hypot(std::real(z), std::imag(z));
+      if (std::isinf(r)) { return std::log(z); } // |z| overflows
+      return { std::log(r), std::arg(z) };
    }
 
    /// Li_1(z) = -log(1 - z)
-- 
2.43.0


From 8b3c2524cb6392f7c76a851ff0b8303c0d2eff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:58 +0000
Subject: [PATCH 10/13] fix: Li(n,z) with a subnormal imaginary part no longer
 loops forever in Li_series

---
 src/cpp/Li.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 58f1dc0..0981be7 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -34,6 +34,13 @@ namespace {
       return std::isfinite(std::real(z)) && std::isfinite(std::imag(z));
    }
 
+   /// true, if both components are zero or subnormal
+   bool is_tiny(const std::complex<double>& z) noexcept
+   {
+      constexpr double min = std::numeric_limits<double>::min();
+      return std::abs(std::real(z)) < min && std::abs(std::imag(z)) < min;
+   }
+
    /// complex logarithm, converts -0.0 to 0.0
    std::complex<double> clog(const std::complex<double>& z) noexcept
    {
@@ -69,7 +76,10 @@ namespace {
          k++;
          sum_old = sum;
          sum += p;
-         p *= z*std::pow(k/(1.0 + k), n);
+         const std::complex<double> fac = z*std::pow(k/(1.0 + k), n);
+         // a subnormal p may not decrease any further due to rounding
+         if (is_tiny(p) && std::norm(fac) < 1.0) { break; }
+         p *= fac;
          if (!is_finite(p)) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
-- 
2.43.0


From 2c4d28d838bee339ca7b08722aeb51a94dc679da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:27 +0000
Subject: [PATCH 11/13] fix: complex Li2 is wrong if 2*Re(z) overflows

---
 src/c/Li2.c         | 12 ++++++------
 src/cpp/Li2.cpp     | 12 ++++++------
 src/fortran/Li2.f90 |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 87e59fa..7fb8796 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -341,11 +341,11 @@ float _Complex cli2f(float _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5f */
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) { // 2*rz may overflow
          u = -clogf(z);
          rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* nz/2 > rz */
          const float _Complex lz = clogf(-z);
          u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
@@ -422,11 +422,11 @@ double _Complex cli2(double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5 */
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) { // 2*rz may overflow
          u = -clog(z);
          rest = u*clog1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* nz/2 > rz */
          const double _Complex lz = clog(-z);
          u = -clog1p(-1.0/z);
          rest = -0.5*lz*lz - PI*PI/6;
@@ -527,11 +527,11 @@ long double _Complex cli2l(long double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5L */
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) { // 2*rz may overflow
          u = -clogl(z);
          rest = u * clog1pl(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* nz/2 > rz */
          const long double _Complex lz = clogl(-z);
          u = -clog1pl(-1.0L/z);
          rest = -0.5L*lz*lz - PI*PI/6;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..0de952c 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -334,11 +334,11 @@ std::complex<float> Li2(const std::complex<float>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) { // 2*rz may overflow
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // nz/2 > rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
@@ -413,11 +413,11 @@ std::complex<double> Li2(const std::complex<double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) { // 2*rz may overflow
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // nz/2 > rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0/z);
          rest = -0.5*lz*lz - PI*PI/6;
@@ -506,11 +506,11 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5L
-      if (nz <= 2*rz) {
+      if (nz/2 <= rz) { // 2*rz may overflow
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // nz/2 > rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0L/z);
          rest = -0.5L*lz*lz - PI*PI/6;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..3d483a6 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -139,11 +139,11 @@ double complex function cdli2(z)
         sgn = 1
      endif
   else ! rz > 0.5D0
-     if (nz .le. 2*rz) then
+     if (nz/2 .le. rz) then ! 2*rz may overflow
         u = -log(z)
         rest = u*cdlog1p(-z) + PI**2/6
         sgn = -1
-     else ! nz > 2*rz
+     else ! nz/2 > rz
         u = -cdlog1p(-1/z)
         rest = -0.5D0*log(-z)**2 - PI**2/6
         sgn = -1
-- 
2.43.0


From 6ded4bd1b7cb4a6d2055aa041e3586c2f8e78464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:27 +0000
Subject: [PATCH 12/13] fix: Li3..Li6 return NaN or infinity if |z| overflows

---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 6 +++++-
 src/fortran/Li4.f90 | 6 +++++-
 src/fortran/Li5.f90 | 6 +++++-
 src/fortran/Li6.f90 | 6 +++++-
 12 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index e3862f4..bf11439 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -137,7 +137,7 @@ double _Complex cli3(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -269,7 +269,7 @@ long double _Complex cli3l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 210ae83..f00c8b0 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -191,7 +191,7 @@ double _Complex cli4(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u = lnz + pz*I; // clog(z)
@@ -329,7 +329,7 @@ long double _Complex cli4l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u = lnz + pz*I; // clog(z)
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5a6cf3a..5b79493 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -52,7 +52,7 @@ double _Complex cli5(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -187,7 +187,7 @@ long double _Complex cli5l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2a32ce6..757a20a 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -52,7 +52,7 @@ double _Complex cli6(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = isinf(nz) ? creal(clog(z)) : log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -192,7 +192,7 @@ long double _Complex cli6l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = isinf(nz) ? creall(clogl(z)) : logl(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..81bd5ad 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -145,7 +145,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -276,7 +276,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..c39ec0a 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -198,7 +198,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -326,7 +326,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..2bbfc66 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -183,7 +183,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..1832f9c 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -189,7 +189,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::isinf(nz) ? std::real(std::log(z)) : std::log(nz); // |z| may overflow
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 9f3884e..2de983f 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -146,7 +146,11 @@ double complex function cdli3(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .gt. huge(nz)) then ! |z| overflows
+      lnz = dble(log(z))
+   else
+      lnz = log(nz)
+   endif
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 925e1cb..d1681df 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -208,7 +208,11 @@ double complex function cdli4(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .gt. huge(nz)) then ! |z| overflows
+      lnz = dble(log(z))
+   else
+      lnz = log(nz)
+   endif
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 4c274d2..dec29ac 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -59,7 +59,11 @@ double complex function cdli5(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .gt. huge(nz)) then ! |z| overflows
+      lnz = dble(log(z))
+   else
+      lnz = log(nz)
+   endif
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index bb2c28e..8062401 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -60,7 +60,11 @@ double complex function cdli6(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .gt. huge(nz)) then ! |z| overflows
+      lnz = dble(log(z))
+   else
+      lnz = log(nz)
+   endif
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
-- 
2.43.0


From c8c646a193b4e3d4ae1fa177ce2a94d416661b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:43 +0000
Subject: [PATCH 13/13] fix: Li3..Li6 take the wrong branch if arg(z)
 underflows

---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 2 +-
 src/fortran/Li4.f90 | 2 +-
 src/fortran/Li5.f90 | 2 +-
 src/fortran/Li6.f90 | 2 +-
 12 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index bf11439..c980467 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -167,7 +167,7 @@ double _Complex cli3(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -319,7 +319,7 @@ long double _Complex cli3l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0L ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/c/Li4.c b/src/c/Li4.c
index f00c8b0..4ab499d 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -226,7 +226,7 @@ double _Complex cli4(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -clog1p(-1.0/z);
@@ -379,7 +379,7 @@ long double _Complex cli4l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -clog1pl(-1.0L/z);
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5b79493..bb31c5a 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -86,7 +86,7 @@ double _Complex cli5(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -clog1p(-1.0/z);
@@ -238,7 +238,7 @@ long double _Complex cli5l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -clog1pl(-1.0L/z);
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 757a20a..e4d2319 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -88,7 +88,7 @@ double _Complex cli6(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -clog1p(-1.0/z);
@@ -249,7 +249,7 @@ long double _Complex cli6l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -clog1pl(-1.0L/z);
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index 81bd5ad..f9a9fb2 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -175,7 +175,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -317,7 +317,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index c39ec0a..6274e9a 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -224,7 +224,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -369,7 +369,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 2bbfc66..d80a846 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -83,7 +83,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -228,7 +228,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 1832f9c..3e53c1c 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -86,7 +86,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -236,7 +236,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0L || iz > 0.0L ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 2de983f..09504a0 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -172,7 +172,7 @@ double complex function cdli3(z)
       u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index d1681df..952265d 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -236,7 +236,7 @@ double complex function cdli4(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index dec29ac..ea3b5f8 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -86,7 +86,7 @@ double complex function cdli5(z)
       u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 8062401..eddbc8f 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -87,7 +87,7 @@ double complex function cdli6(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
-- 
2.43.0

