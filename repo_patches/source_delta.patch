From e13f440472096137f3f2d5ea4e77498264290216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 01/23] fix: Fortran dcl2..dcl6 and dli4 must not overwrite the
 caller's argument

---
 src/fortran/Cl2.f90 | 7 +++++--
 src/fortran/Cl3.f90 | 7 +++++--
 src/fortran/Cl4.f90 | 7 +++++--
 src/fortran/Cl5.f90 | 7 +++++--
 src/fortran/Cl6.f90 | 7 +++++--
 src/fortran/Li4.f90 | 7 +++++--
 6 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..5b5ad44 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_2(\theta) = \operatorname{Im}(\operatorname{Li}_2(e^{i\theta}))\f$
-!> @param x real angle
+!> @param x_in real angle
 !> @return \f$\operatorname{Cl}_2(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl2(x)
 
   sgn = 1
 
+  x = x_in
+
   if (x .lt. 0) then
      x = -x
      sgn = -1
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..a68b7d2 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_3(\theta) = \operatorname{Re}(\operatorname{Li}_3(e^{i\theta}))\f$
-!> @param x real angle
+!> @param x_in real angle
 !> @return \f$\operatorname{Cl}_3(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,8 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = x_in
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..9a8a8c8 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_4(\theta) = \operatorname{Im}(\operatorname{Li}_4(e^{i\theta}))\f$
-!> @param x real angle
+!> @param x_in real angle
 !> @return \f$\operatorname{Cl}_4(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -45,6 +46,8 @@ double precision function dcl4(x)
 
   sgn = 1
 
+  x = x_in
+
   if (x .lt. 0) then
      x = -x
      sgn = -1
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..4690e18 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_5(\theta) = \operatorname{Re}(\operatorname{Li}_5(e^{i\theta}))\f$
-!> @param x real angle
+!> @param x_in real angle
 !> @return \f$\operatorname{Cl}_5(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = x_in
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..e0b7955 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_6(\theta) = \operatorname{Im}(\operatorname{Li}_6(e^{i\theta}))\f$
-!> @param x real angle
+!> @param x_in real angle
 !> @return \f$\operatorname{Cl}_6(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl6(x)
 
   sgn = 1
 
+  x = x_in
+
   if (x .lt. 0) then
      x = -x
      sgn = -1
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..cbcdebc 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -103,17 +103,20 @@ end function dli4_one
 
 !*********************************************************************
 !> @brief Real 4-th order polylogarithm \f$\operatorname{Li}_4(x)\f$
-!> @param x real argument
+!> @param x_in real argument
 !> @return \f$\operatorname{Li}_4(x)\f$
 !> @author Alexander Voigt
 !*********************************************************************
-double precision function dli4(x)
+double precision function dli4(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
 
+  x = x_in
+
   ! transform x to [-1,1]
   if (x .lt. -1) then
      l = log(-x)
-- 
2.43.0


From da7d346ec50283da9f5aa023c5fe24266050c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/23] fix: keep relative accuracy of complex Li3..Li6 for
 small |z| in C and Fortran

log(1 - z) looses all digits for small |z| (the result was exactly 0 for
|z| < 1e-16).  Use log1p, as the C++ implementation does.
---
 src/c/Li3.c         | 8 ++++----
 src/c/Li4.c         | 8 ++++----
 src/c/Li5.c         | 8 ++++----
 src/c/Li6.c         | 8 ++++----
 src/fortran/Li3.f90 | 6 +++---
 src/fortran/Li4.f90 | 6 +++---
 src/fortran/Li5.f90 | 6 +++---
 src/fortran/Li6.f90 | 6 +++---
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..e3862f4 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -165,11 +165,11 @@ double _Complex cli3(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
    }
 
@@ -317,11 +317,11 @@ long double _Complex cli3l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
    }
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..210ae83 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -224,12 +224,12 @@ double _Complex cli4(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = 1.0/360.0*(-7*PI4 + lmz2*(-30.0*PI2 - 15.0*lmz2));
       sgn = -1;
    }
@@ -377,12 +377,12 @@ long double _Complex cli4l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = 1.0L/360.0L*(-7*PI4 + lmz2*(-30.0L*PI2 - 15.0L*lmz2));
       sgn = -1;
    }
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..5a6cf3a 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -84,12 +84,12 @@ double _Complex cli5(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -1.0/360.0*lmz*(7*PI4 + lmz2*(10.0*PI2 + 3.0*lmz2));
    }
 
@@ -236,12 +236,12 @@ long double _Complex cli5l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -1.0L/360.0L*lmz*(7*PI4 + lmz2*(10.0L*PI2 + 3.0L*lmz2));
    }
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..2a32ce6 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -86,12 +86,12 @@ double _Complex cli6(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = -31.0*PI6/15120.0 + lmz2*(-7.0/720.0*PI4 + lmz2*(-1.0/144.0*PI2 - 1.0/720.0*lmz2));
       sgn = -1;
    }
@@ -247,12 +247,12 @@ long double _Complex cli6l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = -31.0L*PI6/15120.0L
           + lmz2*(-7.0L/720.0L*PI4 +
                   lmz2*(-1.0L/144.0L*PI2 - 1.0L/720.0L*lmz2));
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..9f3884e 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -109,7 +109,7 @@ end function dli3
 !*********************************************************************
 double complex function cdli3(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, dli3
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
@@ -165,7 +165,7 @@ double complex function cdli3(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -174,7 +174,7 @@ double complex function cdli3(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(lmz**2/6 + zeta2)
    endif
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index cbcdebc..f44bb3f 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -167,7 +167,7 @@ end function dli4
 !*********************************************************************
 double complex function cdli4(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -228,7 +228,7 @@ double complex function cdli4(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -238,7 +238,7 @@ double complex function cdli4(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = (-7*PI4 + lmz**2*(-30*PI2 - 15*lmz**2))/360
       sgn = -1
    endif
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..4c274d2 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli5(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli5(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -88,7 +88,7 @@ double complex function cdli5(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(7*PI4 + lmz**2*(10*PI2 + 3*lmz**2))/360
    endif
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..bb2c28e 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli6(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli6(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -89,7 +89,7 @@ double complex function cdli6(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = -31*PI6/15120 + lmz**2*(-7*PI4/720 + lmz**2*(-PI2/144 - lmz**2/720))
       sgn = -1
    endif
-- 
2.43.0


From adb3b082154f166512d4214fa72f2d4ea3534348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/23] fix: keep relative accuracy of cli2f for small |z|

Use a complex log1p, as the C++ implementation does.
---
 src/c/Li2.c |  8 ++++----
 src/c/log.c | 16 ++++++++++++++++
 src/c/log.h |  3 +++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..87e59fa 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -332,22 +332,22 @@ float _Complex cli2f(float _Complex z)
    if (rz <= 0.5f) {
       if (nz > 1.0f) {
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       } else { /* nz <= 1 */
-         u = -clogf(1.0f - z);
+         u = -clog1pf(-z);
          rest = 0;
          sgn = 1;
       }
    } else { /* rz > 0.5f */
       if (nz <= 2*rz) {
          u = -clogf(z);
-         rest = u*clogf(1.0f - z) + PI*PI/6;
+         rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
       } else { /* nz > 2*rz */
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       }
diff --git a/src/c/log.c b/src/c/log.c
index 760c063..7572358 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -8,6 +8,22 @@
 #include <math.h>
 
 
+float _Complex clog1pf(float _Complex z)
+{
+   const float _Complex u = 1.0f + z;
+   const float rz = crealf(u);
+   const float iz = cimagf(u);
+
+   if (rz == 1.0f && iz == 0.0f) {
+      return z;
+   } else if (rz <= 0.0f) {
+      return clogf(u);
+   }
+
+   return clogf(u)*(z/(u - 1.0f));
+}
+
+
 double _Complex clog1p(double _Complex z)
 {
    const double _Complex u = 1.0 + z;
diff --git a/src/c/log.h b/src/c/log.h
index 2a7b0cd..2404ebb 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+/** returns clog(1 + z) with single precision */
+float _Complex clog1pf(float _Complex z);
+
 /** returns clog(1 + z) with double precision */
 double _Complex clog1p(double _Complex z);
 
-- 
2.43.0


From 232047b12a6eb4a2e635b7275d968dbab6b1a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 04/23] fix: overflow in region selection of complex Li2 for
 huge Re(z)

For Re(z) > MAX/2 both sides of nz <= 2*Re(z) overflow and the wrong
transformation was chosen, giving completely wrong finite results.
---
 src/c/Li2.c         | 6 +++---
 src/cpp/Li2.cpp     | 6 +++---
 src/fortran/Li2.f90 | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 87e59fa..70f9dd5 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -341,7 +341,7 @@ float _Complex cli2f(float _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5f */
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -clogf(z);
          rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
@@ -422,7 +422,7 @@ double _Complex cli2(double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5 */
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -clog(z);
          rest = u*clog1p(-z) + PI*PI/6;
          sgn = -1;
@@ -527,7 +527,7 @@ long double _Complex cli2l(long double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5L */
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -clogl(z);
          rest = u * clog1pl(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..dcb6cb8 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -334,7 +334,7 @@ std::complex<float> Li2(const std::complex<float>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -413,7 +413,7 @@ std::complex<double> Li2(const std::complex<double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -506,7 +506,7 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5L
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..6c9fefd 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -139,7 +139,7 @@ double complex function cdli2(z)
         sgn = 1
      endif
   else ! rz > 0.5D0
-     if (nz .le. 2*rz) then
+     if (0.5D0*nz .le. rz) then
         u = -log(z)
         rest = u*cdlog1p(-z) + PI**2/6
         sgn = -1
-- 
2.43.0


From 56edf59876132603d8faee948c9c20aa2dbcd4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 05/23] fix: complex Li3..Li6 on the wrong side of the cut if
 arg(z) underflows

For Im(z) > 0 with Im(z)/Re(z) underflowing, arg(z) is zero and ln(-z)
was evaluated on the opposite side of the branch cut.
---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 2 +-
 src/fortran/Li4.f90 | 2 +-
 src/fortran/Li5.f90 | 2 +-
 src/fortran/Li6.f90 | 2 +-
 12 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index e3862f4..ad338ae 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -167,7 +167,7 @@ double _Complex cli3(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -319,7 +319,7 @@ long double _Complex cli3l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0L ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 210ae83..ef0fd08 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -226,7 +226,7 @@ double _Complex cli4(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -clog1p(-1.0/z);
@@ -379,7 +379,7 @@ long double _Complex cli4l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -clog1pl(-1.0L/z);
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5a6cf3a..5b2d9eb 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -86,7 +86,7 @@ double _Complex cli5(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -clog1p(-1.0/z);
@@ -238,7 +238,7 @@ long double _Complex cli5l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -clog1pl(-1.0L/z);
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2a32ce6..c5f8b08 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -88,7 +88,7 @@ double _Complex cli6(double _Complex z)
    if (nz <= 1.0) {
       u = -clog1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -clog1p(-1.0/z);
@@ -249,7 +249,7 @@ long double _Complex cli6l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -clog1pl(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -clog1pl(-1.0L/z);
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..c1c5cb0 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -175,7 +175,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -317,7 +317,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..6b89c36 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -224,7 +224,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -369,7 +369,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..c6c8a12 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -83,7 +83,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -228,7 +228,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..5f46090 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -86,7 +86,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -236,7 +236,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = pz > 0.0 || iz > 0.0 ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 9f3884e..faac090 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -168,7 +168,7 @@ double complex function cdli3(z)
       u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index f44bb3f..16b15dc 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -232,7 +232,7 @@ double complex function cdli4(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 4c274d2..7206533 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -82,7 +82,7 @@ double complex function cdli5(z)
       u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index bb2c28e..875a33a 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -83,7 +83,7 @@ double complex function cdli6(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
-- 
2.43.0


From efc0a5cbe1d1d267b4bc771da66e943ed995150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 06/23] fix: Fortran cdli2 returned uninitialized memory for
 NaN real part

---
 src/fortran/Li2.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 6c9fefd..8a9cadc 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -115,8 +115,11 @@ double complex function cdli2(z)
 
   ! special cases
   if (iz .eq. 0) then
-     if (rz .le. 1) cdli2 = dcmplx(dli2(rz), iz)
-     if (rz .gt. 1) cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     if (rz .le. 1) then
+        cdli2 = dcmplx(dli2(rz), iz)
+     else
+        cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     endif
      return
   endif
 
-- 
2.43.0


From 774e1b8f88e966e96d007b65709ac4f137a00510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 07/23] fix: Li(n,z) did not return in reasonable time for
 large n and |z| ~ 1

The number of iterations of the series around z = 1 was proportional
to n and n + 3 could overflow.  Stop when the terms have become zero.
---
 src/cpp/Li.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..599b804 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -72,6 +72,7 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
+         if (p == 0.0) { return sum; }
          sum += zeta(n - j)*p;
       }
 
-- 
2.43.0


From 39caf181dd73bd8d3df02f062fbf9525018d79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 08/23] fix: Li(n,z) with n < 0 for large |z|

For n = -1 the square of 1 - z overflowed, for n < -1 all digits were
lost due to cancellations in the repeated use of the square formula.
Use the inversion formula instead.
---
 src/cpp/Li.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 599b804..df7feb2 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -200,11 +200,13 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
          return Li_series(n, z);
       } else if (nl < 0.512*0.512*4*PI*PI) {
          return Li_unity_neg(n, z);
+      } else if (nz > 1) {
+         return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
       }
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
-      return z/((1.0 - z)*(1.0 - z));
+      return z/(1.0 - z)/(1.0 - z);
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
-- 
2.43.0


From 70ba8450312455f6fe54ea7c3706c929f2259578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 09/23] fix: Li(n,z) for large n and large |z|

The powers of ln(-z) overflowed (resulting in NaN) and the sum over
k was truncated too early, because the inverse factorials underflow for
n - 2k > 170 while the product with the power of ln(-z) is still large.
---
 src/cpp/Li.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index df7feb2..ecbbced 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -150,18 +150,16 @@ namespace {
       const std::complex<double> lnz = clog(-z);
       const std::complex<double> lnz2 = lnz*lnz;
       const int64_t kmax = is_even(n) ? n/2 : (n - 1)/2;
-      std::complex<double> p = is_even(n) ? 1.0 : lnz;
-      std::complex<double> sum(0.0, 0.0), old_sum;
+      std::complex<double> p = is_even(n) ? 1.0 : lnz; // lnz^(n-2k)/(n-2k)!
+      std::complex<double> sum(0.0, 0.0);
 
       for (int64_t k = kmax; k != 0; --k) {
-         const double ifac = inv_fac(n - 2*k);
-         if (ifac == 0) { return 2.0*sum; }
-         sum += neg_eta(2*k)*ifac*p;
-         p *= lnz2;
-         if (sum == old_sum) { break; }
+         if (p == 0.0 || !is_finite(p)) { break; }
+         sum += neg_eta(2*k)*p;
+         p *= lnz2/(static_cast<double>(n - 2*k + 1)*static_cast<double>(n - 2*k + 2));
       }
 
-      return 2.0*sum - p*inv_fac(n);
+      return 2.0*sum - p;
    }
 
 } // anonymous namespace
-- 
2.43.0


From 12ff13168073b60ef5188ae1de8ea8b67b7f9dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 10/23] fix: signed integer overflows for n close to the limits
 of int64_t

In particular harmonic(INT64_MAX) was NaN.
---
 src/cpp/Li.cpp       | 2 ++
 src/cpp/eta.cpp      | 2 +-
 src/cpp/harmonic.cpp | 2 +-
 src/cpp/zeta.cpp     | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index ecbbced..ae39685 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -14,6 +14,7 @@
 #include "factorial.hpp"
 #include "harmonic.hpp"
 #include "zeta.hpp"
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstdint>
@@ -192,6 +193,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       return {neg_eta(n), std::imag(z)};
    } else if (n < -1) {
       // arXiv:2010.09860
+      n = std::max(n, std::numeric_limits<int64_t>::min() + 4); // avoid overflow
       const double nz = std::norm(z);
       const double nl = std::norm(clog(z));
       if (4*PI*PI*nz < nl) {
diff --git a/src/cpp/eta.cpp b/src/cpp/eta.cpp
index c59d618..8de3036 100644
--- a/src/cpp/eta.cpp
+++ b/src/cpp/eta.cpp
@@ -85,7 +85,7 @@ double neg_eta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
          return NEG_ETA_NEG_N[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even((1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
diff --git a/src/cpp/harmonic.cpp b/src/cpp/harmonic.cpp
index 84e3e0d..c408852 100644
--- a/src/cpp/harmonic.cpp
+++ b/src/cpp/harmonic.cpp
@@ -63,7 +63,7 @@ double harmonic(int64_t n) noexcept
       return sum;
    } else {
       const double eulergamma = 0.57721566490153286;
-      return eulergamma + digamma(n + 1);
+      return eulergamma + digamma(n) + 1.0/n;
    }
 }
 
diff --git a/src/cpp/zeta.cpp b/src/cpp/zeta.cpp
index bd691f4..fdcf17b 100644
--- a/src/cpp/zeta.cpp
+++ b/src/cpp/zeta.cpp
@@ -87,7 +87,7 @@ double zeta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(ZETAS_NEG)/sizeof(ZETAS_NEG[0]))) {
          return ZETAS_NEG[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even((1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
-- 
2.43.0


From 30eeac2620760d2a8aedfe346ec8b52a96d982bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 11/23] fix: keep relative accuracy of Li(1,z) for small |z|

1 - z looses all digits for small |z| (the result was exactly 0 for
|z| < 1e-16).
---
 src/cpp/Li.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index ae39685..712c2d9 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -13,6 +13,7 @@
 #include "eta.hpp"
 #include "factorial.hpp"
 #include "harmonic.hpp"
+#include "log.hpp"
 #include "zeta.hpp"
 #include <algorithm>
 #include <cmath>
@@ -210,7 +211,10 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
-      return -clog(1.0 - z);
+      if (std::imag(z) == 0.0 && std::real(z) > 1.0) {
+         return -clog(1.0 - z);
+      }
+      return -log1p(-z);
    } else if (n == 2) {
       return Li2(z);
    } else if (n == 3) {
-- 
2.43.0


From edc2e7ac5a3dc48806115bd6653a6479ccd9bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 12/23] fix: endless loop in Li(n,z) for tiny but non-zero
 Im(z)

For example Li(7, 0.7 + 1e-310 i): the imaginary part of the terms got
stuck at the smallest subnormal number and the series never terminated.
---
 src/cpp/Li.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 712c2d9..8b46fa1 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -58,7 +58,7 @@ namespace {
          sum_old = sum;
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
-         if (!is_finite(p)) { break; }
+         if (!is_finite(p) || std::abs(p) < std::numeric_limits<double>::min()) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
-- 
2.43.0


From f351f1247dc97543b9d0d28a4fefdb6c750f7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 13/23] fix: Cl1(x) and Cl(n,x) for the smallest subnormal x

0.5*x underflows, which resulted in Cl1(x) = inf and Cl(n,x) = NaN for
n = 7, 8, 9.
---
 src/cpp/Cl.cpp  | 6 +++---
 src/cpp/Cl1.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpp/Cl.cpp b/src/cpp/Cl.cpp
index 1605f18..05cb3fa 100644
--- a/src/cpp/Cl.cpp
+++ b/src/cpp/Cl.cpp
@@ -307,9 +307,9 @@ double Cl(int64_t n, double x)
       const double sign1 = is_even((n + 1)/2) ? 1.0 : -1.0;
 
       // first line in Eq.(2.13)
-      const double term1 = x == 0 ? 0
-         : sign1*std::pow(x, n - 1)*inverse_factorial[n - 1] *
-           std::log(2*std::sin(x/2));
+      const double xn1 = std::pow(x, n - 1);
+      const double term1 = xn1 == 0 ? 0
+         : sign1*xn1*inverse_factorial[n - 1]*std::log(2*std::sin(x/2));
 
       const double sign2 = is_even(n/2) ? 1.0 : -1.0;
 
diff --git a/src/cpp/Cl1.cpp b/src/cpp/Cl1.cpp
index cca4465..c5bb606 100644
--- a/src/cpp/Cl1.cpp
+++ b/src/cpp/Cl1.cpp
@@ -39,7 +39,7 @@ double Cl1(double x) noexcept
       return std::numeric_limits<double>::infinity();
    }
 
-   return -std::log(2.0*std::sin(0.5*x));
+   return -std::log(x < 1e-8 ? x : 2.0*std::sin(0.5*x));
 }
 
 } // namespace polylogarithm
-- 
2.43.0


From e6d58e3a011df82dfc93e152c3964887bc14909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 14/23] fix: Li(n,z) with n < 0 was inaccurate or completely
 wrong

* The power series suffers from cancellations for Re(z) < 0, e.g. 0.2 %
  error for Li(-20,-0.505) and a wrong sign for smaller n.
* The series around z = 1 was stopped before its terms started to
  grow (n < -20) or when they overflowed, e.g. Li(-60,-1.01) had no
  correct digit, and was NaN for n < -170.  Use the sum over the
  poles for n < -20.
* Overflow of the power series was silently dropped.
---
 src/cpp/Li.cpp | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 8b46fa1..26c382c 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -58,7 +58,8 @@ namespace {
          sum_old = sum;
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
-         if (!is_finite(p) || std::abs(p) < std::numeric_limits<double>::min()) { break; }
+         if (!is_finite(p)) { return sum + p; }
+         if (std::abs(p) < std::numeric_limits<double>::min()) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
@@ -146,6 +147,34 @@ namespace {
       return sum;
    }
 
+   /// Sum over the poles of Li_n(z) at ln(z) = 2*pi*i*k, n < 0.
+   /// Fast convergence for n << 0.
+   std::complex<double> Li_poles(int64_t n, const std::complex<double>& z) noexcept
+   {
+      // returns (-n)!/x^(1 - n)
+      const auto pole = [n] (const std::complex<double>& x) {
+         const std::complex<double> xinv = 1.0/x;
+         std::complex<double> p = xinv;
+         for (int64_t k = 1; k <= -n && is_finite(p); ++k) {
+            p *= static_cast<double>(k)*xinv;
+         }
+         return p;
+      };
+
+      const std::complex<double> lnz = clog(z);
+      std::complex<double> sum = pole(-lnz), old_sum;
+      int64_t k = 0;
+
+      do {
+         k++;
+         const std::complex<double> ik(0.0, 2*PI*k);
+         old_sum = sum;
+         sum += pole(ik - lnz) + pole(-ik - lnz);
+      } while (sum != old_sum && is_finite(sum) && k < 1000);
+
+      return sum;
+   }
+
    /// returns remainder from inversion formula
    std::complex<double> Li_rest(int64_t n, const std::complex<double>& z) noexcept
    {
@@ -196,13 +225,17 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       // arXiv:2010.09860
       n = std::max(n, std::numeric_limits<int64_t>::min() + 4); // avoid overflow
       const double nz = std::norm(z);
-      const double nl = std::norm(clog(z));
-      if (4*PI*PI*nz < nl) {
+      const std::complex<double> lnz = clog(z);
+      const double nl = std::norm(lnz);
+      // use the power series only if there are no large cancellations
+      if (4*PI*PI*nz < nl && std::norm(std::real(lnz)) > 2.5*(1.0 - n)) {
          return Li_series(n, z);
+      } else if (nz > 1 && nl >= 0.512*0.512*4*PI*PI) {
+         return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
+      } else if (n < -20) {
+         return Li_poles(n, z);
       } else if (nl < 0.512*0.512*4*PI*PI) {
          return Li_unity_neg(n, z);
-      } else if (nz > 1) {
-         return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
       }
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
-- 
2.43.0


From ac0c3d74eb69ec642f50b2d0cdcd91a3a053f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 15/23] fix: complex Li3..Li6 below the cut if arg(z)
 underflows near z = 2

For Im(z) equal to the smallest positive subnormal number and 2 <=
Re(z) < e the argument of z underflowed to 0, in which case the value
below the branch cut was returned.
---
 src/c/Li3.c         | 8 ++++++--
 src/c/Li4.c         | 8 ++++++--
 src/c/Li5.c         | 8 ++++++--
 src/c/Li6.c         | 8 ++++++--
 src/cpp/Li3.cpp     | 8 ++++++--
 src/cpp/Li4.cpp     | 8 ++++++--
 src/cpp/Li5.cpp     | 8 ++++++--
 src/cpp/Li6.cpp     | 8 ++++++--
 src/fortran/Li3.f90 | 2 ++
 src/fortran/Li4.f90 | 2 ++
 src/fortran/Li5.f90 | 2 ++
 src/fortran/Li6.f90 | 2 ++
 12 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index ad338ae..ec64c4a 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -136,9 +136,11 @@ double _Complex cli3(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   double pz = atan2(iz, rz);
    const double lnz = log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
       const double _Complex u2 = u*u;
@@ -268,9 +270,11 @@ long double _Complex cli3l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   long double pz = atan2l(iz, rz);
    const long double lnz = logl(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
       const long double _Complex u2 = u*u;
diff --git a/src/c/Li4.c b/src/c/Li4.c
index ef0fd08..3234a87 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -190,9 +190,11 @@ double _Complex cli4(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   double pz = atan2(iz, rz);
    const double lnz = log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u = lnz + pz*I; // clog(z)
       const double _Complex u2 = u*u;
@@ -328,9 +330,11 @@ long double _Complex cli4l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   long double pz = atan2l(iz, rz);
    const long double lnz = logl(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u = lnz + pz*I; // clog(z)
       const long double _Complex u2 = u*u;
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5b2d9eb..dc04084 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -51,9 +51,11 @@ double _Complex cli5(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   double pz = atan2(iz, rz);
    const double lnz = log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
       const double _Complex u2 = u*u;
@@ -186,9 +188,11 @@ long double _Complex cli5l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   long double pz = atan2l(iz, rz);
    const long double lnz = logl(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
       const long double _Complex u2 = u*u;
diff --git a/src/c/Li6.c b/src/c/Li6.c
index c5f8b08..04be77a 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -51,9 +51,11 @@ double _Complex cli6(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   double pz = atan2(iz, rz);
    const double lnz = log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
       const double _Complex u2 = u*u;
@@ -191,9 +193,11 @@ long double _Complex cli6l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   long double pz = atan2l(iz, rz);
    const long double lnz = logl(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
       const long double _Complex u2 = u*u;
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index c1c5cb0..b414d20 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -144,9 +144,11 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   double pz = std::arg(z);
    const double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
       const auto u2 = u*u;
@@ -275,9 +277,11 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   long double pz = std::arg(z);
    const long double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
       const auto u2 = u*u;
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index 6b89c36..3376a1e 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -197,9 +197,11 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   double pz = std::arg(z);
    const double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
       const double c1 = 1.2020569031595943; // zeta(3)
@@ -325,9 +327,11 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   long double pz = std::arg(z);
    const long double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
       const long double c1 = 1.20205690315959428539973816151144999L; // zeta(3)
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index c6c8a12..2f24afc 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -54,9 +54,11 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   double pz = std::arg(z);
    const double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
       const double c0 = zeta5;
@@ -182,9 +184,11 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   long double pz = std::arg(z);
    const long double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
       const long double c0 = zeta5;
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 5f46090..0abfe85 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -54,9 +54,11 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   double pz = std::arg(z);
    const double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
       const double c0 = zeta6;
@@ -188,9 +190,11 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   long double pz = std::arg(z);
    const long double lnz = std::log(nz);
 
+   if (pz == 0) { pz = iz; } // arg(z) underflowed
+
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
       const long double c0 = zeta6;
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index faac090..8de68a4 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -148,6 +148,8 @@ double complex function cdli3(z)
    pz  = datan2(iz, rz)
    lnz = log(nz)
 
+   if (pz .eq. 0) pz = iz ! arg(z) underflowed
+
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 16b15dc..5142b5e 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -210,6 +210,8 @@ double complex function cdli4(z)
    pz  = datan2(iz, rz)
    lnz = log(nz)
 
+   if (pz .eq. 0) pz = iz ! arg(z) underflowed
+
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 7206533..5c97e2d 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -61,6 +61,8 @@ double complex function cdli5(z)
    pz  = datan2(iz, rz)
    lnz = log(nz)
 
+   if (pz .eq. 0) pz = iz ! arg(z) underflowed
+
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 875a33a..a728a71 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -62,6 +62,8 @@ double complex function cdli6(z)
    pz  = datan2(iz, rz)
    lnz = log(nz)
 
+   if (pz .eq. 0) pz = iz ! arg(z) underflowed
+
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
       u2 = u**2
-- 
2.43.0


From bca7c16da745da0151cb4651310a1c1e71506a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 16/23] fix: overflow of |z| in complex Li3..Li6 and Li(n,z)

For finite z with |z| > largest representable number the result was NaN
or infinite.
---
 src/c/Li3.c         | 6 ++++--
 src/c/Li4.c         | 6 ++++--
 src/c/Li5.c         | 6 ++++--
 src/c/Li6.c         | 6 ++++--
 src/cpp/Li.cpp      | 7 ++++++-
 src/cpp/Li3.cpp     | 7 +++++--
 src/cpp/Li4.cpp     | 7 +++++--
 src/cpp/Li5.cpp     | 7 +++++--
 src/cpp/Li6.cpp     | 7 +++++--
 src/fortran/Li3.f90 | 6 +++++-
 src/fortran/Li4.f90 | 6 +++++-
 src/fortran/Li5.f90 | 6 +++++-
 src/fortran/Li6.f90 | 6 +++++-
 13 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index ec64c4a..7b68e86 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -137,7 +137,8 @@ double _Complex cli3(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    double pz = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = nz <= DBL_MAX ?
+      log(nz) : log(hypot(rz/2, iz/2)) + log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -271,7 +272,8 @@ long double _Complex cli3l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    long double pz = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = nz <= LDBL_MAX ?
+      logl(nz) : logl(hypotl(rz/2, iz/2)) + logl(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 3234a87..94283e1 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -191,7 +191,8 @@ double _Complex cli4(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    double pz = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = nz <= DBL_MAX ?
+      log(nz) : log(hypot(rz/2, iz/2)) + log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -331,7 +332,8 @@ long double _Complex cli4l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    long double pz = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = nz <= LDBL_MAX ?
+      logl(nz) : logl(hypotl(rz/2, iz/2)) + logl(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/c/Li5.c b/src/c/Li5.c
index dc04084..3034a71 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -52,7 +52,8 @@ double _Complex cli5(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    double pz = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = nz <= DBL_MAX ?
+      log(nz) : log(hypot(rz/2, iz/2)) + log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -189,7 +190,8 @@ long double _Complex cli5l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    long double pz = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = nz <= LDBL_MAX ?
+      logl(nz) : logl(hypotl(rz/2, iz/2)) + logl(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 04be77a..aa72ee5 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -52,7 +52,8 @@ double _Complex cli6(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    double pz = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = nz <= DBL_MAX ?
+      log(nz) : log(hypot(rz/2, iz/2)) + log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -194,7 +195,8 @@ long double _Complex cli6l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    long double pz = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = nz <= LDBL_MAX ?
+      logl(nz) : logl(hypotl(rz/2, iz/2)) + logl(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 26c382c..3d3ff98 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -43,7 +43,12 @@ namespace {
       } else if (std::imag(z) == 0.0) {
          return { std::log(-std::real(z)), PI };
       }
-      return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
+
+      const double az = std::hypot(std::real(z), std::imag(z));
+      const double lnz = az <= std::numeric_limits<double>::max() ?
+         std::log(az) : std::log(std::abs(z/2.0)) + std::log(2.0);
+
+      return { lnz, std::arg(z) };
    }
 
    /// Series expansion of Li_n(z) in terms of powers of z.
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index b414d20..3d91c27 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -10,6 +10,7 @@
 #include <cfloat>
 #include <cmath>
 #include <complex>
+#include <limits>
 
 namespace polylogarithm {
 
@@ -145,7 +146,8 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    double pz = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = nz <= std::numeric_limits<double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0)) + std::log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -278,7 +280,8 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    long double pz = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = nz <= std::numeric_limits<long double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0L)) + std::log(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index 3376a1e..40827d7 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -10,6 +10,7 @@
 #include <cfloat>
 #include <cmath>
 #include <complex>
+#include <limits>
 
 namespace polylogarithm {
 
@@ -198,7 +199,8 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    double pz = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = nz <= std::numeric_limits<double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0)) + std::log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -328,7 +330,8 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    long double pz = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = nz <= std::numeric_limits<long double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0L)) + std::log(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 2f24afc..51810ac 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -10,6 +10,7 @@
 #include <cfloat>
 #include <cmath>
 #include <complex>
+#include <limits>
 
 namespace polylogarithm {
 
@@ -55,7 +56,8 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    double pz = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = nz <= std::numeric_limits<double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0)) + std::log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -185,7 +187,8 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    long double pz = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = nz <= std::numeric_limits<long double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0L)) + std::log(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 0abfe85..a1f337d 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -10,6 +10,7 @@
 #include <cfloat>
 #include <cmath>
 #include <complex>
+#include <limits>
 
 namespace polylogarithm {
 
@@ -55,7 +56,8 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    double pz = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = nz <= std::numeric_limits<double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0)) + std::log(2.0);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
@@ -191,7 +193,8 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    long double pz = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = nz <= std::numeric_limits<long double>::max() ?
+      std::log(nz) : std::log(std::abs(z/2.0L)) + std::log(2.0L);
 
    if (pz == 0) { pz = iz; } // arg(z) underflowed
 
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 8de68a4..38ded11 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -146,7 +146,11 @@ double complex function cdli3(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .le. huge(nz)) then
+      lnz = log(nz)
+   else
+      lnz = log(hypot(rz/2, iz/2)) + log(2D0)
+   end if
 
    if (pz .eq. 0) pz = iz ! arg(z) underflowed
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 5142b5e..638723c 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -208,7 +208,11 @@ double complex function cdli4(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .le. huge(nz)) then
+      lnz = log(nz)
+   else
+      lnz = log(hypot(rz/2, iz/2)) + log(2D0)
+   end if
 
    if (pz .eq. 0) pz = iz ! arg(z) underflowed
 
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 5c97e2d..8ab1432 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -59,7 +59,11 @@ double complex function cdli5(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .le. huge(nz)) then
+      lnz = log(nz)
+   else
+      lnz = log(hypot(rz/2, iz/2)) + log(2D0)
+   end if
 
    if (pz .eq. 0) pz = iz ! arg(z) underflowed
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index a728a71..30631d8 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -60,7 +60,11 @@ double complex function cdli6(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   if (nz .le. huge(nz)) then
+      lnz = log(nz)
+   else
+      lnz = log(hypot(rz/2, iz/2)) + log(2D0)
+   end if
 
    if (pz .eq. 0) pz = iz ! arg(z) underflowed
 
-- 
2.43.0


From 3b000024360ac00cb98ee6570292b3f05878caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 17/23] fix: Li(n,z) did not return when rounding upwards

In the series around z = 1 the terms do not become smaller than the
smallest subnormal number, and the sum changes with every term.
---
 src/cpp/Li.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 3d3ff98..9103e12 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -97,7 +97,7 @@ namespace {
          p *= lnz2/static_cast<double>((j - 1)*j);
          const auto old_sum = sum;
          sum += zeta(n - j)*p;
-         if (sum == old_sum) { break; }
+         if (sum == old_sum || std::abs(p) < std::numeric_limits<double>::min()) { break; }
       }
 
       return sum;
-- 
2.43.0


From 72901851627528c4acc5acd1a4c2a342f3e3fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 18/23] fix: Li(n,z) for huge n did not return in directed
 rounding modes

The remaining two loops which ended only when a power of ln(z) became
exactly zero.
---
 src/cpp/Li.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 9103e12..5693441 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -80,8 +80,8 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
-         if (p == 0.0) { return sum; }
          sum += zeta(n - j)*p;
+         if (std::abs(p) < std::numeric_limits<double>::min()) { return sum; }
       }
 
       p *= lnz/static_cast<double>(n - 1);
@@ -190,7 +190,7 @@ namespace {
       std::complex<double> sum(0.0, 0.0);
 
       for (int64_t k = kmax; k != 0; --k) {
-         if (p == 0.0 || !is_finite(p)) { break; }
+         if (std::abs(p) < std::numeric_limits<double>::min() || !is_finite(p)) { break; }
          sum += neg_eta(2*k)*p;
          p *= lnz2/(static_cast<double>(n - 2*k + 1)*static_cast<double>(n - 2*k + 2));
       }
-- 
2.43.0


From 03e58c39c2f700dc0cdc70a0316744d73e3592bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 19/23] fix: Li(n,z), n < -1000: overflow where the result is
 representable

---
 src/cpp/Li.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 5693441..01df7f4 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -51,6 +51,26 @@ namespace {
       return { lnz, std::arg(z) };
    }
 
+   /// Series expansion of Li_n(z) in terms of powers of z, n << 0.
+   /// Avoids the overflow of k^(-n) if k^(-n)*z^k is representable.
+   std::complex<double> Li_series_neg(int64_t n, const std::complex<double>& z) noexcept
+   {
+      const double az = std::abs(z);
+      const double lnaz = std::log(az);
+      const std::complex<double> phase = z/az;
+      std::complex<double> sum(0.0, 0.0), sum_old(0.0, 0.0), p(1.0, 0.0);
+      int64_t k = 0;
+
+      do {
+         k++;
+         sum_old = sum;
+         p *= phase;
+         sum += p*std::exp(k*lnaz - n*std::log(k));
+      } while (sum != sum_old && is_finite(sum));
+
+      return sum;
+   }
+
    /// Series expansion of Li_n(z) in terms of powers of z.
    /// Fast convergence for large n >= 12.
    std::complex<double> Li_series(int64_t n, const std::complex<double>& z) noexcept
@@ -234,7 +254,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const double nl = std::norm(lnz);
       // use the power series only if there are no large cancellations
       if (4*PI*PI*nz < nl && std::norm(std::real(lnz)) > 2.5*(1.0 - n)) {
-         return Li_series(n, z);
+         return n < -1000 ? Li_series_neg(n, z) : Li_series(n, z);
       } else if (nz > 1 && nl >= 0.512*0.512*4*PI*PI) {
          return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
       } else if (n < -20) {
-- 
2.43.0


From 77e8bd1683fcd4af7ebf4eefbe376da3efd05333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:16 +0000
Subject: [PATCH 20/23] fix: Li(n,z), -1000 <= n < 0: term of the series
 dropped for tiny z

---
 src/cpp/Li.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 01df7f4..0fb4460 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -83,8 +83,7 @@ namespace {
          sum_old = sum;
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
-         if (!is_finite(p)) { return sum + p; }
-         if (std::abs(p) < std::numeric_limits<double>::min()) { break; }
+         if (!is_finite(p) || std::abs(p) < std::numeric_limits<double>::min()) { return sum + p; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
-- 
2.43.0


From d7dc6db2504b175d377304d5e44e259a017ec77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:57 +0000
Subject: [PATCH 21/23] fix: Li(n,z), n << 0: NaN or wrong sign where the
 result overflows

---
 src/cpp/Li.cpp | 51 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 0fb4460..9ddaac3 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -51,24 +51,33 @@ namespace {
       return { lnz, std::arg(z) };
    }
 
+   /// returns z*exp(x), components of z that are zero stay zero if exp(x) overflows
+   std::complex<double> scale(const std::complex<double>& z, double x) noexcept
+   {
+      const double e = std::exp(x/2);
+      const auto mul = [e] (double c) { return c == 0 ? c : c*e*e; };
+      return { mul(std::real(z)), mul(std::imag(z)) };
+   }
+
    /// Series expansion of Li_n(z) in terms of powers of z, n << 0.
    /// Avoids the overflow of k^(-n) if k^(-n)*z^k is representable.
    std::complex<double> Li_series_neg(int64_t n, const std::complex<double>& z) noexcept
    {
       const double az = std::abs(z);
       const double lnaz = std::log(az);
+      const double kmax = std::max(1.0, std::floor(n/lnaz)); // largest term
+      const double lnmax = kmax*lnaz - n*std::log(kmax);
+      // ln |k-th term/largest term|
+      const auto lnterm = [=] (double k) { return (k - kmax)*lnaz - n*std::log(k/kmax); };
       const std::complex<double> phase = z/az;
-      std::complex<double> sum(0.0, 0.0), sum_old(0.0, 0.0), p(1.0, 0.0);
-      int64_t k = 0;
+      std::complex<double> sum(0.0, 0.0), p(1.0, 0.0);
 
-      do {
-         k++;
-         sum_old = sum;
+      for (double k = 1; k <= kmax || lnterm(k) > -50; ++k) {
          p *= phase;
-         sum += p*std::exp(k*lnaz - n*std::log(k));
-      } while (sum != sum_old && is_finite(sum));
+         sum += p*std::exp(lnterm(k));
+      }
 
-      return sum;
+      return scale(sum, lnmax);
    }
 
    /// Series expansion of Li_n(z) in terms of powers of z.
@@ -175,17 +184,27 @@ namespace {
    /// Fast convergence for n << 0.
    std::complex<double> Li_poles(int64_t n, const std::complex<double>& z) noexcept
    {
-      // returns (-n)!/x^(1 - n)
-      const auto pole = [n] (const std::complex<double>& x) {
+      const std::complex<double> lnz = clog(z);
+      const double m = -static_cast<double>(n);
+      const double lnmax = m*std::log(m) - m + (n - 1.0)*std::log(std::abs(lnz)); // ~ ln |largest term|
+      const bool overflow = lnmax > 745;
+
+      // returns (-n)!/x^(1 - n), divided by exp(100) or by exp(lnmax)
+      const auto pole = [n, overflow, &lnz] (const std::complex<double>& x) {
+         if (overflow && std::imag(x) == 0) {
+            return std::complex<double>(is_even(n) && std::real(x) < 0 ? -1.0 : 1.0, 0.0);
+         } else if (overflow) {
+            return std::polar(std::exp((n - 1.0)*std::log(std::abs(x)/std::abs(lnz))),
+                              (n - 1.0)*std::arg(x));
+         }
          const std::complex<double> xinv = 1.0/x;
-         std::complex<double> p = xinv;
+         std::complex<double> p = xinv*std::exp(-100.0);
          for (int64_t k = 1; k <= -n && is_finite(p); ++k) {
             p *= static_cast<double>(k)*xinv;
          }
          return p;
       };
 
-      const std::complex<double> lnz = clog(z);
       std::complex<double> sum = pole(-lnz), old_sum;
       int64_t k = 0;
 
@@ -196,7 +215,11 @@ namespace {
          sum += pole(ik - lnz) + pole(-ik - lnz);
       } while (sum != old_sum && is_finite(sum) && k < 1000);
 
-      return sum;
+      if (std::imag(z) == 0.0) {
+         sum = std::real(sum); // cancels exactly
+      }
+
+      return scale(sum, overflow ? lnmax : 100.0);
    }
 
    /// returns remainder from inversion formula
@@ -253,7 +276,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const double nl = std::norm(lnz);
       // use the power series only if there are no large cancellations
       if (4*PI*PI*nz < nl && std::norm(std::real(lnz)) > 2.5*(1.0 - n)) {
-         return n < -1000 ? Li_series_neg(n, z) : Li_series(n, z);
+         return n < -400 ? Li_series_neg(n, z) : Li_series(n, z);
       } else if (nz > 1 && nl >= 0.512*0.512*4*PI*PI) {
          return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
       } else if (n < -20) {
-- 
2.43.0


From f31dbdd6c730561e1d662b7da46e536aa63782d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:39 +0000
Subject: [PATCH 22/23] fix: Li(n,z) is NaN for n = 0 and n = -1 if Re(z) = 1
 and the result overflows

---
 src/cpp/Li.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 9ddaac3..3601cc7 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -287,8 +287,14 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
+      if (std::real(z) == 1.0) { // avoid NaN from overflow
+         return { -1/std::imag(z)/std::imag(z), -1/std::imag(z) };
+      }
       return z/(1.0 - z)/(1.0 - z);
    } else if (n == 0) {
+      if (std::real(z) == 1.0) { // avoid NaN from overflow
+         return { -1.0, 1/std::imag(z) };
+      }
       return z/(1.0 - z);
    } else if (n == 1) {
       if (std::imag(z) == 0.0 && std::real(z) > 1.0) {
-- 
2.43.0


From ddcae07f693597220434c9d9d52c844944b80ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:09 +0000
Subject: [PATCH 23/23] fix: series of extended-precision Li2 to Li6 have too
 few terms for 64 bits

For |ln(1 - z)| around 1, where they are needed, the omitted terms amount to up to
50 units in the last place (Li5), 20 (Li3), 10 (Li2, Li4, Li6); the series
around z = 1 of Li6 omits up to 6 units.
---
 src/c/Li2.c     | 2 +-
 src/c/Li3.c     | 2 +-
 src/c/Li4.c     | 4 ++--
 src/c/Li5.c     | 4 ++--
 src/c/Li6.c     | 4 ++--
 src/cpp/Li2.cpp | 2 +-
 src/cpp/Li3.cpp | 2 +-
 src/cpp/Li4.cpp | 4 ++--
 src/cpp/Li5.cpp | 4 ++--
 src/cpp/Li6.cpp | 4 ++--
 10 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 70f9dd5..b7c56a8 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -477,8 +477,8 @@ long double _Complex cli2l(long double _Complex z)
       -1.99392958607210756872364434779378971e-14L,
        4.51898002961991819165047655285559323e-16L,
       -1.03565176121812470144834115422186567e-17L,
-#if LDBL_DIG > 18
        2.39521862102618674574028374300098038e-19L,
+#if LDBL_DIG > 18
       -5.58178587432500933628307450562541991e-21L,
        1.30915075541832128581230739918659230e-22L,
       -3.08741980242674029324227976486646243e-24L,
diff --git a/src/c/Li3.c b/src/c/Li3.c
index 7b68e86..a7c51ae 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -225,10 +225,10 @@ long double _Complex cli3l(long double _Complex z)
      -1.18623225777522852530825009512459322e-16L,
       1.83169799654913833820892731212815349e-17L,
       2.70681710318373501514907347126169436e-18L,
-#if LDBL_DIG > 18
      -4.45543389782963882643263099217632212e-19L,
      -6.23754849225569465036532224739838641e-20L,
       1.08515215348745349131365609968642833e-20L,
+#if LDBL_DIG > 18
       1.44911748660360819307349049665275324e-21L,
      -2.64663397544589903347408911861443741e-22L,
      -3.38976534885101047219258165860814078e-23L,
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 94283e1..70a879d 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -288,9 +288,9 @@ long double _Complex cli4l(long double _Complex z)
       1.92362700625359201161268755267526042e-16L,
       7.81241433319595467072229389687370732e-18L,
      -4.67180384480365552031762824287222012e-18L,
-#if LDBL_DIG > 18
      -1.34353443298128478562602226758937243e-19L,
       1.13568268513473432447646983759384846e-19L,
+#if LDBL_DIG > 18
       2.11527562024325868475059834141917946e-21L,
      -2.76420263347465173882817292537310280e-21L,
      -2.70681766082400642561090595581950049e-23L,
@@ -354,8 +354,8 @@ long double _Complex cli4l(long double _Complex z)
          1.61300065283501012968488467709998678e-14L,
         -2.34288104528793396933245465250860001e-16L,
          3.64387716752943634635168923207929405e-18L,
-#if LDBL_DIG > 18
         -5.97748681166655845456412242441216036e-20L,
+#if LDBL_DIG > 18
          1.02337130555150662198452683223504513e-21L,
         -1.81455956138347480737900283560680332e-23L,
          3.31302580384912709893344878064186841e-25L,
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 3034a71..b6efea8 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -145,11 +145,11 @@ long double _Complex cli5l(long double _Complex z)
       1.09035454013333939879770883809662643e-15L,
       2.31481363172925263940797103190091493e-18L,
      -2.56699170432652921943348919933966693e-17L,
-#if LDBL_DIG > 18
       4.57086206073149690144959626860139115e-19L,
       6.03667796132057058823561033114107090e-19L,
      -2.16776249440624129587941717218396578e-20L,
      -1.41940966156001652983322668820112130e-20L,
+#if LDBL_DIG > 18
       7.50200095064138625532377521619527234e-22L,
       3.33870453950783971643715159254469304e-22L,
      -2.30600404426203476825215151352586388e-23L,
@@ -213,8 +213,8 @@ long double _Complex cli5l(long double _Complex z)
         -8.68995878615888235897855907475917096e-14L,
          1.00812540802188133105305292318749173e-15L,
         -1.30160058071551887185136369583811112e-17L,
-#if LDBL_DIG > 18
          1.82193858376471817317584461603964703e-19L,
+#if LDBL_DIG > 18
         -2.71703945984843566116551019291461834e-21L,
          4.26404710646461092493552846764602135e-23L,
         -6.97907523609028772068847244464155123e-25L,
diff --git a/src/c/Li6.c b/src/c/Li6.c
index aa72ee5..a10f3a4 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -151,10 +151,10 @@ long double _Complex cli6l(long double _Complex z)
      -1.10271048491074909370430302576046237e-16L,
       3.33537969169393816624889411840735964e-18L,
       2.47353074886413529791540987487137046e-18L,
-#if LDBL_DIG > 18
      -1.43706164342324920216883687134737009e-19L,
      -5.50471103350981180614826435059791109e-20L,
       4.74677139173272249791309840662617185e-21L,
+#if LDBL_DIG > 18
       1.21583871780681052243739817416294433e-21L,
      -1.41075524035618500414240309078008657e-22L,
      -2.66388312532683465965856437677118103e-23L,
@@ -218,8 +218,8 @@ long double _Complex cli6l(long double _Complex z)
          6.69126826534233941641349048756456164e-13L,
         -5.79330585743925490598570604983944731e-15L,
          5.93014945895224312384148778345583373e-17L,
-#if LDBL_DIG > 18
         -6.85052937218694143079665103072690062e-19L,
+#if LDBL_DIG > 18
          8.67589801792722939607545055256974774e-21L,
         -1.18132150428192854833283051865852971e-22L,
          1.70561884258584436997421138705840854e-24L,
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index dcb6cb8..61a0696 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -456,8 +456,8 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
       -1.99392958607210756872364434779378971e-14L,
        4.51898002961991819165047655285559323e-16L,
       -1.03565176121812470144834115422186567e-17L,
-#if LDBL_DIG > 18
        2.39521862102618674574028374300098038e-19L,
+#if LDBL_DIG > 18
       -5.58178587432500933628307450562541991e-21L,
        1.30915075541832128581230739918659230e-22L,
       -3.08741980242674029324227976486646243e-24L,
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index 3d91c27..dd0718f 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -233,10 +233,10 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
      -1.18623225777522852530825009512459322e-16L,
       1.83169799654913833820892731212815349e-17L,
       2.70681710318373501514907347126169436e-18L,
-#if LDBL_DIG > 18
      -4.45543389782963882643263099217632212e-19L,
      -6.23754849225569465036532224739838641e-20L,
       1.08515215348745349131365609968642833e-20L,
+#if LDBL_DIG > 18
       1.44911748660360819307349049665275324e-21L,
      -2.64663397544589903347408911861443741e-22L,
      -3.38976534885101047219258165860814078e-23L,
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index 40827d7..4679f34 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -286,9 +286,9 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
       1.92362700625359201161268755267526042e-16L,
       7.81241433319595467072229389687370732e-18L,
      -4.67180384480365552031762824287222012e-18L,
-#if LDBL_DIG > 18
      -1.34353443298128478562602226758937243e-19L,
       1.13568268513473432447646983759384846e-19L,
+#if LDBL_DIG > 18
       2.11527562024325868475059834141917946e-21L,
      -2.76420263347465173882817292537310280e-21L,
      -2.70681766082400642561090595581950049e-23L,
@@ -350,8 +350,8 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
          1.61300065283501012968488467709998678e-14L,
         -2.34288104528793396933245465250860001e-16L,
          3.64387716752943634635168923207929405e-18L,
-#if LDBL_DIG > 18
         -5.97748681166655845456412242441216036e-20L,
+#if LDBL_DIG > 18
          1.02337130555150662198452683223504513e-21L,
         -1.81455956138347480737900283560680332e-23L,
          3.31302580384912709893344878064186841e-25L,
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 51810ac..385c11a 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -142,11 +142,11 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
       1.09035454013333939879770883809662643e-15L,
       2.31481363172925263940797103190091493e-18L,
      -2.56699170432652921943348919933966693e-17L,
-#if LDBL_DIG > 18
       4.57086206073149690144959626860139115e-19L,
       6.03667796132057058823561033114107090e-19L,
      -2.16776249440624129587941717218396578e-20L,
      -1.41940966156001652983322668820112130e-20L,
+#if LDBL_DIG > 18
       7.50200095064138625532377521619527234e-22L,
       3.33870453950783971643715159254469304e-22L,
      -2.30600404426203476825215151352586388e-23L,
@@ -208,8 +208,8 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
         -8.68995878615888235897855907475917096e-14L,
          1.00812540802188133105305292318749173e-15L,
         -1.30160058071551887185136369583811112e-17L,
-#if LDBL_DIG > 18
          1.82193858376471817317584461603964703e-19L,
+#if LDBL_DIG > 18
         -2.71703945984843566116551019291461834e-21L,
          4.26404710646461092493552846764602135e-23L,
         -6.97907523609028772068847244464155123e-25L,
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index a1f337d..699dcad 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -149,10 +149,10 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
      -1.10271048491074909370430302576046237e-16L,
       3.33537969169393816624889411840735964e-18L,
       2.47353074886413529791540987487137046e-18L,
-#if LDBL_DIG > 18
      -1.43706164342324920216883687134737009e-19L,
      -5.50471103350981180614826435059791109e-20L,
       4.74677139173272249791309840662617185e-21L,
+#if LDBL_DIG > 18
       1.21583871780681052243739817416294433e-21L,
      -1.41075524035618500414240309078008657e-22L,
      -2.66388312532683465965856437677118103e-23L,
@@ -214,8 +214,8 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
          6.69126826534233941641349048756456164e-13L,
         -5.79330585743925490598570604983944731e-15L,
          5.93014945895224312384148778345583373e-17L,
-#if LDBL_DIG > 18
         -6.85052937218694143079665103072690062e-19L,
+#if LDBL_DIG > 18
          8.67589801792722939607545055256974774e-21L,
         -1.18132150428192854833283051865852971e-22L,
          1.70561884258584436997421138705840854e-24L,
-- 
2.43.0

