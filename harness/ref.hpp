// Independent quadruple-precision (113 bit) reference for polylogarithms,
// Clausen and Glaisher-Clausen functions, zeta, eta, 1/n!, harmonic numbers.
// Nothing here is taken from the code under test: Li_n is computed from
//   * the power series                         (|z| <= 1/2),
//   * the series around ln z = 0               (1/2 < |z| < 2),
//   * Jonquiere's inversion formula            (|z| >= 2),
//   * Eulerian polynomials / pole sums         (n <= 0).
// Validated against mpmath (a different implementation) by
// tools/validate_ref.py.
#pragma once
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include "ref_tables.hpp"

namespace ref {

typedef __float128 Q;
static const Q PI = 3.14159265358979323846264338327950288419716939937510582Q;
static const Q QEPS = 1e-33Q;

struct C {
   Q re, im;
   C(Q r = 0, Q i = 0) : re(r), im(i) {}
};
inline C operator+(C a, C b) { return C(a.re + b.re, a.im + b.im); }
inline C operator-(C a, C b) { return C(a.re - b.re, a.im - b.im); }
inline C operator-(C a) { return C(-a.re, -a.im); }
inline C operator*(C a, C b) { return C(a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re); }
inline C operator*(Q a, C b) { return C(a*b.re, a*b.im); }
inline C operator/(C a, Q b) { return C(a.re/b, a.im/b); }
inline Q abs(C a) { return hypotq(a.re, a.im); }
inline C conj(C a) { return C(a.re, -a.im); }
inline C inv(C z) // 1/z without overflow
{
   if (fabsq(z.re) >= fabsq(z.im)) {
      const Q r = z.im/z.re, d = z.re + z.im*r;
      return C(1/d, -r/d);
   }
   const Q r = z.re/z.im, d = z.re*r + z.im;
   return C(r/d, -1/d);
}
inline C div(C a, C b) { return a*inv(b); }

/// log|z|, accurate for |z| ~ 1
inline Q logabs(C z)
{
   const Q x = fabsq(z.re), y = fabsq(z.im);
   const Q a = x > y ? x : y, b = x > y ? y : x;
   if (a > 0.5Q && a < 2) {
      return log1pq((a - 1)*(a + 1) + b*b)/2;
   }
   if (a == 0) { return -HUGE_VALQ; }
   const Q t = b/a;
   return logq(a) + log1pq(t*t)/2;
}

/// principal log with the library's documented convention: arguments
/// on the negative real axis (either signed zero) get imaginary part +pi
inline C plog(C z)
{
   if (z.im == 0) {
      return z.re > 0 ? C(logabs(z), 0) : C(logabs(z), PI);
   }
   return C(logabs(z), atan2q(z.im, z.re));
}

/// log(1-z), accurate for small |z| too; z > 1 real: approached from below
inline C log1m(C z)
{
   if (z.im == 0 && z.re > 1) { return C(logq(z.re - 1), PI); }
   // |1-z|^2 = 1 - 2 re + |z|^2
   const Q x = 1 - z.re;
   const Q n = fabsq(z.re) < 0.5Q && fabsq(z.im) < 0.5Q
      ? log1pq(-2*z.re + z.re*z.re + z.im*z.im)/2
      : logabs(C(x, z.im));
   const Q im = z.im == 0 ? 0 : -atan2q(z.im, x);
   return C(n, im);
}

inline C cexp(C z)
{
   const Q e = expq(z.re);
   if (z.im == 0) { return C(e, 0); }
   Q s, c;
   sincosq(z.im, &s, &c);
   return C(e*c, e*s);
}

inline Q powi(Q x, int64_t n)
{
   if (n < 0) { return 1/powi(x, -n); }
   Q r = 1;
   while (n) {
      if (n & 1) { r *= x; }
      n >>= 1;
      if (n) { x *= x; }
   }
   return r;
}

inline C powi(C x, int64_t n)
{
   if (n < 0) { return inv(powi(x, -n)); }
   C r(1);
   while (n) {
      if (n & 1) { r = r*x; }
      n >>= 1;
      if (n) { x = x*x; }
   }
   return r;
}

inline Q zeta(int64_t n)
{
   if (n == 1) { return HUGE_VALQ; }
   if (n >= 0) {
      if (n <= 180) { return ZETA_POS[n]; }
      if (n > 16000) { return 1; }
      return 1 + powi(0.5Q, n) + powi(1/3.0Q, n);
   }
   if (n % 2 == 0) { return 0; }
   const int64_t k = (-(n + 1))/2; // zeta(1-2(k+1))
   if (k < 700) { return ZETA_NEG[k]; }
   // zeta(1-2m) = 2 (-1)^m (2m-1)! zeta(2m)/(2 pi)^(2m), m = k+1; the
   // logarithm exceeds the range of long double for m > ~900
   const Q m = Q(k) + 1;
   const Q l = lgammaq(2*m) - 2*m*logq(2*PI) + logq(2.0Q);
   const Q s = (k + 1) % 2 == 0 ? 1 : -1;
   return s*(l > 11356 ? HUGE_VALQ : expq(l));
}

/// -eta(n) = Li_n(-1)
inline Q neg_eta(int64_t n)
{
   if (n >= 0) { return n <= 180 ? NETA_POS[n] : (n > 16000 ? Q(-1) : -1 + powi(0.5Q, n)); }
   if (n % 2 == 0) { return 0; }
   const Q z = zeta(n);
   if (n < -16000) { return isinfq(z) ? -(-z) : z; }
   return -(1 - powi(2.0Q, 1 - n))*z;
}

inline Q inv_fac(int64_t n)
{
   if (n > 1800) { return 0; }
   Q r = 1;
   for (int64_t k = 2; k <= n; ++k) { r /= k; }
   return r;
}

inline Q harmonic(int64_t n)
{
   if (n <= 4000) {
      Q s = 0;
      for (int64_t k = n; k >= 1; --k) { s += 1/Q(k); }
      return s;
   }
   const Q g = 0.577215664901532860606512090082402431042159335939923598805767Q;
   const Q x = n, i2 = 1/(x*x);
   return logq(x) + g + 1/(2*x) - i2*(1/12.0Q - i2*(1/120.0Q - i2*(1/252.0Q - i2*(1/240.0Q - i2*(1/132.0Q)))));
}

/// value with an estimate of the reference's own absolute error
struct R {
   C v;
   Q err;
};

inline Q cmag(C a) { const Q x = fabsq(a.re), y = fabsq(a.im); return x > y ? x : y; }

/// sum z^k/k^n (n of either sign)
inline R power_series(int64_t n, C z, Q tol)
{
   C p(1), s;
   Q mag = 0;
   for (int64_t k = 1; k < 100000; ++k) {
      p = p*z;
      const C t = n >= 0 ? p/powi(Q(k), n) : powi(Q(k), -n)*p;
      s = s + t;
      const Q m = cmag(t);
      if (m > mag) { mag = m; }
      // for n < 0 terms grow up to k ~ n/ln|z|
      if (m <= tol*cmag(s)*1e-2Q && (n >= 0 || Q(k)*-logabs(z) > -Q(n) + 1)) { break; }
      if (m == 0 && k > 1) { break; }
   }
   return { s, mag*QEPS + cmag(s)*tol };
}

/// Li_n(e^mu), |mu| < 2 pi (any integer n, |n| not huge)
inline R log_series(int64_t n, C mu, Q tol)
{
   C p(1), s;
   Q mag = 0;
   int small = 0;
   if (n <= 0) {
      // (-n)! (-mu)^(n-1)
      Q f = 1;
      for (int64_t k = 2; k <= -n; ++k) { f *= k; }
      s = f*powi(-mu, n - 1);
      mag = cmag(s);
   }
   for (int64_t k = 0; k < 3000; ++k) {
      if (k > 0) { p = p*(mu/Q(k)); }
      C t;
      if (n >= 1 && k == n - 1) {
         t = p*(C(harmonic(n - 1)) - plog(-mu));
      } else {
         t = zeta(n - k)*p;
      }
      s = s + t;
      const Q m = cmag(t);
      if (m > mag) { mag = m; }
      if (k > n && m <= tol*cmag(s)*1e-2Q) {
         if (++small == 3) { break; }
      } else if (k > n) { small = 0; }
   }
   return { s, mag*QEPS + cmag(s)*tol };
}

/// Eulerian polynomial representation of Li_{-m}(z), m >= 1, |z| <= 1
inline R eulerian(int64_t m, C z)
{
   // coefficients A(m,k) by recurrence (exact for m <= 25)
   static Q A[41][41];
   static bool init = false;
   if (!init) {
      A[1][0] = 1;
      for (int i = 2; i <= 40; ++i) {
         for (int k = 0; k < i; ++k) {
            A[i][k] = (k + 1)*(k < i - 1 ? A[i - 1][k] : Q(0)) + (i - k)*(k > 0 ? A[i - 1][k - 1] : Q(0));
         }
      }
      init = true;
   }
   C s;
   Q mag = 0;
   for (int64_t k = m - 1; k >= 0; --k) {
      s = s*z + C(A[m][k]);
      mag = mag*abs(z) + A[m][k];
   }
   const C d = powi(C(1 - z.re, -z.im), m + 1);
   const C f = div(z, d);
   return { s*f, mag*abs(f)*QEPS };
}

/// m! sum_k (2 pi i k - mu)^-(m+1)
inline R pole_sum(int64_t m, C mu)
{
   // factor out the largest pole to avoid overflow
   C s;
   Q mag = 0;
   const Q lf = lgammaq(Q(m) + 1);
   for (int64_t j = 0; j < 4000; ++j) {
      Q big = 0;
      for (int sg = 0; sg < (j ? 2 : 1); ++sg) {
         const C d(-mu.re, (sg ? -2 : 2)*PI*Q(j) - mu.im);
         const Q la = logabs(d), ph = d.im == 0 && d.re > 0 ? Q(0) : atan2q(d.im, d.re);
         C t = cexp(C(lf - Q(m + 1)*la, -Q(m + 1)*ph));
         if (d.im == 0 && d.re < 0) { t = C((m + 1) % 2 == 0 ? expq(lf - Q(m + 1)*la) : -expq(lf - Q(m + 1)*la), 0); }
         s = s + t;
         const Q a = cmag(t);
         if (a > big) { big = a; }
      }
      if (big > mag) { mag = big; }
      if (j > 0 && big*Q(j) < 1e-36Q*cmag(s)) { break; }
      if (j > 2 && big*Q(j) < 1e-36Q*mag) { break; }
   }
   if (mu.im == 0) { s.im = 0; }
   return { s, mag*QEPS*Q(m + 10) };
}

R li(int64_t n, C z, Q tol = 1e-34Q);

/// 2 sum_{k} neg_eta(2k) l^(n-2k)/(n-2k)! - l^n/n!,  l = log(-z), n >= 1
inline R inversion_rest(int64_t n, C l, Q tol)
{
   // summed from the lowest power of l upwards
   C s, p = C(1); // l^j/j!
   Q mag = 0;
   int small = 0;
   for (int64_t j = 0; j <= n; ++j) {
      if (j > 0) { p = p*(l/Q(j)); }
      if ((n - j) % 2 == 0) {
         const C t = j == n ? -p : (2*neg_eta(n - j))*p;
         s = s + t;
         const Q m = cmag(t);
         if (m > mag) { mag = m; }
         if (m <= tol*cmag(s)*1e-3Q && Q(j) > abs(l)) {
            if (++small == 3) { break; }
         } else { small = 0; }
      }
   }
   return { s, mag*QEPS*2 + cmag(s)*tol };
}

/// Li_n(z). For real z > 1 the value is continued from Im(z) < 0.
inline R li(int64_t n, C z, Q tol)
{
   if (z.re == 0 && z.im == 0) { return { z, 0 }; }
   if (z.re == 1 && z.im == 0) { return { C(n > 1 ? zeta(n) : HUGE_VALQ), 1e-34Q }; }
   if (n == 1) { const C v = -log1m(z); return { v, cmag(v)*QEPS }; }
   if (n == 0) { const C v = div(z, C(1 - z.re, -z.im)); return { v, cmag(v)*QEPS }; }
   const Q a = abs(z);
   if (n < 0) {
      const int64_t m = -n;
      if (a > 1 + 1e-30Q) {
         R r = li(n, inv(z), tol);
         if (m % 2 == 0) { r.v = -r.v; }
         return r;
      }
      if (m <= 20) { return eulerian(m, z); }
      const C mu = plog(z);
      // power series is well conditioned when |z| 2^m << 1 or away from the negative axis
      R best = pole_sum(m, mu);
      if (a < 0.9Q && -n < 3000) {
         const R r = power_series(n, z, tol);
         // (error estimate of the power series: magnitude of the largest term)
         if (r.err < best.err || best.err != best.err) { best = r; }
      }
      return best;
   }
   if (n >= 130) {
      // z + z^2/2^n + z^3/3^n + ...  (asymptotic for |z| > 1)
      const Q l = logabs(z);
      if (n > 20000 || Q(n)*0.69Q - l > 85) {
         C p = z, s = z;
         for (int64_t k = 2; k < 400; ++k) {
            p = p*z;
            const Q e = -Q(n)*logq(Q(k)) ;
            if (e + Q(k - 1)*l < -85) { break; }
            s = s + expq(e)*p;
         }
         return { s, abs(z)*1e-33Q };
      }
   }
   if (a <= 0.5Q) { return power_series(n, z, tol); }
   if (a < 2) { return log_series(n, plog(z), tol); }
   C l;
   if (z.im == 0 && z.re > 0) { l = C(logabs(z), PI); } // from below: -z = -x + i0
   else { l = plog(-z); }
   const R r1 = inversion_rest(n, l, tol);
   const R r2 = li(n, inv(z), tol);
   C v2 = r2.v;
   if (z.im == 0) { v2.im = 0; }
   const C v = n % 2 == 0 ? r1.v - v2 : r1.v + v2;
   return { v, r1.err + r2.err };
}

/// Li_n(e^{i theta}), theta any real
inline R li_circle(int64_t n, Q theta, Q tol = 1e-34Q)
{
   Q s, c;
   sincosq(theta, &s, &c);
   const Q t = atan2q(s, c); // reduced to [-pi,pi] with small relative error
   if (n == 1) {
      const Q im = t == 0 ? Q(0) : (t > 0 ? (PI - t)/2 : (-PI - t)/2);
      return { C(-logq(2*fabsq(sinq(t/2))), im), 1e-33Q };
   }
   if (n >= 130) {
      C v(c, s);
      for (int64_t k = 2; k < 200; ++k) {
         const Q w = -Q(n)*logq(Q(k));
         if (w < -85) { break; }
         v = v + expq(w)*C(cosq(k*t), sinq(k*t));
      }
      return { v, 1e-33Q };
   }
   if (t == 0) { return { C(zeta(n), 0), 1e-34Q }; }
   return log_series(n, C(0, t), tol);
}

inline Q cl(int64_t n, Q x, Q tol = 1e-34Q) { const R r = li_circle(n, x, tol); return n % 2 == 0 ? r.v.im : r.v.re; }
inline Q sl(int64_t n, Q x, Q tol = 1e-34Q) { const R r = li_circle(n, x, tol); return n % 2 == 0 ? r.v.re : r.v.im; }

} // namespace ref
