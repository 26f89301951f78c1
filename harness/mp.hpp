// Reference for Li_n(z), 2 <= n <= 6, with about 170 bits (boost), for checks
// of functions with quadruple precision.
#pragma once
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/math/special_functions/bernoulli.hpp>
#include <boost/math/special_functions/zeta.hpp>
#include <quadmath.h>
#include <vector>

namespace mp {

typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<170, boost::multiprecision::digit_base_2, void, boost::int32_t, -2000000, 2000000>, boost::multiprecision::et_off> M;

inline M of(__float128 q)
{
   if (q == 0) { return M(0); }
   int e;
   __float128 m = ldexpq(frexpq(q, &e), 60);
   const long long a = (long long)m;
   m = ldexpq(m - a, 60);
   const long long b = (long long)m;
   return ldexp(M(a), e - 60) + ldexp(M(b), e - 120);
}
inline __float128 to(const M& x)
{
   if (x == 0) { return 0; }
   int e;
   M m = frexp(x, &e);
   m = ldexp(m, 60);
   const long long a = (long long)trunc(m);
   m = ldexp(m - a, 60);
   const long long b = (long long)trunc(m);
   return ldexpq(ldexpq((__float128)a, -60) + ldexpq((__float128)b, -120), e);
}

struct C {
   M re, im;
   C(M r = 0, M i = 0) : re(r), im(i) {}
};
inline C operator+(const C& a, const C& b) { return C(a.re + b.re, a.im + b.im); }
inline C operator-(const C& a, const C& b) { return C(a.re - b.re, a.im - b.im); }
inline C operator*(const C& a, const C& b) { return C(a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re); }
inline C operator*(const M& a, const C& b) { return C(a*b.re, a*b.im); }
inline C inv(const C& z) { const M d = z.re*z.re + z.im*z.im; return C(z.re/d, -z.im/d); }
inline M abs(const C& z) { return sqrt(z.re*z.re + z.im*z.im); }

struct Tables {
   enum { N = 220 };
   M pi, zeta[8], zneg[N], fac[N]; // zeta(j), zeta(-j), j!
   Tables()
   {
      pi = boost::math::constants::pi<M>();
      for (int n = 2; n < 8; ++n) { zeta[n] = boost::math::zeta(M(n)); }
      zneg[0] = M(-1)/2;
      for (int j = 1; j < N; ++j) { zneg[j] = j % 2 == 0 ? M(0) : M(-boost::math::bernoulli_b2n<M>((j + 1)/2)/(j + 1)); }
      fac[0] = 1;
      for (int j = 1; j < N; ++j) { fac[j] = fac[j - 1]*j; }
   }
};
inline const Tables& tab() { static const Tables t; return t; }

/// argument of -w in (-pi,pi], pi for w > 0
inline M arg_neg(const C& w)
{
   const M& pi = tab().pi;
   if (w.im == 0) { return w.re > 0 ? pi : M(0); }
   const M a = atan2(w.im, w.re);
   return w.im > 0 ? a - pi : a + pi;
}

/// Li_n(exp(l)), |l| < 2 pi, n >= 2
inline C li_exp(int n, const C& l)
{
   const Tables& t = tab();
   if (l.re == 0 && l.im == 0) { return C(t.zeta[n]); }
   C s(t.zeta[n]), p(M(1));
   M h = 0;
   for (int k = 1; k < Tables::N - 10; ++k) {
      p = p*l;
      if (k < n - 1) { s = s + (t.zeta[n - k]/t.fac[k])*p; }
      else if (k == n - 1) {
         for (int i = 1; i < n; ++i) { h += M(1)/i; }
         const C ll(log(l.re*l.re + l.im*l.im)/2, arg_neg(l)); // ln(-ln z)
         s = s + (1/t.fac[k])*(p*(C(h) - ll));
      }
      else if ((k - n) % 2 != 0 || k == n) { s = s + (t.zneg[k - n]/t.fac[k])*p; }
   }
   return s;
}

/// Cl_n(x), n >= 1
inline M cl(int n, const M& x)
{
   const M& pi = tab().pi;
   const M r = x - 2*pi*round(x/(2*pi));
   if (n == 1) { return -log(2*abs(sin(r/2))); }
   const C v = li_exp(n, C(M(0), r));
   return n % 2 == 0 ? v.im : v.re;
}

/// Li_n(z) for n >= 1; on the cut the value from below
inline C li(int n, const C& z)
{
   const Tables& t = tab();
   if (z.re == 0 && z.im == 0) { return z; }
   const M a2 = z.re*z.re + z.im*z.im;
   if (n == 1) { // -ln(1 - z), only its size is needed
      const C u(1 - z.re, -z.im);
      const M m = u.re*u.re + u.im*u.im;
      if (m == 0) { return C(M(1000)); }
      if (a2 < M(1)/1000000) { return z; }
      return C(-log(m)/2, -atan2(u.im, u.re));
   }
   if (a2 <= 0.25) { // power series
      C p = z, s = z;
      for (int k = 2; k < 400; ++k) {
         p = p*z;
         M d = 1;
         for (int i = 0; i < n; ++i) { d *= k; }
         s = s + (1/d)*p;
         if (p.re*p.re + p.im*p.im < ldexp(a2, -350)) { break; }
      }
      return s;
   }
   const C l(log(a2)/2, atan2(z.im, z.re));
   if (a2 < 4) { return li_exp(n, l); }
   const C L(l.re, arg_neg(z)); // ln(-z)
   C pw[8];
   pw[0] = C(M(1));
   for (int k = 1; k <= n; ++k) { pw[k] = pw[k - 1]*L; }
   C s = (M(-1)/t.fac[n])*pw[n];
   for (int k = 1; 2*k <= n; ++k) { s = s - (2*(1 - ldexp(M(1), 1 - 2*k))*t.zeta[2*k]/t.fac[n - 2*k])*pw[n - 2*k]; }
   C w = li(n, inv(z));
   if (z.im == 0) { w.im = 0; }
   return n % 2 == 0 ? s - w : s + w;
}

} // namespace mp
