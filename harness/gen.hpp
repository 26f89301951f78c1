// Structured generators of real and complex arguments and of orders.
#pragma once
#include "core.hpp"
#include <cstdlib>

namespace gen {

static const LD PIL = 3.14159265358979323846264338327950288L;

/// uniformly distributed in (-1,1)
inline LD sym(Rng& r) { return 2*r.unit() - 1; }
inline LD pow2(Rng& r, int lo, int hi) { return ldexpl(1 + r.unit(), (int)r.range(lo, hi)); }
inline LD sgn(Rng& r) { return r.coin() ? 1 : -1; }

/// Numbers that occur in the source code under test (see tools/dict.py), read
/// from the file named by VERIF_DICT: lines `r <number>` and `i <integer>`.
/// A condition in the code is then met (and missed) often.
struct Dict {
   std::vector<LD> re;
   std::vector<int64_t> in;
   Dict()
   {
      const char* f = getenv("VERIF_DICT");
      FILE* fp = f ? fopen(f, "r") : 0;
      char t, b[100];
      while (fp && fscanf(fp, " %c %90s", &t, b) == 2) {
         if (t == 'r') { re.push_back(strtold(b, 0)); } else { in.push_back(strtoll(b, 0, 10)); }
      }
      if (fp) { fclose(fp); }
      if (re.empty()) { re.push_back(0.5L); }
      if (in.empty()) { in.push_back(10); }
   }
};
inline const Dict& dict() { static const Dict d; return d; }

inline LD dict_real(Rng& r, int p)
{
   const Dict& d = dict();
   LD v = d.re[r.below(d.re.size())];
   switch (r.below(10)) {
      case 0: v = sqrtl(fabsl(v)); break;
      case 1: v = v*v; break;
      case 2: v = 1/v; break;
      case 3: v = 1 - v; break;
      case 4: v = expl(v); break;
      case 5: v = expl(-v); break;
      default: break;
   }
   if (r.below(3) == 0) { v = -v; }
   v = round_to(p, v);
   if (!std::isfinite(v)) { v = max_of(p); }
   switch (r.below(6)) {
      case 0: case 1: v = ulp_step(p, v, (int)r.range(-2, 2)); break;
      case 2: v = round_to(p, v*(1 + sym(r)*ldexpl(1, -(int)r.range(2, p)))); break;
      default: break;
   }
   return std::isfinite(v) ? v : max_of(p);
}
inline int64_t dict_int(Rng& r)
{
   const Dict& d = dict();
   int64_t v = d.in[r.below(d.in.size())];
   if (r.below(3) == 0) { v = (int64_t)((uint64_t)v + (uint64_t)r.range(-3, 3)); }
   return v;
}

inline LD special(Rng& r, int p)
{
   static const LD v[] = { 0.0L, 1.0L, 2.0L, 0.5L, 3.0L, 0.25L, 4.0L, 0.75L, 1.5L, 10.0L, 0.1L };
   switch (r.below(6)) {
      case 0: return sgn(r)*denorm_of(p)*r.range(1, 4);
      case 1: return sgn(r)*min_of(p);
      case 2: return sgn(r)*ulp_step(p, max_of(p), -(int)r.below(3));
      default: return sgn(r)*v[r.below(sizeof v/sizeof v[0])];
   }
}

/// finite number of any magnitude
inline LD any_exp(Rng& r, int p)
{
   const int lo = p == 24 ? -149 : p == 53 ? -1074 : -16440;
   const int hi = p == 24 ? 127 : p == 53 ? 1023 : 16383;
   return sgn(r)*round_to(p, ldexpl(1 + r.unit()*0.9999999L, (int)r.range(lo, hi)));
}

/// near b: relative or absolute offsets from one ulp to 10 %
inline LD near(Rng& r, int p, LD b)
{
   switch (r.below(3)) {
      case 0: return ulp_step(p, round_to(p, b), (int)r.range(-3, 3));
      case 1: return round_to(p, b*(1 + sym(r)*ldexpl(1, -(int)r.range(3, p + 1))));
      default: return round_to(p, b + sym(r)*ldexpl(1, -(int)r.range(3, p + 1)));
   }
}

inline LD clamp(int p, LD v)
{
   v = round_to(p, v);
   if (!std::isfinite(v)) { v = std::isnan(v) ? 0.375L : copysignl(max_of(p), v); }
   return v;
}

/// argument of a real polylogarithm
inline LD li_real(Rng& r, int p)
{
   static const LD b[] = { 1.0L, 0.5L, 0.8L, 2.0L, 1.25L, 0.25L, 1.5L, 0.75L, 0.9L, 12.5L, 12.595170L, 1.4L };
   LD v;
   switch (r.below(13)) {
      case 12: v = dict_real(r, p); break;
      case 0: case 1: v = near(r, p, sgn(r)*b[r.below(sizeof b/sizeof b[0])]); break;
      case 2: case 3: v = 2*sym(r); break;
      case 4: v = r.unit(); break;
      case 5: v = 10*sym(r); break;
      case 6: v = sgn(r)*pow2(r, -60, 60); break;
      case 7: v = any_exp(r, p); break;
      case 8: v = special(r, p); break;
      case 9: v = 0.1L*r.range(-60, 60); break;
      case 10: v = ldexpl((LD)r.range(-64, 64), -(int)r.below(7)); break;
      default: v = sgn(r)*(1 + sgn(r)*ldexpl(r.unit(), -(int)r.range(0, p))); break;
   }
   return clamp(p, v);
}

/// argument of a Clausen-type function
inline LD cl_real(Rng& r, int p)
{
   LD v;
   switch (r.below(13)) {
      case 12: v = dict_real(r, p); if (r.below(4) == 0) { v += 2*PIL*r.range(-3, 3); } break;
      case 0: case 1: v = near(r, p, PIL*r.range(-8, 8)/(LD)(1 + r.below(4))); break;
      case 2: v = near(r, p, PIL*r.range(-2000, 2000)/2); break;
      case 3: case 4: v = 2*PIL*r.unit(); break;
      case 5: v = PIL*r.unit()*sgn(r); break;
      case 6: v = 20*sym(r); break;
      case 7: v = sgn(r)*pow2(r, -70, 10); break;
      case 8: v = any_exp(r, p); break;
      case 9: v = special(r, p); break;
      case 10: v = ldexpl((LD)r.range(-640, 640), -(int)r.below(7)); break;
      default: v = sgn(r)*pow2(r, 0, p == 24 ? 15 : 30); break;
   }
   return clamp(p, v);
}

/// argument of a complex polylogarithm
inline void li_cplx(Rng& r, int p, LD& re, LD& im)
{
   static const LD rad[] = { 1.0L, 0.5L, 0.75L, 1.4L, 2.0L, 2.71828182845904523536L, 0.36787944117144232160L, 0.25L, 25.0L, 0.04L, 4.0L };
   switch (r.below(19)) {
      case 18: { // one component a simple number, the other one of any magnitude
         re = r.below(4) == 0 ? special(r, p) : (LD)r.range(-2, 2);
         im = r.coin() ? any_exp(r, p) : special(r, p);
         if (r.below(3) == 0) { std::swap(re, im); }
         if (r.below(4) == 0) { re = sgn(r)*im; if (r.below(3) == 0) { re = ulp_step(p, round_to(p, re), (int)r.range(-1, 1)); } } // on a diagonal
         break; }
      case 16: switch (r.below(4)) { // numbers from the source code
         case 0: re = dict_real(r, p); im = dict_real(r, p); break;
         case 1: re = dict_real(r, p); im = li_real(r, p); break;
         case 2: re = li_real(r, p); im = dict_real(r, p); break;
         default: re = dict_real(r, p); im = sgn(r)*(r.coin() ? 0.0L : fabsl(re)); break;
      } break;
      case 17: { // as modulus, as argument, as logarithm
         const LD d = dict_real(r, p);
         LD m = d, t = PIL*sym(r);
         if (r.coin()) { t = PIL*r.range(-4, 4)/4 + (r.coin() ? sym(r)*ldexpl(1, -(int)r.range(1, p)) : 0); }
         switch (r.below(4)) {
            case 0: re = m*cosl(t); im = m*sinl(t); break;
            case 1: m = r.coin() ? 1 : pow2(r, -5, 5); re = m*cosl(d); im = m*sinl(d); break;
            case 2: re = expl(d*cosl(t))*cosl(d*sinl(t)); im = expl(d*cosl(t))*sinl(d*sinl(t)); break;
            default: re = 1 + m*cosl(t); im = m*sinl(t); break;
         }
         break; }
      case 0: re = li_real(r, p); im = li_real(r, p); break;
      case 1: case 2: case 3: { // polar
         LD m, t;
         switch (r.below(5)) {
            case 0: m = 1 + sgn(r)*ldexpl(r.unit(), -(int)r.range(0, p)); break;
            case 1: m = rad[r.below(sizeof rad/sizeof rad[0])]*(1 + sgn(r)*ldexpl(r.unit(), -(int)r.range(2, p))); break;
            case 2: m = 2*r.unit(); break;
            case 3: m = pow2(r, -30, 30); break;
            default: m = 1; break;
         }
         switch (r.below(4)) {
            case 0: t = PIL*sym(r); break;
            case 1: t = PIL*r.range(-12, 12)/12 + sym(r)*ldexpl(1, -(int)r.range(1, p)); break;
            case 2: t = sym(r)*ldexpl(1, -(int)r.range(0, p)); break;
            default: t = PIL*r.range(-12, 12)/12; break;
         }
         re = m*cosl(t);
         im = m*sinl(t);
         break;
      }
      case 4: case 5: // near the real axis
         re = li_real(r, p);
         im = r.below(3) == 0 ? sgn(r)*denorm_of(p)*r.range(0, 3) : sym(r)*(r.coin() ? fabsl(re) : 1.0L)*ldexpl(1, -(int)r.range(1, 2*p));
         break;
      case 6: // near the imaginary axis
         im = li_real(r, p);
         re = sym(r)*(r.coin() ? fabsl(im) : 1.0L)*ldexpl(1, -(int)r.range(1, 2*p));
         break;
      case 7: re = near(r, p, 0.5L); im = 3*sym(r); break;
      case 8: { // near |z - 1| = 1
         const LD t = PIL*sym(r), d = 1 + sgn(r)*ldexpl(r.unit(), -(int)r.range(1, p));
         re = 1 + d*cosl(t);
         im = d*sinl(t);
         break;
      }
      case 9: case 10: { // near |ln z| = const
         static const LD q[] = { 1.0L, 3.2169908772759482L, 0.5L, 2.0L, 2*PIL };
         const LD d = q[r.below(5)]*(1 + sgn(r)*ldexpl(r.unit(), -(int)r.range(1, p)));
         LD t = PIL*sym(r);
         const LD a = d*cosl(t), b = d*sinl(t);
         re = expl(a)*cosl(b);
         im = expl(a)*sinl(b);
         break;
      }
      case 11: { // near 1
         const LD t = PIL*sym(r), d = ldexpl(1 + r.unit(), -(int)r.range(1, p + 3));
         re = 1 + d*cosl(t);
         im = d*sinl(t);
         break;
      }
      case 12: re = any_exp(r, p); im = any_exp(r, p); break;
      case 13: re = special(r, p); im = special(r, p); break;
      case 14: re = ldexpl((LD)r.range(-32, 32), -(int)r.below(5)); im = ldexpl((LD)r.range(-32, 32), -(int)r.below(5)); break;
      default: re = 10*sym(r); im = 10*sym(r); break;
   }
   re = clamp(p, re);
   im = clamp(p, im);
}

/// order n >= 1
inline int64_t order_pos(Rng& r)
{
   switch (r.below(11)) {
      case 10: { const int64_t v = dict_int(r); return v < 1 ? (v < -INT64_MAX ? 1 : v == 0 ? 1 : -v) : v; }
      case 0: return r.range(1, 6);
      case 1: return r.range(7, 9);
      case 2: case 3: return r.range(7, 30);
      case 4: return r.range(7, 80);
      case 5: return r.range(60, 200);
      case 6: return r.range(150, 1100);
      case 7: { static const int64_t v[] = { 7, 8, 11, 12, 13, 53, 54, 64, 127, 128, 129, 130, 170, 171, 172, 255, 256, 1000, 1024, 1075, 1100, INT64_MAX, INT64_MAX - 1, INT64_MAX - 2, INT64_MAX - 3, INT64_MAX - 4, (int64_t)1 << 31, ((int64_t)1 << 31) - 1, ((int64_t)1 << 32) + 1, ((int64_t)1 << 53) + 1 };
         return v[r.below(sizeof v/sizeof v[0])]; }
      default: { const int64_t v = (int64_t)(r.next() >> r.range(1, 62)); return v < 1 ? 1 : v; }
   }
}

/// order n <= 0
inline int64_t order_neg(Rng& r)
{
   switch (r.below(9)) {
      case 8: { const int64_t v = dict_int(r), a = v < -INT64_MAX ? 0 : v < 0 ? v : -v; return a < -300 ? -(int64_t)((uint64_t)-a % 301) : a; }
      case 0: return -r.range(0, 2);
      case 1: case 2: case 3: return -r.range(2, 20);
      case 4: case 5: return -r.range(10, 60);
      case 6: return -r.range(40, 200);
      default: return -r.range(1, 300);
   }
}

/// order below -300, for all of which the result overflows nearly everywhere
inline int64_t order_far(Rng& r)
{
   switch (r.below(4)) {
      case 0: return -r.range(300, 3000);
      case 1: return -(int64_t)(r.next() >> r.range(1, 62));
      case 2: return INT64_MIN + (int64_t)r.below(9);
      default: { const int64_t v = dict_int(r); return v > 0 ? -v : v; }
   }
}

} // namespace gen
