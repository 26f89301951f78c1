// C30: extended-precision functions on platforms with another long double.
// Linked with tools/build_platform.sh's library (PL = 64 or 128) in place of
// the other properties.
#include "acc.hpp"
#include "gen.hpp"
#include "mp.hpp"

#if PL == 64
typedef double T;
enum { PREC = 53 };
#else
typedef __float128 T;
enum { PREC = 113 };
#endif
extern "C" { void pl_cpp(int, const T*, T*); void pl_c(int, const T*, T*); int pl_digits_cpp(); int pl_digits_c(void); }

namespace {

const Q UNIT = ldexpq(1, -PREC);

/// the argument as a sum of two numbers
T value(LD hi, LD lo) { return (T)((Q)hi + (Q)lo); }

LD low_part(Rng& g, LD hi)
{
   if (PREC == 53 || !std::isfinite(hi)) { return 0; }
   if (g.below(4) == 0) { return 0; }
   if (g.below(4) == 0 && fabsl(hi) == 1) { return gen::sgn(g)*ldexpl(1, -(int)g.range(64, 113)); }
   const LD lo = ldexpl(hi*gen::sym(g), -(int)(g.below(4) ? 65 : g.range(65, 112)));
   const Q q = (Q)hi + (Q)lo;
   return (LD)(q - hi);
}

Case gen_c30(Rng& g)
{
   static const int fn[] = { 0, 0, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 12, 13, 14, 15, 16 };
   Case c;
   c.sub = "PL";
   c.prec = PREC;
   const int gp = PREC == 53 ? 53 : 64;
   const int f = fn[g.below(sizeof fn/sizeof fn[0])];
   c.n.push_back(f);
   LD re = 0, im = 0;
   if (f == 0) { re = gen::li_real(g, gp); }
   else if (f > 10) { re = gen::cl_real(g, gp); }
   else { gen::li_cplx(g, gp, re, im); }
   c.x = { re, low_part(g, re), im, low_part(g, im) };
   return c;
}

std::string show_t(T v) { return showq((Q)v); }

void check_c30(const Case& c, Report& r)
{
   if (pl_digits_cpp() != PREC || pl_digits_c() != PREC) { r.fail("build without -mlong-double"); return; }
   const int f = (int)c.n[0];
   if (!(f == 0 || (f >= 2 && f <= 6) || (f >= 12 && f <= 16)) || c.x.size() != 4) { return; }
   for (int i = 0; i < 4; ++i) { if (!std::isfinite(c.x[i])) { return; } }
   const T in[2] = { value(c.x[0], c.x[1]), f >= 2 && f <= 6 ? value(c.x[2], c.x[3]) : T(0) };
   const Q x = in[0], y = in[1];
   if (!finiteq(x) || !finiteq(y)) { return; }
   r.nontrivial = !(y == 0 && (x == 0 || fabsq(x) == 1));
   Q er = 0, ei = 0, scale = 0;
   std::string key;
   const Q az = hypotq(x/2, y/2)*2;
   if (f < 10) {
      const int n = f == 0 ? 2 : f;
      if (PREC == 53) {
         const acc::Expect e = acc::expect_li(n, (LD)x, (LD)y, 53);
         er = e.f.re;
         ei = e.f.im;
         scale = e.scale;
      } else {
         const mp::C z(mp::of(x), mp::of(y)), v = mp::li(n, z), d = mp::li(n - 1, z);
         er = mp::to(v.re);
         ei = mp::to(v.im);
         scale = mp::to(mp::abs(v) + mp::abs(d));
      }
      if (f == 0) { ei = 0; }
      static const Q b[] = { 0.25Q, 0.75Q, 1, 1.4Q, 4, 1e10Q };
      int i = 0;
      while (i < 6 && az > b[i]) { ++i; }
      const Q l = logq(az), t = atan2q(y, x);
      key = "PL|" + std::to_string(f) + "/" + std::to_string(PREC) + "/" + (f == 0 ? (x < 0 ? "-" : "+") : y == 0 ? "r" : "a") + std::to_string(i);
      if (f != 0 && i > 0 && i < 5) { key += l*l + t*t < 1 ? "n" : x > 0.5Q ? "h" : ""; }
      r.label = "Li" + std::to_string(n) + (f == 0 ? " real" : " complex");
   } else {
      const int n = f - 10;
      if (fabsq(x)*UNIT > 1e-3Q) { return; } // x mod 2 pi is not determined
      const mp::M mx = mp::of(x);
      er = mp::to(mp::cl(n, mx));
      const Q d = x == 0 ? 0 : mp::to(mp::cl(n - 1, mx));
      if (!finiteq(d)) { return; }
      scale = fabsq(er) + fabsq(x*d);
      const Q t = fabsq(remainderq(x, 2*ref::PI));
      static const Q cb[] = { 1e-6Q, 0.3Q, 0.6Q, 0.9Q, 1.2Q, 1.4Q, 1.5707963267948966Q, 1.6Q, 1.65Q, 1.7Q, 1.8Q, 2, 2.3Q, 2.7Q, 3, 3.14Q };
      int i = 0;
      while (i < 16 && t > cb[i]) { ++i; }
      key = "PL|" + std::to_string(f) + "/" + std::to_string(PREC) + "/" + std::to_string(i);
      r.label = "Cl" + std::to_string(n);
   }
   const double K = acc::kfactor(key);
   for (int lang = 0; lang < 2; ++lang) {
      T o[2] = { 0, 0 };
      (lang ? pl_c : pl_cpp)(f, in, o);
      double q;
      if (!finiteq((Q)o[0]) || !finiteq((Q)o[1])) { q = INFINITY; }
      else {
         const Q e = hypotq((Q)o[0] - er, (Q)o[1] - ei) - (PREC == 53 ? 4e-323Q : 1e-4960Q);
         const Q k = e <= 0 ? 0 : e/(scale*UNIT);
         q = k != k ? INFINITY : k > 1e300Q ? 1e300 : (double)k;
      }
      r.metrics.push_back(std::make_pair(key, std::make_pair(q, K)));
      if (q > K) {
         r.fail(fmt("%s %s, %d-bit mantissa: argument (%s, %s), result (%s, %s), expected (%s, %s), error %.3g units of rounding, allowed %.3g [%s]",
                    lang ? "C" : "C++", r.label.c_str(), (int)PREC, show_t(in[0]).c_str(), show_t(in[1]).c_str(), show_t(o[0]).c_str(), show_t(o[1]).c_str(), showq(er).c_str(), showq(ei).c_str(), q, K, key.c_str()));
      }
   }
}

const std::vector<Prop> none;

} // anonymous namespace

const std::vector<Prop>& extra_props()
{
   static const std::vector<Prop> v = { { "C30", gen_c30, check_c30, "" } };
   return v;
}
const std::vector<Prop>& meta_props() { return none; }
const std::vector<Prop>& num_props() { return none; }
const std::vector<Prop>& hist_props() { return none; }
const std::vector<Fn>& all_functions() { static const std::vector<Fn> v; return v; }
