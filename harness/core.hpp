// Cases, reports, random numbers.
#pragma once
#include "api.hpp"
#include "ref.hpp"
#include <cfenv>
#include <xmmintrin.h>
#include <cfloat>
#include <cstdarg>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

typedef ref::Q Q;

/// generated input of one property
struct Case {
   std::string sub;         // which sub-check / group of functions
   int prec = 53;           // precision in which x[] is representable
   std::vector<int64_t> n;  // integer arguments
   std::vector<LD> x;       // real arguments
};

struct Metric {
   double max = 0;
   double K = 0;
   Case at;
   uint64_t count = 0;
};

/// what one evaluation of a property found
struct Report {
   bool ok = true;
   bool nontrivial = false;
   std::string label;        // class of the case, for the evidence
   std::string msg;          // what failed
   std::vector<std::pair<std::string, std::pair<double, double> > > metrics; // key, ratio, bound

   void fail(const std::string& m) { if (ok) { msg = m; } ok = false; }
};

struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed) : s(seed) {}
   uint64_t next()
   {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   uint64_t below(uint64_t n) { return n ? next() % n : 0; }
   int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
   LD unit() { return (LD)next() / 18446744073709551616.0L; }
   bool coin() { return next() & 1; }
};

inline LD round_to(int prec, LD v)
{
   if (prec == 24) { volatile float f = (float)v; return f; }
   if (prec == 53) { volatile double d = (double)v; return d; }
   return v;
}
inline LD max_of(int prec) { return prec == 24 ? (LD)FLT_MAX : prec == 53 ? (LD)DBL_MAX : LDBL_MAX; }
inline LD min_of(int prec) { return prec == 24 ? (LD)FLT_MIN : prec == 53 ? (LD)DBL_MIN : LDBL_MIN; }
inline LD denorm_of(int prec) { return prec == 24 ? (LD)1.40129846432481707e-45L : prec == 53 ? (LD)4.94065645841246544e-324L : 3.64519953188247460253e-4951L; }
inline LD eps_of(int prec) { return ldexpl(1.0L, -prec); }
inline LD ulp_step(int prec, LD v, int k) // k ulps away from v
{
   for (; k > 0; --k) { v = prec == 24 ? (LD)nextafterf((float)v, INFINITY) : prec == 53 ? (LD)nextafter((double)v, INFINITY) : nextafterl(v, INFINITY); }
   for (; k < 0; ++k) { v = prec == 24 ? (LD)nextafterf((float)v, -INFINITY) : prec == 53 ? (LD)nextafter((double)v, -INFINITY) : nextafterl(v, -INFINITY); }
   return v;
}

inline std::string fmt(const char* f, ...)
{
   char b[512];
   va_list a;
   va_start(a, f);
   vsnprintf(b, sizeof b, f, a);
   va_end(a);
   return b;
}
inline std::string show(LD v) { return fmt("%.21Lg", v); }
inline std::string hexs(LD v) { return fmt("%La", v); }
inline std::string showq(Q v) { char b[64]; quadmath_snprintf(b, sizeof b, "%.25Qg", v); return b; }

inline std::string to_line(const Case& c)
{
   std::string s = c.sub + ";" + std::to_string(c.prec) + ";";
   for (size_t i = 0; i < c.n.size(); ++i) { s += (i ? "," : "") + std::to_string(c.n[i]); }
   s += ";";
   for (size_t i = 0; i < c.x.size(); ++i) { s += (i ? "," : "") + hexs(c.x[i]); }
   return s;
}
inline std::string to_human(const Case& c)
{
   std::string s = c.sub + " p=" + std::to_string(c.prec);
   if (!c.n.empty()) {
      s += " n=";
      for (size_t i = 0; i < c.n.size(); ++i) { s += (i ? "," : "") + std::to_string(c.n[i]); }
   }
   s += " x=";
   for (size_t i = 0; i < c.x.size(); ++i) { s += (i ? "," : "") + show(c.x[i]); }
   return s;
}
inline std::vector<std::string> split(const std::string& s, char d)
{
   std::vector<std::string> r(1);
   for (char ch : s) { if (ch == d) { r.push_back(""); } else { r.back() += ch; } }
   return r;
}
inline bool from_line(const std::string& l, Case& c)
{
   const std::vector<std::string> p = split(l, ';');
   if (p.size() != 4) { return false; }
   c = Case();
   c.sub = p[0];
   c.prec = atoi(p[1].c_str());
   if (!p[2].empty()) { for (const std::string& t : split(p[2], ',')) { c.n.push_back(strtoll(t.c_str(), 0, 10)); } }
   if (!p[3].empty()) { for (const std::string& t : split(p[3], ',')) { c.x.push_back(strtold(t.c_str(), 0)); } }
   return true;
}
inline uint64_t hash_case(const Case& c)
{
   uint64_t h = 1469598103934665603ull;
   for (char ch : to_line(c)) { h = (h ^ (unsigned char)ch)*1099511628211ull; }
   return h;
}

/// one property (or a part of it)
struct Prop {
   const char* id;
   Case (*gen)(Rng&);
   void (*check)(const Case&, Report&);
   const char* rule;
};
const std::vector<Prop>& all_props();

// ---- lookup of functions ------------------------------------------------

inline std::vector<const Fn*> find_fns(Fam fam, Kind kind, int n, int prec)
{
   std::vector<const Fn*> r;
   for (const Fn& f : all_functions()) {
      if (f.fam == fam && f.kind == kind && (n < 0 || f.n == n) && (prec == 0 || f.prec == prec)) { r.push_back(&f); }
   }
   return r;
}
inline const Fn* find_fn(const std::string& name)
{
   for (const Fn& f : all_functions()) { if (name == f.name) { return &f; } }
   return 0;
}

struct Val { LD re = 0, im = 0; };
inline bool& flush_mode() { static bool m = false; return m; } // subnormal numbers are 0 (crtfastmath.o), for calls of the code under test
inline int& rounding_mode() { static int m = FE_TONEAREST; return m; } // for calls of the code under test
inline Val call(const Fn& f, int64_t n, LD a, LD b = 0)
{
   LD in[2] = { a, b }, out[2] = { 0, 0 }, after[2];
   const int m = rounding_mode();
   if (flush_mode()) {
      const unsigned csr = _mm_getcsr();
      _mm_setcsr(csr | 0x8040);
      f.call(n, in, out, after);
      _mm_setcsr(csr);
   }
   else if (m == FE_TONEAREST) { f.call(n, in, out, after); }
   else {
      // (the wrappers convert exactly)
      fesetround(m);
      f.call(n, in, out, after);
      fesetround(FE_TONEAREST);
   }
   Val v;
   v.re = out[0];
   v.im = out[1];
   return v;
}
inline bool same_bits(LD a, LD b) { return memcmp(&a, &b, 10) == 0; }
inline bool finite2(const Val& v) { return std::isfinite(v.re) && std::isfinite(v.im); }
