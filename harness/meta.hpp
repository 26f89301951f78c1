// Helpers of the metamorphic properties.
#pragma once
#include "acc.hpp"
#include <algorithm>

namespace meta {

using namespace acc;
using ref::C;


const Q QPI = ref::PI;

struct Sub { std::string what; Group g; };

inline Sub parse_sub(const std::string& s)
{
   const size_t p = s.find('|');
   return { s.substr(0, p), parse_group(s.substr(p + 1)) };
}
inline std::string make_sub(const char* what, const Group& g) { return std::string(what) + "|" + group_name(g); }

inline C cq(const Val& v) { return C(v.re, v.im); }
inline bool neg(LD v) { return std::signbit(v); }
inline bool general(const Group& g) { return g.kind == NC2C || g.kind == NR2R; }
inline int64_t order(const Group& g, const Case& c) { return general(g) ? c.n[0] : g.n; }

inline std::string nclass(const Group& g, int64_t n)
{
   if (!general(g)) { return ""; }
   return n < 0 ? "-1" : n <= 6 ? std::to_string(n) : n < 30 ? "7-29" : n < 200 ? "30-199" : "200+";
}
inline std::string key_of(const Case& c, const Group& g, int64_t n)
{
   const bool cplx = g.kind == C2C || g.kind == NC2C;
   return c.sub + "/" + nclass(g, n) + "/" + std::to_string(c.prec) + (cplx && c.x.size() == 2 && c.x[1] == 0 ? "/axis" : "");
}

/// key of a relation that evaluates functions at x only
inline std::string key_at(const Case& c, const Group& g, int64_t n, LD x, LD y = 0)
{
   return c.sub + "/" + nclass(g, n) + "/" + std::to_string(c.prec) + "/" + (g.fam == LI ? li_region(g.kind, n, c.prec, x, y) : cl_region(n, c.prec, x));
}

inline void metric(Report& r, const std::string& key, Q diff, Q unit, const std::string& msg)
{
   const Q q = diff <= 0 ? Q(0) : unit > 0 ? diff/unit : HUGE_VALQ;
   const double K = kfactor(key), d = q != q ? INFINITY : q > 1e300Q ? 1e300 : (double)q;
   r.metrics.push_back(std::make_pair(key, std::make_pair(d, K)));
   if (!(d <= K)) { r.fail(msg + fmt(": difference of %.3g units of rounding, allowed %.3g [%s]", d, K, key.c_str())); }
}

inline std::string show2(const Val& v) { return "(" + show(v.re) + ", " + show(v.im) + ")"; }

// ---- choice of the function group ----------------------------------------

inline Group li_c2c(Rng& g, int& prec)
{
   if (g.below(4) == 0) { prec = 53; return { LI, NC2C, 0 }; }
   const int n = (int)g.range(2, 6);
   prec = n == 2 && g.below(3) == 0 ? 24 : g.coin() ? 53 : 64;
   return { LI, C2C, n };
}
inline Group li_r2r(Rng& g, int& prec)
{
   const int n = (int)g.range(2, 4);
   static const int p[] = { 24, 53, 64 };
   prec = n == 2 ? p[g.below(3)] : 53;
   return { LI, R2R, n };
}
inline Group clausen(Rng& g, int& prec)
{
   prec = 53;
   switch (g.below(4)) {
      case 0: return { CL, NR2R, 0 };
      case 1: return { SL, NR2R, 0 };
      default: break;
   }
   const int n = (int)g.range(1, 6);
   if (n > 1 && g.coin()) { prec = 64; }
   return { CL, R2R, n };
}
inline void add_order(Rng& g, const Group& gr, Case& c, bool pos_only = false)
{
   if (gr.kind == NC2C) { c.n.push_back(pos_only || g.below(3) ? gen::order_pos(g) : gen::order_neg(g)); }
   if (gr.kind == NR2R) { c.n.push_back(gen::order_pos(g)); }
}

/// parity of the Clausen-type function: true if f(-x) = -f(x)
inline bool odd_function(Fam f, int64_t n) { return f == CL ? n % 2 == 0 : n % 2 != 0; }


} // namespace meta
