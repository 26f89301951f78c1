// Candidates for a simpler failing case.  Every candidate is strictly simpler
// by `cost`, so that shrinking terminates.
#pragma once
#include "core.hpp"

namespace shrink {

inline double cost(LD v)
{
   if (std::isnan(v)) { return 3; }
   if (std::isinf(v)) { return 2; }
   if (v == 0) { return std::signbit(v) ? 0.5 : 0; }
   int e;
   LD m = frexpl(fabsl(v), &e);
   int bits = 0;
   while (m != 0 && bits < 70) { m *= 2; m -= floorl(m); ++bits; }
   return 4 + bits + fabs((double)e)*0.05 + (v < 0 ? 0.5 : 0);
}
inline double cost(int64_t n) { return n < 0 ? 0.5 - (double)n : (double)n; }

inline std::vector<Case> candidates(const Case& c)
{
   std::vector<Case> r;
   if (c.sub == "HIST" || c.sub == "CONC") { // remove calls
      const size_t k = c.n.size()/2;
      for (size_t w = k/2; w >= 1; w /= 2) {
         for (size_t i = 0; i + w <= k; i += w) {
            if (k - w < 1) { continue; }
            Case d = c;
            d.n.erase(d.n.begin() + 2*i, d.n.begin() + 2*(i + w));
            d.x.erase(d.x.begin() + 2*i, d.x.begin() + 2*(i + w));
            r.push_back(d);
         }
      }
      if (k > 12) { return r; }
   }
   for (size_t i = 0; i < c.n.size(); ++i) {
      if (((c.sub == "HIST" || c.sub == "CONC") && i % 2 == 0) || (c.sub == "CALL" && i == 0)) { continue; } // function
      const int64_t n = c.n[i];
      const int64_t t[] = { 0, 1, 2, 3, 4, 5, 6, 7, n/2, n - n/4, n - n/16, n - n/256, n - n/65536, n - n/(INT64_C(1) << 32), n > 0 ? n - 1 : n < 0 ? n + 1 : 0, n > INT64_MIN ? -n : 0 };
      for (int64_t v : t) {
         if (cost(v) < cost(n)) { Case d = c; d.n[i] = v; r.push_back(d); }
      }
   }
   for (size_t i = 0; i < c.x.size(); ++i) {
      const LD x = c.x[i];
      std::vector<LD> t = { 0.0L, 1.0L, -1.0L, 2.0L, 0.5L, -x, truncl(x) };
      if (std::isfinite(x) && x != 0) {
         int e;
         const LD m = frexpl(x, &e);
         for (int b : { 1, 2, 4, 8, 12, 20, 30, 40, 52 }) { t.push_back(ldexpl(truncl(ldexpl(m, b)), e - b)); }
         t.push_back(ldexpl(m, e/2));
         t.push_back(ldexpl(m, e > 0 ? e - 1 : e + 1));
      }
      for (LD v : t) {
         if (cost(v) < cost(x)) { Case d = c; d.x[i] = round_to(c.prec, v); r.push_back(d); }
      }
   }
   return r;
}

} // namespace shrink
