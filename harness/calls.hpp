// Single calls of any entry point, for the fuzz target and the memory checker.
#pragma once
#include "gen.hpp"
#include <cfenv>

inline Case generate(Rng& g)
{
   const std::vector<Fn>& fs = all_functions();
   Case c;
   c.sub = "CALL";
   size_t k = g.below(fs.size());
   if (g.below(5) == 0) { for (size_t i = 0; i < fs.size(); ++i) { if (fs[i].kind == NC2C) { k = i; } } } // one function with many methods
   const Fn& f = fs[k];
   c.prec = f.prec;
   int64_t n = 0;
   if (f.kind == NC2C) { n = g.below(3) ? gen::order_pos(g) : g.below(4) ? gen::order_neg(g) : gen::order_far(g); }
   if (f.kind == NR2R || f.kind == N2R) { n = g.below(4) ? gen::order_pos(g) : g.coin() ? gen::order_neg(g) : (int64_t)g.next(); }
   c.n = { (int64_t)k, n, g.below(6) ? 0 : g.range(1, 3) };
   c.x = { 0, 0 };
   if (f.kind == C2C || f.kind == NC2C) { gen::li_cplx(g, f.prec, c.x[0], c.x[1]); }
   else { c.x[0] = f.fam == CL || f.fam == SL ? gen::cl_real(g, f.prec) : gen::li_real(g, f.prec); }
   if (g.below(30) == 0) { static const LD v[] = { NAN, INFINITY, -INFINITY, 0.0L, -0.0L }; c.x[g.below(2)] = v[g.below(5)]; }
   return c;
}

/// n: function, order, rounding mode
inline int mode_of(const Case& c)
{
   static const int m[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
   return m[(uint64_t)c.n[2] % 4];
}

inline bool admissible(const Case&) { return true; }
