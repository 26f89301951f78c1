// C18: zeta(n), Li_n(-1) = -eta(n), 1/n!, H_n for every 64-bit integer n.
#include "acc.hpp"


using namespace acc;

static const Fam fams[] = { ZETA, NEGETA, INVFAC, HARM };

static Case gen_c18(Rng& g)
{
   Case c;
   const Fam f = fams[g.below(4)];
   c.sub = group_name({ f, N2R, 0 });
   int64_t n;
   switch (g.below(9)) {
      case 8: n = gen::dict_int(g); if (g.below(3) == 0) { n = (int64_t)(0 - (uint64_t)n); } break;
      case 0: n = g.range(-700, 700); break;
      case 1: n = g.range(-300, 300); break;
      case 2: n = g.range(-12, 40); break;
      case 3: n = g.range(-3000, 5000); break;
      case 4: n = (int64_t)g.next(); break;
      case 5: n = (int64_t)(g.next() >> g.range(0, 63)); if (g.coin()) { n = -n; } break;
      case 6: { const int s = (int)g.range(0, 62); n = ((int64_t)1 << s) + g.range(-3, 3); if (g.coin()) { n = -n; } break; }
      default: n = g.coin() ? INT64_MAX - g.range(0, 5) : INT64_MIN + g.range(0, 5); break;
   }
   c.n.push_back(n);
   return c;
}

static void check_c18(const Case& c, Report& r)
{
   const Group g = parse_group(c.sub);
   const int64_t n = c.n[0];
   r.label = c.sub + (n < 0 ? "/negative" : n < 30 ? "/small" : "/large");
   r.nontrivial = n < -1 || n > 1;
   for (const Fn* f : find_fns(g.fam, N2R, 0, 53)) {
      const Val v = call(*f, n, 0);
      const std::string m = std::string(f->name) + " = " + show(v.re);
      if (g.fam == INVFAC && n < 0) { if (!std::isnan(v.re)) { r.fail(m + ", expected NaN"); } continue; }
      if (g.fam == HARM && n <= 0) { if (!std::isnan(v.re)) { r.fail(m + ", expected NaN"); } continue; }
      Q w = 0;
      switch (g.fam) {
         case ZETA: w = n < -16000 ? (n % 2 == 0 ? Q(0) : (-(n + 1)/2) % 2 != 0 ? HUGE_VALQ : -HUGE_VALQ) : ref::zeta(n); break;
         case NEGETA: w = n < -5000 ? (n % 2 == 0 ? Q(0) : (-(n + 1)/2) % 2 != 0 ? HUGE_VALQ : -HUGE_VALQ) : n == 0 ? Q(-0.5Q) : ref::neg_eta(n); break;
         case INVFAC: w = ref::inv_fac(n); break;
         default: w = ref::harmonic(n); break;
      }
      const std::string mw = m + ", expected " + showq(w);
      if (fabsq(w) > (Q)DBL_MAX) {
         if (!std::isinf(v.re) || (v.re > 0) != (w > 0)) { r.fail(mw); }
         continue;
      }
      if (!std::isfinite(v.re)) { r.fail(mw); continue; }
      if (w == 0 || fabsq(w) < (Q)denorm_of(53)/4) { if (v.re != 0) { r.fail(mw); } continue; }
      const Q unit = fabsq(w)*eps_of(53) + (fabsq(w) < (Q)DBL_MIN ? (Q)denorm_of(53) : Q(0));
      const Q q = fabsq(Q(v.re) - w)/unit;
      const std::string key = c.sub + (n < 0 ? "/neg" : n < 60 ? "/small" : "/large");
      const double K = kfactor(key);
      r.metrics.push_back(std::make_pair(key, std::make_pair((double)q, K)));
      if (!(q <= K)) { r.fail(mw + fmt(": error %.3g units of rounding, allowed %.3g", (double)q, K)); }
   }
}

const std::vector<Prop>& num_props()
{
   static const std::vector<Prop> v = { { "C18", gen_c18, check_c18, "" } };
   return v;
}
