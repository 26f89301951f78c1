#include "acc.hpp"
#include "kfactors.hpp"

namespace acc {

using ref::C;
static const Q QINF = HUGE_VALQ;

static const char* fam_names[] = { "LI", "CL", "SL", "ZETA", "NEGETA", "INVFAC", "HARM", "LOG1P", "POSLOG" };
static const char* kind_names[] = { "R2R", "C2C", "NR2R", "NC2C", "N2R" };

std::string group_name(const Group& g)
{
   return std::string(fam_names[g.fam]) + ":" + kind_names[g.kind] + ":" + std::to_string(g.n);
}

Group parse_group(const std::string& s)
{
   Group g = { LI, R2R, 0 };
   const std::vector<std::string> p = split(s, ':');
   for (int i = 0; i < 9; ++i) { if (p[0] == fam_names[i]) { g.fam = (Fam)i; } }
   for (int i = 0; i < 5; ++i) { if (p[1] == kind_names[i]) { g.kind = (Kind)i; } }
   g.n = atoi(p[2].c_str());
   return g;
}

static bool qfinite(const C& c) { return finiteq(c.re) && finiteq(c.im); }

Expect expect_li(int64_t n, LD re, LD im, int)
{
   Expect e;
   const C z(re, im);
   const ref::R f = ref::li(n, z);
   e.f = f.v;
   e.err = f.err;
   if (z.re == 1 && z.im == 0 && n <= 1) { e.singular = true; return e; }
   if (z.re == 1 && z.im == 0 && n == 2) { e.scale = 40*ref::abs(f.v); return e; }
   const ref::R g = ref::li(n > INT64_MIN ? n - 1 : n, z, 1e-9Q);
   e.scale = ref::abs(f.v) + ref::abs(g.v);
   if (n < 0) {
      // -n multiplies the relative error of ln z
      e.scale += Q(-n)*ref::abs(f.v);
      // close to zeros of f, where few terms k^-n z^k cancel
      if (n < -300) { e.scale += Q(-n - 300)/16*ref::abs(g.v); }
   } else if (n > 6) {
      // Li_n(z) ~ exp(ln z): the error of ln z is multiplied by |ln z|
      const Q l = fabsq(ref::logabs(z));
      if (l > 1) { e.scale += (l < Q(n) ? l : Q(n))*ref::abs(f.v); }
   }
   return e;
}

Expect expect_cl(bool sl, int64_t n, LD x, int prec)
{
   Expect e;
   const Q xq = x, d = fabsq(xq)*eps_of(prec);
   auto fun = [&] (Q t, Q tol) { return sl ? ref::sl(n, t, tol) : ref::cl(n, t, tol); };
   const Q f = fun(xq, 1e-34Q);
   e.f = C(f);
   e.err = 1e-32Q*(1 + fabsq(f));
   if (n == 1 && !sl) { e.err = 1e-30Q*fabsq(xq)/(fabsq(sinq(xq/2)) + 1e-4000Q); }
   if (fabsq(f) < 1e-3Q) { e.err = 1e-31Q*fabsq(f) + fabsq(xq)*1e-32Q*(fabsq(xq) > 6.2Q ? 1 : 0); }
   if (d > 1) { e.scale = QINF; return e; } // the argument determines nothing
   const Q f1 = fun(xq + d, 1e-22Q), f2 = fun(xq - d, 1e-22Q);
   Q m = fabsq(f1 - f);
   if (fabsq(f2 - f) > m) { m = fabsq(f2 - f); }
   if (m < d*1e-15Q) { m = 0; }
   e.scale = fabsq(f) + m/eps_of(prec);
   // singularity (Cl_1) or jump (Sl_1) at multiples of 2 pi
   if (n == 1) {
      const Q k = roundq(xq/(2*ref::PI));
      if (fabsq(xq - 2*ref::PI*k) <= 4*d) { e.singular = true; }
   }
   return e;
}

double ratio(const Val& v, const Expect& e, int prec)
{
   const LD mx = max_of(prec);
   if (!finite2(v)) {
      // (f or z f' not representable: intermediate results overflow)
      return !qfinite(e.f) || ref::cmag(e.f) > mx*0.999999L || e.scale > mx/16 ? 0 : INFINITY;
   }
   if (e.f.re != e.f.re || e.f.im != e.f.im) { return 0; } // not even as a quadruple-precision number
   if (!qfinite(e.f)) { return fabsl(v.re) > mx*0.5L || fabsl(v.im) > mx*0.5L ? 0 : INFINITY; }
   const Q err = ref::abs(C(v.re, v.im) - e.f) - e.err - 8*(Q)denorm_of(prec);
   if (err <= 0) { return 0; }
   const Q r = err/(e.scale*eps_of(prec));
   return r != r ? INFINITY : r > 1e300Q ? 1e300 : (double)r;
}

static std::string bin(const char* tag, LD v, const LD* b, int nb)
{
   for (int i = 0; i < nb; ++i) { if (v <= b[i]) { return fmt("%s<=%Lg", tag, b[i]); } }
   return fmt("%s>%Lg", tag, b[nb - 1]);
}

std::string li_region(Kind kind, int64_t n, int, LD re, LD im)
{
   if (kind == R2R) {
      static const LD b[] = { -1, 0, 0.5L, 0.6L, 0.7L, 0.8L, 1, 1.25L, 1.4L, 1.6L, 1.8L, 2 };
      return bin("x", re, b, 12);
   }
   if (n < 0) {
      static const LD b[] = { 1, 2, 5, 10, 20, 40, 80, 120, 171, 300, 600, 1000 };
      const LD nb = -n;
      static const LD a[] = { 0.3L, 0.6L, 1, 1.7L, 4 };
      return bin("m", nb, b, 12) + bin("a", hypotl(re, im), a, 5);
   }
   static const LD b[] = { 0.25L, 0.75L, 1, 1.4L, 4, 1e10L };
   const LD az = hypotl(re, im);
   std::string part;
   if (az > 0.25L && az <= 4) { // |ln z| < 1, half planes
      const LD l = logl(az), t = atan2l(im, re);
      part = l*l + t*t < 1 ? "n" : re > 0.5L ? "h" : "";
   }
   return bin(im == 0 ? "r" : "a", az, b, 6) + part;
}

std::string cl_region(int64_t, int, LD x)
{
   // argument mapped to [0,pi]
   static const LD b[] = { 1e-6L, 0.1L, 0.5L, 1.0L, 1.3L, 1.5L, 1.64L, 1.8L, 2.1L, 2.6L, 2.95L, 3.1L, 3.141L };
   Q t = fmodq(fabsq(Q(x)), 2*ref::PI);
   if (t > ref::PI) { t = 2*ref::PI - t; }
   return bin(fabsl(x) <= 3.2L ? "t" : fabsl(x) <= 6.3L ? "u" : "v", (LD)t, b, 13);
}

static double extra_scale = 1; // in directed rounding modes
double kfactor(const std::string& key)
{
   static const std::map<std::string, double> table = [] {
      std::map<std::string, double> t;
      for (const KEntry& k : ktable) {
         t[k.key] = k.K;
         // rarely met regions: twice the largest bound of the same function
         const std::string s = std::string(k.key).substr(0, std::string(k.key).find('/')) + "/*";
         double& d = t[s];
         if (2*k.K > d) { d = 2*k.K; }
      }
      return t;
   }();
   static const double scale = getenv("VERIF_KSCALE") ? atof(getenv("VERIF_KSCALE")) : 1;
   auto i = table.find(key);
   if (i == table.end()) { i = table.find(key.substr(0, key.find('/')) + "/*"); }
   return scale*extra_scale*(i == table.end() ? kdefault : i->second);
}

void check_fn(const Fn& f, int64_t n, const Case& c, const Expect& e, const std::string& key, Report& r)
{
   const LD re = c.x[0], im = c.x.size() > 1 ? c.x[1] : 0;
   const Val v = call(f, n, re, im);
   if (e.singular) {
      if (finite2(v) && f.n != 1 && n != 1) { r.fail(std::string(f.name) + " finite at a pole"); }
      return;
   }
   const double q = ratio(v, e, f.prec), K = kfactor(key);
   r.metrics.push_back(std::make_pair(key, std::make_pair(q, K)));
   if (q > K) {
      r.fail(fmt("%s: result (%s, %s), expected (%s, %s), error %.3g units of rounding, allowed %.3g [%s]", f.name,
                 show(v.re).c_str(), show(v.im).c_str(), showq(e.f.re).c_str(), showq(e.f.im).c_str(), q, K, key.c_str()));
   }
}

} // namespace acc

using namespace acc;

// ---- properties ----------------------------------------------------------

static Case make(const Group& g, int prec) { Case c; c.sub = group_name(g); c.prec = prec; return c; }

static Q scale_floor = 0; // smallest scale: accuracy relative to max(|f|,scale_floor)

/// Li(n,z), n < 0: components that overflow are infinities with the right sign
static void check_overflow(const Fn& f, int64_t n, const Case& c, const Expect& e, double K, Report& r)
{
   if (e.singular || !qfinite(e.f) || !(e.scale < 1e4900Q)) { return; }
   const Val v = call(f, n, c.x[0], c.x[1]);
   const LD a[2] = { v.re, v.im };
   const Q w[2] = { e.f.re, e.f.im };
   for (int i = 0; i < 2; ++i) {
      const std::string m = fmt("%s: component %d of (%s, %s), expected (%s, %s)", f.name, i + 1, show(v.re).c_str(), show(v.im).c_str(), showq(w[0]).c_str(), showq(w[1]).c_str());
      if (std::isnan(a[i])) { r.fail(m); continue; }
      if (c.x[1] == 0 && i == 1 && std::isinf(a[i])) { r.fail(m); }
      // the sign is known, and the value is not representable
      if (fabsq(w[i]) > 16*K*eps_of(53)*e.scale + e.err && fabsq(w[i]) > 2*(Q)max_of(53) && !(std::isinf(a[i]) && (a[i] > 0) == (w[i] > 0))) { r.fail(m); }
   }
}

static void check_group(const Case& c, Report& r)
{
   const Group g = parse_group(c.sub);
   const int64_t n = g.kind == NC2C || g.kind == NR2R ? c.n[0] : g.n;
   const LD re = c.x[0], im = c.x.size() > 1 ? c.x[1] : 0;
   if (!std::isfinite(re) || !std::isfinite(im)) { return; }
   Expect e;
   std::string reg;
   if (g.fam == LI) {
      e = expect_li(n, re, im, c.prec);
      if (g.kind == R2R) { e.f.im = 0; }
      reg = li_region(g.kind, n, c.prec, re, im);
   } else {
      e = expect_cl(g.fam == SL, n, re, c.prec);
      reg = cl_region(n, c.prec, re);
   }
   const std::string nk = g.kind == NC2C || g.kind == NR2R ? (n <= (g.kind == NR2R ? 12 : 6) ? std::to_string(n < 0 ? -1 : n) : n < 30 ? "-29" : n < 200 ? "30-199" : "200+") : "";
   const std::string key = c.sub + "/" + nk + "/" + std::to_string(c.prec) + "/" + reg;
   e.scale += scale_floor;
   r.label = c.sub + "/p" + std::to_string(c.prec);
   r.nontrivial = !e.singular && re != 0 && fabsl(re) != 1;
   for (const Fn* f : find_fns(g.fam, g.kind, g.n, c.prec)) { check_fn(*f, n, c, e, key, r); }
   if (g.kind == NC2C && g.fam == LI && n < -1) {
      for (const Fn* f : find_fns(g.fam, g.kind, g.n, c.prec)) { check_overflow(*f, n, c, e, kfactor(key), r); }
   }
}

static Case gen_c01(Rng& g)
{
   static const int t[][2] = { {2, 24}, {2, 53}, {2, 64}, {3, 53}, {4, 53}, {4, 53} };
   const int* q = t[g.below(6)];
   Case c = make({ LI, R2R, q[0] }, q[1]);
   c.x.push_back(gen::li_real(g, q[1]));
   return c;
}
static Case gen_c02(Rng& g)
{
   const int n = (int)g.range(2, 6), p = n == 2 && g.below(2) ? 24 : 53;
   Case c = make({ LI, C2C, n }, p);
   c.x.resize(2);
   gen::li_cplx(g, p, c.x[0], c.x[1]);
   return c;
}
static Case gen_c03(Rng& g)
{
   const int n = (int)g.range(2, 6);
   Case c = make({ LI, C2C, n }, 64);
   c.x.resize(2);
   gen::li_cplx(g, 64, c.x[0], c.x[1]);
   return c;
}
static Case gen_c04(Rng& g)
{
   Case c = make({ LI, NC2C, 0 }, 53);
   c.n.push_back(gen::order_pos(g));
   c.x.resize(2);
   gen::li_cplx(g, 53, c.x[0], c.x[1]);
   return c;
}
static Case gen_c05(Rng& g)
{
   Case c = make({ LI, NC2C, 0 }, 53);
   c.n.push_back(gen::order_neg(g));
   c.x.resize(2);
   if (g.below(20) == 0) {
      // below -300: the values are representable for tiny and huge arguments only
      const int64_t m = g.below(3) ? g.range(300, 1000) : g.range(300, 2700);
      const LD lo = expl((lgammal(m + 1) - 712)/(m + 1));
      if (lo < 744) {
         const LD l = g.coin() ? lo*(1 + 0.05L*g.unit()) : lo + (744 - lo)*g.unit(), a = g.coin() && l < 709 ? expl(l) : expl(-l);
         const LD t = g.below(4) == 0 ? 0 : g.coin() ? 3.15L*gen::sym(g) : ldexpl(gen::sym(g), -(int)g.range(1, 60));
         c.n.back() = -m;
         c.x[0] = round_to(53, (g.coin() ? 1 : -1)*a*cosl(t));
         c.x[1] = t == 0 ? 0 : round_to(53, a*sinl(t));
         return c;
      }
   }
   if (g.below(20) == 0) { c.n.back() = -g.range(150, 2500); } // overflows at most arguments
   gen::li_cplx(g, 53, c.x[0], c.x[1]);
   return c;
}
static Case gen_c06(Rng& g)
{
   Case c = make({ CL, R2R, (int)g.range(1, 6) }, 53);
   c.x.push_back(gen::cl_real(g, 53));
   return c;
}
static Case gen_c07(Rng& g)
{
   Case c = make({ CL, R2R, (int)g.range(2, 6) }, 64);
   c.x.push_back(gen::cl_real(g, 64));
   return c;
}
static Case gen_c08(Rng& g)
{
   Case c = make({ CL, NR2R, 0 }, 53);
   c.n.push_back(gen::order_pos(g));
   c.x.push_back(gen::cl_real(g, 53));
   return c;
}
static Case gen_c09(Rng& g)
{
   Case c = make({ SL, NR2R, 0 }, 53);
   c.n.push_back(gen::order_pos(g));
   c.x.push_back(gen::cl_real(g, 53));
   return c;
}

// C22: all of the above, for builds with other compilers, flags and rounding modes

static Case gen_c22(Rng& g)
{
   switch (g.below(10)) {
      case 0: return gen_c01(g);
      case 1: return gen_c02(g);
      case 2: return gen_c03(g);
      case 3: case 4: return gen_c04(g);
      case 5: if (g.below(4) == 0) { return gen_c05(g); } return gen_c02(g);
      case 6: return gen_c06(g);
      case 7: return gen_c07(g);
      case 8: return gen_c08(g);
      default: return gen_c09(g);
   }
}

/// arguments of moderate size
static bool moderate(const Case& c)
{
   const LD m = c.prec == 24 ? 1e9L : 1e60L;
   for (LD v : c.x) { if (!(fabsl(v) < m) || (v != 0 && fabsl(v) < 1/m)) { return false; } }
   return c.sub.find("LI:") == 0 || fabsl(c.x[0]) < 1000;
}
/// -ffast-math: no infinities, NaNs, signed zeros, subnormal numbers
static bool fast_domain(const Case& c)
{
   for (LD v : c.x) { if (v == 0) { return false; } } // (no real axis)
   if (!c.n.empty() && (c.n[0] < -10 || c.n[0] > 200)) { return false; }
   return c.sub.find("LI:") != 0 || hypotl(c.x[0] - 1, c.x.size() > 1 ? c.x[1] : 0) > 1e-3L;
}

// VERIF_VARIANT: fast (-ffast-math), x87 (excess precision), up, down, zero
// (rounding modes), flush (subnormal numbers flushed to zero): in these a reduced domain
static void check_c22(const Case& c, Report& r)
{
   static const std::string var = getenv("VERIF_VARIANT") ? getenv("VERIF_VARIANT") : "";
   rounding_mode() = var == "up" ? FE_UPWARD : var == "down" ? FE_DOWNWARD : var == "zero" ? FE_TOWARDZERO : FE_TONEAREST;
   flush_mode() = var == "flush";
   if (!var.empty() && !flush_mode() && !moderate(c)) { return; }
   for (LD v : c.x) { // squares and ratios are normal numbers
      const LD m = c.prec == 24 ? 0x1p55L : 0x1p500L;
      if (flush_mode() && v != 0 && !(fabsl(v) > 1/m && fabsl(v) < m)) { return; }
   }
   if (flush_mode() && !c.n.empty() && (c.n[0] < -50 || c.n[0] > 150)) { return; } // (tables with subnormal numbers)
   if (var == "fast") {
      if (!fast_domain(c)) { return; }
      scale_floor = 1; // 1 + x - 1 is simplified
   }
   else if (rounding_mode() != FE_TONEAREST) { scale_floor = 1; } // (1 + x) - 1 is not 0 for tiny x
   if (rounding_mode() != FE_TONEAREST && c.sub.find("LI:") == 0 && !c.n.empty()) {
      if (c.n[0] < -50 || c.n[0] > 200) { return; } // values near the limit of overflow: the largest number instead of infinity
      if (c.n[0] < 0 && hypotl(c.x[0] - 1, c.x.size() > 1 ? c.x[1] : 0) < 1e-2L) { return; } // ln z near the pole
   }
   // the rounding errors of the long sums of the general functions add up
   extra_scale = rounding_mode() != FE_TONEAREST && !c.n.empty() ? 250 : 1;
   check_group(c, r);
   extra_scale = 1;
}

const std::vector<Prop>& acc_props()
{
   static const std::vector<Prop> v = {
      { "C01", gen_c01, check_group, "" }, { "C02", gen_c02, check_group, "" }, { "C03", gen_c03, check_group, "" },
      { "C04", gen_c04, check_group, "" }, { "C05", gen_c05, check_group, "" }, { "C06", gen_c06, check_group, "" },
      { "C07", gen_c07, check_group, "" }, { "C08", gen_c08, check_group, "" }, { "C09", gen_c09, check_group, "" },
      { "C22", gen_c22, check_c22, "" },
   };
   return v;
}
