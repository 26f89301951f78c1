// Metamorphic properties: symmetries, conventions, functional equations and
// agreement between implementations.  The library is compared with itself;
// the reference supplies only the condition numbers (scales) for tolerances.
#include "meta.hpp"

using namespace acc;
using namespace meta;
using ref::C;

namespace {

// ---- C10: parity and periodicity of Clausen functions ----------------------

Case gen_c10(Rng& g)
{
   Case c;
   const Group gr = clausen(g, c.prec);
   static const char* w[] = { "PAR", "PER", "PER", "REFL" };
   c.sub = make_sub(w[g.below(4)], gr);
   add_order(g, gr, c);
   const int64_t k = g.below(4) ? g.range(-4, 4) : g.range(-100000, 100000);
   c.n.push_back(k);
   c.x.push_back(gen::cl_real(g, c.prec));
   return c;
}

void check_c10(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c), k = c.n.back();
   const bool odd = odd_function(s.g.fam, n);
   const LD x = c.x[0];
   r.label = c.sub;
   if (!std::isfinite(x)) { return; }
   r.nontrivial = x != 0;
   const std::string key = key_at(c, s.g, n, x);
   if (s.what == "PAR") {
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
         const Val a = call(*f, n, x), b = call(*f, n, -x);
         const std::string m = std::string(f->name) + ": f(x) = " + show(a.re) + ", f(-x) = " + show(b.re);
         if (!std::isfinite(a.re) || !std::isfinite(b.re)) {
            const LD e = odd ? -a.re : a.re;
            if (!(std::isnan(a.re) && std::isnan(b.re)) && e != b.re) { r.fail(m); }
            continue;
         }
         if (b.re != (odd ? -a.re : a.re)) { r.fail(m); }
      }
      return;
   }
   // y = x + 2 pi k (PER) or 2 pi k - x (REFL), x reduced such that the
   // relation is exact up to the rounding of x and y
   const Q t = s.what == "PER" ? Q(x) + 2*QPI*Q(k) : 2*QPI*Q(k) - Q(x);
   const LD y = round_to(c.prec, (LD)t);
   if (!std::isfinite(y)) { return; }
   const Expect ex = expect_cl(s.g.fam == SL, n, x, c.prec), ey = expect_cl(s.g.fam == SL, n, y, c.prec);
   const Q scale = ex.scale + ey.scale;
   if (ex.singular || ey.singular || !(scale < 1e30Q)) { r.nontrivial = false; return; }
   // largest variation of f for arguments of this size
   const Q big = fabsq(x) > fabsq(y) ? fabsq(x) : fabsq(y);
   const Q rel = big*eps_of(c.prec);
   if (rel > 0.01Q) { r.nontrivial = false; return; }
   const Expect el = expect_cl(s.g.fam == SL, n, fabsq(x) > fabsq(y) ? x : y, c.prec);
   // the smaller of both is shifted by up to rel
   auto fun = [&] (Q v) { return s.g.fam == SL ? ref::sl(n, v, 1e-22Q) : ref::cl(n, v, 1e-22Q); };
   const Q xs = fabsq(x) > fabsq(y) ? Q(y) : Q(x), f0 = fun(xs);
   Q var = fabsq(fun(xs + rel) - f0);
   { const Q v2 = fabsq(fun(xs - rel) - f0); if (v2 > var) { var = v2; } }
   (void)el;
   if (n == 1 && s.g.fam == SL) { if (fabsq(remainderq(xs, 2*QPI)) < 4*rel) { r.nontrivial = false; return; } }
   if (n == 1 && s.g.fam == CL) { if (fabsq(remainderq(xs, 2*QPI)) < 64*rel) { r.nontrivial = false; return; } }
   const bool flip = s.what == "REFL" && odd;
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
      const Val a = call(*f, n, x), b = call(*f, n, y);
      const std::string m = std::string(f->name) + ": f(" + show(x) + ") = " + show(a.re) + ", f(" + show(y) + ") = " + show(b.re);
      if (!std::isfinite(a.re) || !std::isfinite(b.re)) { r.fail(m); continue; }
      metric(r, key, fabsq(Q(b.re) - (flip ? -Q(a.re) : Q(a.re))), eps_of(c.prec)*scale + var, m);
   }
}

// ---- C11: branch cut -------------------------------------------------------

/// argument > 1
LD cut_real(Rng& g, int p)
{
   LD v;
   switch (g.below(6)) {
      case 0: v = 1 + ldexpl(1 + g.unit(), -(int)g.range(1, p - 1)); break;
      case 1: v = 1 + 3*g.unit(); break;
      case 2: v = gen::pow2(g, 0, p == 24 ? 126 : 1020); break;
      case 3: v = fabsl(gen::li_real(g, p)); break;
      case 4: v = 1 + 0.25L*g.range(1, 40); break;
      default: v = gen::pow2(g, 0, 8); break;
   }
   v = gen::clamp(p, v);
   if (!(v > 1)) { v = ulp_step(p, 1, (int)g.range(1, 4)); }
   return v;
}

Case gen_c11(Rng& g)
{
   Case c;
   const Group gr = li_c2c(g, c.prec);
   const bool on = g.below(3) == 0;
   c.sub = make_sub(on ? "CUTON" : "CUTOFF", gr);
   add_order(g, gr, c);
   const LD x = cut_real(g, c.prec);
   c.x.push_back(x);
   if (!on) {
      LD y;
      const LD d = x - 1;
      switch (g.below(4)) {
         case 0: y = denorm_of(c.prec)*g.range(1, 4); break;
         case 1: y = ldexpl(d < 1 ? d : 1, -(int)g.range(20, 3*c.prec)); break;
         case 2: y = ldexpl(1, -(int)g.range(c.prec, c.prec == 24 ? 149 : c.prec == 53 ? 1074 : 16440)); break;
         default: y = ldexpl(x, -(int)g.range(20, 3*c.prec)); break;
      }
      y = round_to(c.prec, y);
      if (y == 0) { y = denorm_of(c.prec); }
      c.x.push_back(g.coin() ? y : -y);
   }
   return c;
}

/// pi ln^(n-1)(x)/(n-1)!
Q cut_im(int64_t n, LD x)
{
   if (n <= 0) { return 0; }
   const Q l = ref::logabs(C(Q(x), 0));
   Q p = QPI;
   for (int64_t k = 1; k < n && p != 0 && k < 4000; ++k) { p *= l/Q(k); if (p < 1e-4930Q) { p = 0; } }
   return n > 4000 ? Q(0) : p;
}

void check_c11(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const LD x = c.x[0];
   r.label = c.sub;
   if (!(x > 1) || !std::isfinite(x)) { return; }
   std::string key = s.what == "CUTON" ? key_of(c, s.g, n) : key_at(c, s.g, n, x, c.x[1]);
   if (s.what == "CUTON" && n > 3) { key += x < 1.39L ? "/near" : x < 2.7L ? "/mid" : "/far"; }
   const Q im = cut_im(n, x);
   const LD mx = max_of(c.prec);
   r.nontrivial = true;
   if (s.what == "CUTON") {
      // the first orders are given by explicit formulas; the imaginary part is fully accurate close to 1, too
      const bool rel = n <= 3 || x < (s.g.kind == NC2C ? 1.39L : 2.7L);
      const Q unit = (rel ? (n > 8 ? Q(n)/8 : Q(1))*im : expect_li(n, x, 0, c.prec).scale)*eps_of(c.prec) + 4*denorm_of(c.prec);
      // the code may drop an imaginary part that underflows
      const bool tiny = im < 4*denorm_of(c.prec)/eps_of(c.prec);
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
         const Val a = call(*f, n, x, 0.0L), b = call(*f, n, x, -0.0L);
         const std::string m = std::string(f->name) + ": f(x+0i) = " + show2(a) + ", f(x-0i) = " + show2(b) + ", expected Im = " + showq(-im);
         if (n > 0) {
            if (a.re != b.re || a.im != b.im) { if (!(std::isnan(a.re) && std::isnan(b.re))) { r.fail("differs for x+0i and x-0i: " + m); } }
            if (!std::isfinite(a.im)) { if (im < mx/16) { r.fail(m); } continue; }
            if (!tiny || a.im != 0) { metric(r, key, fabsq(Q(a.im) + im), unit, m); }
         } else if (a.im != 0 || b.im != 0) {
            if (finite2(a) && finite2(b)) { r.fail("no imaginary part expected: " + m); }
         }
      }
      return;
   }
   const LD y = c.x[1];
   if (y == 0 || !std::isfinite(y) || fabsl(y) > (x - 1)*ldexpl(1, -18)) { r.nontrivial = false; return; }
   const Expect e = expect_li(n, x, y, c.prec);
   if (e.singular || !(e.scale < mx/16)) { r.nontrivial = false; return; }
   const Q slack = 4*Q(fabsl(y))/(Q(x) - 1)*(e.scale + 1) + 64*Q(denorm_of(c.prec));
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
      const Val v = call(*f, n, x, y), w = call(*f, n, x, -0.0L);
      const std::string m = std::string(f->name) + ": f = " + show2(v) + ", on the cut " + show2(w) + ", expected |Im| ~ " + showq(im);
      if (!finite2(v) || !finite2(w)) { r.fail(m); continue; }
      const Q want = y > 0 ? im : -im;
      Q d = fabsq(Q(v.im) - want);
      const Q dr = fabsq(Q(v.re) - Q(w.re));
      if (dr > d) { d = dr; }
      metric(r, key, d - slack, eps_of(c.prec)*e.scale, m);
   }
}

// ---- C12: conjugation -------------------------------------------------------

Case gen_c12(Rng& g)
{
   Case c;
   const Group gr = li_c2c(g, c.prec);
   c.sub = make_sub("CONJ", gr);
   add_order(g, gr, c);
   c.x.resize(2);
   gen::li_cplx(g, c.prec, c.x[0], c.x[1]);
   return c;
}

void check_c12(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const LD x = c.x[0], y = c.x[1];
   r.label = c.sub;
   if (!std::isfinite(x) || !std::isfinite(y)) { return; }
   if (y == 0) { return; } // C11, C13
   r.nontrivial = true;
   const std::string key = key_of(c, s.g, n);
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
      const Val a = call(*f, n, x, y), b = call(*f, n, x, -y);
      const std::string m = std::string(f->name) + ": f(z) = " + show2(a) + ", f(conj z) = " + show2(b);
      if (!finite2(a) || !finite2(b)) {
         if (finite2(a) != finite2(b)) { r.fail(m); }
         continue;
      }
      if (!general(s.g) || n >= 0) { if (a.re != b.re || a.im != -b.im) { r.fail(m); } continue; }
      const Q unit = eps_of(c.prec)*ref::abs(cq(a)) + denorm_of(c.prec);
      metric(r, key, ref::abs(ref::conj(cq(b)) - cq(a)), unit, m);
   }
}

// ---- C13: signed zeros and the real axis ------------------------------------

Case gen_c13(Rng& g)
{
   Case c;
   switch (g.below(4)) {
      case 0: { // f(+-0)
         Group gr;
         switch (g.below(3)) {
            case 0: gr = li_c2c(g, c.prec); break;
            case 1: gr = li_r2r(g, c.prec); break;
            default: gr = clausen(g, c.prec); break;
         }
         c.sub = make_sub("ZERO", gr);
         add_order(g, gr, c);
         c.x.push_back(g.coin() ? 0.0L : -0.0L);
         if (gr.kind == C2C || gr.kind == NC2C) { c.x.push_back(g.coin() ? 0.0L : -0.0L); }
         break;
      }
      case 1: { // Re of the complex function = real function
         const Group gr = li_r2r(g, c.prec);
         c.sub = make_sub("REALFN", gr);
         c.x.push_back(gen::li_real(g, c.prec));
         c.x.push_back(g.coin() ? 0.0L : -0.0L);
         break;
      }
      default: { // Im = 0 on the real axis
         const Group gr = li_c2c(g, c.prec);
         c.sub = make_sub("REAL", gr);
         add_order(g, gr, c);
         LD x = gen::li_real(g, c.prec);
         if (x > 1) { x = -x; }
         if (general(gr) && g.below(8) == 0) { x = g.coin() ? 1 : -1; }
         c.x.push_back(x);
         c.x.push_back(g.coin() ? 0.0L : -0.0L);
         break;
      }
   }
   return c;
}

void check_c13(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const bool cplx = s.g.kind == C2C || s.g.kind == NC2C;
   const LD x = c.x[0], y = c.x.size() > 1 ? c.x[1] : 0;
   r.label = c.sub;
   if (!std::isfinite(x) || y != 0) { return; }
   const std::string key = key_at(c, s.g, n, x, y);
   if (s.what == "ZERO") {
      if (x != 0) { return; }
      r.nontrivial = neg(x) || neg(y);
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
         const Val a = call(*f, n, x, y);
         const std::string m = std::string(f->name) + ": f(" + show(x) + (cplx ? ", " + show(y) : "") + ") = " + show2(a);
         if (s.g.fam == LI) {
            if (a.re != 0 || neg(a.re) != neg(x) || (cplx && (a.im != 0 || neg(a.im) != neg(y)))) { r.fail(m); }
         } else if (odd_function(s.g.fam, n)) {
            if (a.re != 0 || neg(a.re) != neg(x)) { r.fail(m); }
         }
      }
      return;
   }
   if (s.what == "REALFN") {
      r.nontrivial = x != 0;
      const Expect e = expect_li(n, x, 0, c.prec);
      for (const Fn* f : find_fns(LI, R2R, s.g.n, c.prec)) {
         for (const Fn* h : find_fns(LI, C2C, s.g.n, c.prec)) {
            const Val a = call(*f, n, x), b = call(*h, n, x, y);
            metric(r, key, fabsq(Q(a.re) - Q(b.re)), eps_of(c.prec)*e.scale + denorm_of(c.prec), std::string(f->name) + " = " + show(a.re) + ", " + h->name + " = " + show2(b));
         }
      }
      return;
   }
   if (x > 1 || (x == 1 && n <= 1)) { return; }
   r.nontrivial = x != 0;
   const Expect e = expect_li(n, x, y, c.prec);
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
      const Val a = call(*f, n, x, y);
      const std::string m = std::string(f->name) + " on the real axis: " + show2(a);
      if (!finite2(a)) { if (e.scale < max_of(c.prec)/16) { r.fail(m); } continue; }
      if (!general(s.g) && a.im != 0) { r.fail(m); }
      // where a real function exists the imaginary zero is passed through
      if (!general(s.g) && !find_fns(LI, R2R, s.g.n, c.prec).empty() && neg(a.im) != neg(y)) { r.fail("sign of the zero imaginary part: " + m); }
      // likewise for general order at 1 and -1
      if (general(s.g) && n >= 1 && (x == 1 || x == -1) && (a.im != 0 || neg(a.im) != neg(y))) { r.fail("sign of the zero imaginary part: " + m); }
      metric(r, key, fabsq(Q(a.im)), eps_of(c.prec)*e.scale + denorm_of(c.prec), m);
   }
}

// ---- C14: NaN and infinity ------------------------------------------------

Case gen_c14(Rng& g)
{
   Case c;
   Group gr;
   switch (g.below(3)) {
      case 0: gr = li_c2c(g, c.prec); break;
      case 1: gr = li_r2r(g, c.prec); break;
      default: gr = clausen(g, c.prec); break;
   }
   c.sub = make_sub("NONFIN", gr);
   add_order(g, gr, c);
   if (general(gr) && g.below(6) == 0) { c.n[0] = g.coin() ? -(int64_t)(g.next() >> 1) : (int64_t)(g.next() >> 1); }
   const bool cplx = gr.kind == C2C || gr.kind == NC2C;
   if (g.below(3) == 0) {
      // finite argument
      c.sub = make_sub("FINITE", gr);
      if (gr.kind == NC2C && g.below(4) == 0) { c.n[0] = gen::order_far(g); }
      if (gr.fam != LI) { c.x.push_back(gen::cl_real(g, c.prec)); }
      else if (!cplx) { c.x.push_back(gen::li_real(g, c.prec)); }
      else if (g.coin()) { c.x.resize(2); gen::li_cplx(g, c.prec, c.x[0], c.x[1]); }
      else { // corners: simple numbers, extreme magnitudes, neighbours of 1
         if (gr.kind == NC2C && g.coin()) { c.n[0] = g.range(-8, 8); }
         for (int i = 0; i < 2; ++i) {
            switch (g.below(4)) {
               case 0: c.x.push_back((LD)g.range(-2, 2)); break;
               case 1: c.x.push_back(gen::special(g, c.prec)); break;
               case 2: c.x.push_back(gen::any_exp(g, c.prec)); break;
               default: c.x.push_back(ulp_step(c.prec, (LD)g.range(-2, 2), (int)g.range(-2, 2))); break;
            }
         }
      }
      return c;
   }
   const LD bad[] = { NAN, INFINITY, -INFINITY, -(LD)NAN };
   const int k = (int)g.below(4);
   if (!cplx) { c.x.push_back(g.below(8) == 0 && gr.kind == NR2R ? gen::cl_real(g, c.prec) : bad[k]); if (c.n.size() && std::isfinite(c.x[0])) { c.n[0] = g.coin() ? -(int64_t)(g.next() >> 1) : -g.range(0, 10); } return c; }
   LD f = g.below(4) == 0 ? bad[g.below(4)] : g.coin() ? gen::li_real(g, c.prec) : 0.0L*gen::sgn(g);
   c.x.push_back(bad[k]);
   c.x.push_back(f);
   if (g.coin()) { std::swap(c.x[0], c.x[1]); }
   return c;
}

void check_c14(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const bool cplx = s.g.kind == C2C || s.g.kind == NC2C;
   const LD x = c.x[0], y = c.x.size() > 1 ? c.x[1] : 0;
   const bool nan = std::isnan(x) || std::isnan(y), inf = std::isinf(x) || std::isinf(y);
   r.label = c.sub + (nan ? "/nan" : inf ? "/inf" : "/order");
   r.nontrivial = true;
   if (s.what == "FINITE") {
      if (nan || inf || (s.g.fam != LI && n < 1)) { r.nontrivial = false; return; }
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
         const Val a = call(*f, n, x, y);
         if (std::isnan(a.re) || (cplx && std::isnan(a.im))) { r.fail(fmt("%s, order %lld, argument (%s, %s): ", f->name, (long long)n, show(x).c_str(), show(y).c_str()) + show2(a)); }
      }
      return;
   }
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
      const Val a = call(*f, n, x, y);
      const std::string m = std::string(f->name) + ": " + show2(a);
      if (!cplx) {
         if (s.g.fam == LI) {
            if (nan ? !std::isnan(a.re) : inf && std::isfinite(a.re)) { r.fail(m); }
            if (inf && a.re > 0) { r.fail(m); }
         } else {
            // Clausen-type: no value at infinity, none for orders < 1
            // (Sl_n is a polynomial on [0, 2 pi])
            if ((nan || inf || (general(s.g) && n < 1)) && !std::isnan(a.re)) { r.fail(m); }
         }
      } else if (general(s.g)) {
         if (nan) { if (!std::isnan(a.re) || !std::isnan(a.im)) { r.fail(m); } }
         else if (inf) { if (a.re != -INFINITY || a.im != 0) { r.fail(m); } }
      } else {
         if (nan && !(std::isnan(a.re) || std::isnan(a.im))) { r.fail(m); }
         if (inf && finite2(a)) { r.fail(m); }
      }
   }
}

// ---- C15: agreement of the languages ----------------------------------------

Case gen_c15(Rng& g)
{
   Case c;
   Group gr;
   do {
      switch (g.below(4)) {
         case 0: gr = li_r2r(g, c.prec); break;
         case 1: gr = { CL, R2R, (int)g.range(2, 6) }; c.prec = g.below(3) ? 53 : 64; break;
         default: gr = li_c2c(g, c.prec); break;
      }
   } while (general(gr));
   c.sub = make_sub("LANG", gr);
   if (gr.fam == CL) { c.x.push_back(gen::cl_real(g, c.prec)); }
   else if (gr.kind == R2R) { c.x.push_back(gen::li_real(g, c.prec)); }
   else { c.x.resize(2); gen::li_cplx(g, c.prec, c.x[0], c.x[1]); }
   return c;
}

void check_c15(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const LD x = c.x[0], y = c.x.size() > 1 ? c.x[1] : 0;
   r.label = c.sub;
   const std::vector<const Fn*> fs = find_fns(s.g.fam, s.g.kind, s.g.n, c.prec);
   if (fs.size() < 2 || !std::isfinite(x) || !std::isfinite(y)) { return; }
   r.nontrivial = x != 0;
   const Expect e = s.g.fam == CL ? expect_cl(false, s.g.n, x, c.prec) : expect_li(s.g.n, x, y, c.prec);
   if (!(e.scale < 1e4000Q)) { r.nontrivial = false; }
   const std::string key = key_at(c, s.g, s.g.n, x, y);
   const Val a = call(*fs[0], s.g.n, x, y);
   for (size_t i = 1; i < fs.size(); ++i) {
      const Val b = call(*fs[i], s.g.n, x, y);
      const std::string m = std::string(fs[0]->name) + " = " + show2(a) + ", " + fs[i]->name + " = " + show2(b);
      if (!finite2(a) || !finite2(b)) { if (finite2(a) != finite2(b)) { r.fail(m); } continue; }
      if (y == 0 && a.re == 0 && b.re == 0 && neg(a.re) != neg(b.re)) { r.fail("sign of zero: " + m); }
      // (the imaginary zero is passed through where a real function exists)
      if (y == 0 && !find_fns(LI, R2R, s.g.n, c.prec).empty() && a.im == 0 && b.im == 0 && neg(a.im) != neg(b.im)) { r.fail("sign of zero: " + m); }
      if (e.singular || !(e.scale < 1e4000Q)) { continue; }
      metric(r, key, ref::abs(cq(a) - cq(b)), eps_of(c.prec)*e.scale + 4*denorm_of(c.prec), m);
   }
}

// ---- C16: agreement of the precisions -----------------------------------------

Case gen_c16(Rng& g)
{
   Case c;
   Group gr;
   switch (g.below(4)) {
      case 0: gr = { LI, R2R, 2 }; c.prec = g.coin() ? 24 : 53; break;
      case 1: gr = { CL, R2R, (int)g.range(2, 6) }; c.prec = 53; break;
      default: gr = { LI, C2C, (int)g.range(2, 6) }; c.prec = gr.n == 2 && g.coin() ? 24 : 53; break;
   }
   c.sub = make_sub("PREC", gr);
   if (gr.fam == CL) { c.x.push_back(gen::cl_real(g, c.prec)); }
   else if (gr.kind == R2R) { c.x.push_back(gen::li_real(g, c.prec)); }
   else { c.x.resize(2); gen::li_cplx(g, c.prec, c.x[0], c.x[1]); }
   return c;
}

void check_c16(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const LD x = c.x[0], y = c.x.size() > 1 ? c.x[1] : 0;
   r.label = c.sub;
   if (!std::isfinite(x) || !std::isfinite(y)) { return; }
   r.nontrivial = x != 0;
   const Expect e = s.g.fam == CL ? expect_cl(false, s.g.n, x, c.prec) : expect_li(s.g.n, x, y, c.prec);
   if (e.singular) { r.nontrivial = false; return; }
   for (int hp = c.prec == 24 ? 53 : 64; hp <= 64; hp += 11) {
      const std::string key = key_at(c, s.g, s.g.n, x, y) + "-" + std::to_string(hp);
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
         for (const Fn* h : find_fns(s.g.fam, s.g.kind, s.g.n, hp)) {
            if (f->lang != h->lang && !(f->lang == FORT && h->lang == CPP)) { continue; }
            const Val a = call(*f, s.g.n, x, y), b = call(*h, s.g.n, x, y);
            const std::string m = std::string(f->name) + " = " + show2(a) + ", " + h->name + " = " + show2(b);
            if (!finite2(a) || !finite2(b)) {
               if (finite2(a) != finite2(b) && ref::abs(cq(b)) < max_of(c.prec)) { r.fail(m); }
               continue;
            }
            metric(r, key, ref::abs(cq(a) - cq(b)), eps_of(c.prec)*e.scale + 4*denorm_of(c.prec), m);
         }
      }
   }
}

// ---- C17: functional equations --------------------------------------------------

/// value of the library in group (fixed order n, or general order)
struct LiFn {
   const Fn* f;
   int64_t n;
   C operator()(LD re, LD im) const { return cq(call(*f, n, re, im)); }
};

/// round a reference number to the precision
void rnd(int p, const C& z, LD& re, LD& im) { re = round_to(p, (LD)z.re); im = round_to(p, (LD)z.im); }

Case gen_c17(Rng& g)
{
   Case c;
   static const char* w[] = { "INV", "DUP", "TRIP", "DUP", "INV", "REFL2", "LANDEN2", "TRI3", "ABEL2", "CLDUP", "CLLI", "DUPREAL" };
   const std::string what = w[g.below(12)];
   Group gr;
   if (what == "CLDUP") {
      gr = clausen(g, c.prec);
      c.sub = make_sub(what.c_str(), gr);
      add_order(g, gr, c);
      c.x.push_back(gen::cl_real(g, c.prec));
      return c;
   }
   if (what == "CLLI") {
      if (g.coin()) { gr = { g.coin() ? CL : SL, NR2R, 0 }; c.prec = 53; }
      else { gr = { CL, R2R, (int)g.range(2, 6) }; c.prec = g.coin() ? 53 : 64; }
      c.sub = make_sub(what.c_str(), gr);
      if (general(gr)) { c.n.push_back(g.below(3) ? g.range(2, 30) : gen::order_pos(g)); }
      c.x.push_back(gen::PIL*gen::sym(g)*(g.below(4) ? 1 : ldexpl(1, -(int)g.range(0, 40))));
      c.x[0] = round_to(c.prec, c.x[0]);
      return c;
   }
   if (what == "DUPREAL") {
      gr = li_r2r(g, c.prec);
      c.sub = make_sub(what.c_str(), gr);
      // few bits: x^2 is exact
      c.x.push_back(round_to(c.prec == 24 ? 11 : c.prec == 53 ? 24 : 24, gen::li_real(g, 24)));
      if (c.prec == 24) { c.x[0] = ldexpl(roundl(ldexpl(c.x[0], 8)), -8); }
      return c;
   }
   if (what.back() == '2' || what.back() == '3') {
      const int n = what.back() - '0';
      if (g.coin()) {
         gr = { LI, R2R, n };
         c.prec = n == 2 ? (g.below(3) == 0 ? 24 : g.coin() ? 53 : 64) : 53;
         c.sub = make_sub(what.c_str(), gr);
         c.x.push_back(gen::li_real(g, c.prec));
         if (what == "ABEL2") { c.x[0] = round_to(c.prec, gen::sym(g)); c.x.push_back(round_to(c.prec, gen::sym(g))); }
      } else {
         gr = { LI, C2C, n };
         c.prec = n == 2 && g.below(4) == 0 ? 24 : g.coin() ? 53 : 64;
         c.sub = make_sub(what.c_str(), gr);
         c.x.resize(2);
         gen::li_cplx(g, c.prec, c.x[0], c.x[1]);
         if (what == "ABEL2") {
            for (int i = 0; i < 2; ++i) { // |x|, |y| < 1/2
               const LD m = 0.5L*g.unit(), t = gen::PIL*gen::sym(g);
               c.x.resize(2*i);
               c.x.push_back(round_to(c.prec, m*cosl(t)));
               c.x.push_back(round_to(c.prec, m*sinl(t)));
            }
         }
      }
      return c;
   }
   gr = li_c2c(g, c.prec);
   c.sub = make_sub(what.c_str(), gr);
   if (gr.kind == NC2C) { c.n.push_back(g.below(3) ? g.range(-30, 40) : what == "INV" ? -g.range(-60, 60) : g.coin() ? gen::order_pos(g) : -g.range(0, 60)); }
   c.x.resize(2);
   gen::li_cplx(g, c.prec, c.x[0], c.x[1]);
   return c;
}

/// -(2 pi i)^n/n! B_n(1/2 + log(-z)/(2 pi i)), n >= 1
C inversion_rhs(int64_t n, const C& z) { return ref::inversion_rest(n, ref::plog(C(-z.re, -z.im)), 1e-33Q).v; }

bool off_cut(const C& z, Q rel) { return !(z.re > 1 - rel && fabsq(z.im) <= rel*fabsq(z.re)); }

void check_c17(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const int p = c.prec;
   const LD eps = eps_of(p);
   const bool cplx = s.g.kind == C2C || s.g.kind == NC2C;
   const LD x = c.x[0], y = cplx && c.x.size() > 1 ? c.x[1] : 0;
   r.label = c.sub;
   for (LD v : c.x) { if (!std::isfinite(v)) { return; } }
   const std::string key = key_of(c, s.g, n);
   const C z(x, y);
   struct Term { Q coeff; LD re, im; Q scale; };
   std::vector<Term> t;
   C rhs;
   Q rscale = 0, dn = denorm_of(p);
   bool imag = cplx; // compare imaginary parts too?

   auto term = [&] (Q coeff, const C& w) {
      Term k;
      k.coeff = coeff;
      rnd(p, w, k.re, k.im);
      if (!cplx) { k.im = 0; }
      k.scale = HUGE_VALQ;
      if (std::isfinite(k.re) && std::isfinite(k.im)) {
         const Expect e = expect_li(n, k.re, k.im, p);
         if (!e.singular) { k.scale = e.scale; }
      }
      if (!std::isfinite(k.re) || !std::isfinite(k.im) || ((w.re != 0 || w.im != 0) && fabsl(k.re) < min_of(p)*4 && fabsl(k.im) < min_of(p)*4)) { k.scale = HUGE_VALQ; }
      t.push_back(k);
   };
   auto lnscale = [&] (const C& l) { return 1 + ref::abs(l); };

   if (s.g.fam == LI) {
      if (x == 0 && y == 0) { return; }
      const C zi = ref::inv(z);
      if (s.what == "INV") {
         if (!off_cut(z, 1e-3Q) || !off_cut(zi, 1e-3Q)) { return; }
         term(1, z);
         term(n % 2 == 0 ? 1 : -1, zi);
         if (n >= 1) {
            rhs = inversion_rhs(n, z);
            rscale = ref::abs(rhs) + (n > 1 ? ref::abs(inversion_rhs(n - 1, z)) : Q(1));
         }
         else if (n == 0) { rhs = C(-1); rscale = 1; }
      } else if (s.what == "DUP" || s.what == "DUPREAL") {
         const C z2 = z*z;
         // for |z^2| > 1 the relation crosses the cut for Re z < 0
         if (cplx && (!off_cut(z, 1e-3Q) || !off_cut(-z, 1e-3Q) || !off_cut(z2, 1e-3Q))) { return; }
         if (!cplx && fabsq(x) > 1) { return; }
         term(1, z);
         term(1, -z);
         const Q f = n > 4000 ? Q(0) : powq(2, 1 - Q(n));
         if (f != 0 && n < 1000) { term(-f, z2); }
         if (n >= 1000) { if (ref::abs(z) > 1) { return; } }
         if (cplx && ref::abs(z) > 1 && z.re < 0 && n >= 1) { /* principal branches still add up */ }
      } else if (s.what == "TRIP") {
         if (!off_cut(z, 1e-3Q)) { return; }
         const C w(-0.5Q, sqrtq(3.0Q)/2), z3 = z*z*z;
         if (!off_cut(w*z, 1e-3Q) || !off_cut(ref::conj(w)*z, 1e-3Q) || !off_cut(z3, 1e-3Q)) { return; }
         term(1, z);
         term(1, w*z);
         term(1, ref::conj(w)*z);
         const Q f = n > 2000 ? Q(0) : powq(3, 1 - Q(n));
         if (n < 600) { term(-f, z3); } else if (ref::abs(z) > 1) { return; }
      } else if (s.what == "REFL2") {
         const C w(1 - z.re, -z.im);
         if (cplx) { if (z.im == 0) { return; } }
         else if (!(x > 0 && x < 1)) { return; }
         if (w.re == 0 && w.im == 0) { return; }
         term(1, z);
         term(1, w);
         const C l1 = ref::plog(z), l2 = ref::log1m(z);
         rhs = C(QPI*QPI/6) - l1*l2;
         rscale = lnscale(l1)*lnscale(l2);
      } else if (s.what == "LANDEN2") {
         // z/(z-1) = -z/(1-z)
         if (cplx ? !off_cut(z, 1e-3Q) || ref::abs(z) > 1e1000Q : !(x < 1)) { return; }
         const C w = ref::div(-z, C(1 - z.re, -z.im));
         if (cplx && !off_cut(w, 1e-3Q)) { return; }
         term(1, z);
         term(1, w);
         const C l = ref::log1m(z);
         rhs = -0.5Q*(l*l);
         rscale = ref::abs(l)*lnscale(l);
      } else if (s.what == "TRI3") {
         // Li3(z) + Li3(1-z) + Li3(1-1/z)
         const C a(1 - z.re, -z.im), b = ref::div(C(z.re - 1, z.im), z);
         if (cplx) {
            if (!off_cut(z, 1e-3Q) || !off_cut(a, 1e-3Q) || !off_cut(b, 1e-3Q) || !off_cut(-z, 1e-3Q)) { return; }
            if (ref::abs(z) > 1) { return; } // logs on their principal branches
         } else if (!(x > 0 && x < 1)) { return; }
         term(1, z); term(1, a); term(1, b);
         const C l = ref::plog(z), l1 = ref::log1m(z);
         rhs = C(ref::zeta(3)) + (1/6.0Q)*(l*l*l) + (QPI*QPI/6)*l - 0.5Q*(l*l*l1);
         const Q m = lnscale(l);
         rscale = m*m*(m + lnscale(l1));
      } else if (s.what == "ABEL2") {
         // Li2(x/(1-y)) + Li2(y/(1-x)) - Li2(x) - Li2(y) - Li2(xy/((1-x)(1-y))) = ln(1-x) ln(1-y)
         const C u = cplx ? C(c.x[0], c.x[1]) : C(c.x[0]), v = cplx ? C(c.x[2], c.x[3]) : C(c.x[1]);
         if (cplx ? ref::abs(u) >= 0.5Q || ref::abs(v) >= 0.5Q : !(u.re < 1 && v.re < 1 && u.re + v.re < 1)) { return; }
         if ((u.re == 0 && u.im == 0) || (v.re == 0 && v.im == 0)) { return; }
         const C a(1 - u.re, -u.im), b(1 - v.re, -v.im);
         term(1, ref::div(u, b)); term(1, ref::div(v, a)); term(-1, u); term(-1, v); term(-1, ref::div(u*v, a*b));
         const C l1 = ref::log1m(u), l2 = ref::log1m(v);
         rhs = l1*l2;
         rscale = ref::abs(l1)*ref::abs(l2);
      }
      Q scale = rscale;
      for (const Term& k : t) { scale += fabsq(k.coeff)*k.scale; dn += fabsq(k.coeff)*denorm_of(p); }
      if (!(scale < max_of(p)/64)) { return; }
      r.nontrivial = true;
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
         C sum = -rhs;
         std::string m = f->name;
         bool fin = true;
         for (const Term& k : t) {
            const Val v = call(*f, n, k.re, k.im);
            if (!finite2(v)) { fin = false; }
            sum = sum + k.coeff*cq(v);
            m += " f(" + show(k.re) + (cplx ? "," + show(k.im) : "") + ") = " + show2(v);
         }
         if (!fin) { r.fail("not finite: " + m); continue; }
         if (!imag) { sum.im = 0; }
         metric(r, key, ref::abs(sum) - 8*dn, Q(eps)*scale, m);
      }
      return;
   }

   // Clausen-type functions
   if (s.what == "CLDUP") {
      // Cl_n(2t) = 2^(n-1)(Cl_n(t) + Cl_n(t + pi)), the same for Sl_n
      if (fabsl(x) > max_of(p)/4) { return; }
      const LD a = 2*x, b = round_to(p, (LD)(Q(x) + QPI));
      const bool sl = s.g.fam == SL;
      const Expect e1 = expect_cl(sl, n, a, p), e2 = expect_cl(sl, n, x, p), e3 = expect_cl(sl, n, b, p);
      if (e1.singular || e2.singular || e3.singular || fabsq(x)*eps > 0.01Q) { return; }
      // b is rounded to a multiple of its own ulp, x may be known better
      auto fun = [&] (Q v) { return sl ? ref::sl(n, v, 1e-22Q) : ref::cl(n, v, 1e-22Q); };
      const Q db = Q(b) - (Q(x) + QPI);
      const Q f = n > 2000 ? Q(0) : powq(2, 1 - Q(n));
      const Q var = fabsq(fun(Q(b)) - fun(Q(b) - db));
      const Q scale = f*e1.scale + e2.scale + e3.scale;
      if (!(scale < 1e30Q) || (n == 1 && (fabsq(remainderq(Q(b), 2*QPI)) < 64*eps*fabsq(b) || fabsq(remainderq(Q(b), 2*QPI)) < 64*eps))) { return; }
      r.nontrivial = x != 0;
      for (const Fn* h : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
         const Val va = call(*h, n, a), vx = call(*h, n, x), vb = call(*h, n, b);
         const std::string m = std::string(h->name) + " f(2t) = " + show(va.re) + ", f(t) = " + show(vx.re) + ", f(t+pi) = " + show(vb.re);
         if (!std::isfinite(va.re) || !std::isfinite(vx.re) || !std::isfinite(vb.re)) { r.fail(m); continue; }
         metric(r, key, fabsq(f*Q(va.re) - Q(vx.re) - Q(vb.re)) - 8*Q(denorm_of(p)), Q(eps)*scale + var, m);
      }
      return;
   }
   if (s.what == "CLLI") {
      // Cl_n, Sl_n = Re, Im of Li_n(e^(it)), |t| < pi
      if (!(fabsl(x) < gen::PIL) || n < 2) { return; }
      Q sn, cs;
      sincosq(Q(x), &sn, &cs);
      LD re, im;
      rnd(p, C(cs, sn), re, im);
      if (im == 0) { return; }
      const bool sl = s.g.fam == SL;
      const bool use_im = sl ? n % 2 != 0 : n % 2 == 0;
      const Expect e1 = expect_cl(sl, n, x, p), e2 = expect_li(n, re, im, p);
      const Q scale = e1.scale + e2.scale;
      r.nontrivial = true;
      for (const Fn* h : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
         for (const Fn* f : find_fns(LI, general(s.g) ? NC2C : C2C, general(s.g) ? 0 : (int)n, p)) {
            const Val a = call(*h, n, x), b = call(*f, n, re, im);
            const std::string m = std::string(h->name) + " = " + show(a.re) + ", " + f->name + " = " + show2(b);
            if (!std::isfinite(a.re) || !finite2(b)) { r.fail(m); continue; }
            metric(r, key, fabsq(Q(a.re) - Q(use_im ? b.im : b.re)), Q(eps)*scale, m);
         }
      }
   }
}

// ---- C21: complex logarithms -----------------------------------------------------

Case gen_c21(Rng& g)
{
   Case c;
   static const int p[] = { 24, 53, 53, 64 };
   c.prec = p[g.below(4)];
   const bool l1 = g.coin();
   c.sub = make_sub(l1 ? "LOG" : "LOG", { l1 ? LOG1P : POSLOG, C2C, 1 });
   c.x.resize(2);
   gen::li_cplx(g, c.prec, c.x[0], c.x[1]);
   if (l1 && g.coin()) {
      switch (g.below(4)) {
         case 0: c.x[0] = gen::near(g, c.prec, -1); break;
         case 1: c.x[0] = ldexpl(gen::sym(g), -(int)g.range(0, 2*c.prec)); c.x[1] = ldexpl(gen::sym(g), -(int)g.range(0, 2*c.prec)); break;
         case 2: { const LD t = gen::PIL*gen::sym(g); c.x[0] = -1 + cosl(t); c.x[1] = sinl(t); break; }
         default: c.x[1] = 0; break;
      }
      for (LD& v : c.x) { v = gen::clamp(c.prec, v); }
   }
   for (LD& v : c.x) { if (fabsl(v) > max_of(c.prec)/4) { v /= 4; } }
   return c;
}

void check_c21(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const LD x = c.x[0], y = c.x[1];
   r.label = c.sub;
   if (!(fabsl(x) <= max_of(c.prec)/4) || !(fabsl(y) <= max_of(c.prec)/4)) { return; }
   const std::string key = key_of(c, s.g, 1);
   C want;
   Q scale;
   bool cut = false; // either sign of the imaginary part
   if (s.g.fam == LOG1P) {
      if (x == -1 && y == 0) { return; }
      const C u(1 + Q(x), Q(y));
      want = ref::log1m(C(-Q(x), -Q(y)));
      // z f' = z/(1+z)
      scale = ref::abs(want) + ref::abs(ref::div(C(0.5Q*Q(x), 0.5Q*Q(y)), 0.5Q*u));
      if (y == 0 && x < -1) { want.im = QPI; cut = true; }
   } else {
      if (x == 0 && y == 0) { return; }
      want = ref::plog(C(x, y));
      scale = ref::abs(want) + 1;
   }
   r.nontrivial = y != 0 || x < 0;
   for (const Fn* f : find_fns(s.g.fam, C2C, -1, c.prec)) {
      const Val v = call(*f, 1, x, y);
      const std::string m = std::string(f->name) + " = " + show2(v) + ", expected (" + showq(want.re) + ", " + showq(want.im) + ")";
      if (!finite2(v)) { r.fail(m); continue; }
      if (cut) { want.im = copysignq(QPI, v.im); }
      metric(r, key, ref::abs(cq(v) - want) - 4*Q(denorm_of(c.prec)), eps_of(c.prec)*scale, m);
   }
}

// ---- C23: general order versus fixed order -------------------------------------------

Case gen_c23(Rng& g)
{
   Case c;
   c.prec = 53;
   if (g.coin()) {
      c.sub = make_sub("FIX", { LI, C2C, (int)g.range(-1, 6) });
      c.x.resize(2);
      gen::li_cplx(g, 53, c.x[0], c.x[1]);
   } else {
      c.sub = make_sub("FIX", { CL, R2R, (int)g.range(1, 6) });
      c.x.push_back(gen::cl_real(g, 53));
   }
   return c;
}

void check_c23(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = s.g.n;
   const LD x = c.x[0], y = c.x.size() > 1 ? c.x[1] : 0;
   r.label = c.sub;
   if (!std::isfinite(x) || !std::isfinite(y)) { return; }
   const std::string key = key_at(c, s.g, n, x, y);
   r.nontrivial = x != 0;
   if (s.g.fam == LI) {
      const Expect e = expect_li(n, x, y, 53);
      if (e.singular) { r.nontrivial = false; return; }
      for (const Fn* f : find_fns(LI, NC2C, 0, 53)) {
         const Val a = call(*f, n, x, y);
         if (n <= 1) { // closed forms
            C w;
            const C z(x, y), d(1 - z.re, -z.im);
            if (n == 1) { w = -ref::log1m(z); }
            else if (n == 0) { w = ref::div(z, d); }
            else { w = ref::div(ref::div(z, d), d); }
            const std::string m = std::string(f->name) + " = " + show2(a) + ", closed form (" + showq(w.re) + ", " + showq(w.im) + ")";
            if (!finite2(a)) { if (ref::abs(w) < 1e290Q) { r.fail(m); } continue; }
            metric(r, key, ref::abs(cq(a) - w) - 8*Q(denorm_of(53)), eps_of(53)*e.scale, m);
            continue;
         }
         for (const Fn* h : find_fns(LI, C2C, (int)n, 53)) {
            const Val b = call(*h, n, x, y);
            const std::string m = std::string(f->name) + " = " + show2(a) + ", " + h->name + " = " + show2(b);
            if (!finite2(a) || !finite2(b)) { r.fail(m); continue; }
            if ((y == 0 && n <= 4 && a.im == 0 && b.im == 0 && neg(a.im) != neg(b.im)) || (y == 0 && a.re == 0 && b.re == 0 && neg(a.re) != neg(b.re))) { r.fail("sign of zero: " + m); }
            metric(r, key, ref::abs(cq(a) - cq(b)), eps_of(53)*e.scale + 4*denorm_of(53), m);
         }
      }
   } else {
      const Expect e = expect_cl(false, n, x, 53);
      if (e.singular || !(e.scale < 1e30Q)) { r.nontrivial = false; return; }
      for (const Fn* f : find_fns(CL, NR2R, 0, 53)) {
         for (const Fn* h : find_fns(CL, R2R, (int)n, 53)) {
            const Val a = call(*f, n, x), b = call(*h, n, x);
            const std::string m = std::string(f->name) + " = " + show(a.re) + ", " + h->name + " = " + show(b.re);
            if (!std::isfinite(a.re) || !std::isfinite(b.re)) { r.fail(m); continue; }
            metric(r, key, fabsq(Q(a.re) - Q(b.re)), eps_of(53)*e.scale + 4*denorm_of(53), m);
         }
      }
   }
}

// ---- C24: order, bounds, signs ---------------------------------------------------

Case gen_c24(Rng& g)
{
   Case c;
   switch (g.below(4)) {
      case 0: {
         const Group gr = li_r2r(g, c.prec);
         c.sub = make_sub("MONO", gr);
         LD a = gen::li_real(g, c.prec), b = g.coin() ? gen::li_real(g, c.prec) : g.coin() ? ulp_step(c.prec, a, (int)g.range(1, 8)) : round_to(c.prec, a*(1 + ldexpl(g.unit(), -(int)g.range(1, c.prec))));
         if (!std::isfinite(b)) { b = a; }
         c.x.push_back(a < b ? a : b);
         c.x.push_back(a < b ? b : a);
         break;
      }
      case 1: {
         const Group gr = li_c2c(g, c.prec);
         c.sub = make_sub("IMSIGN", gr);
         add_order(g, gr, c, true);
         c.x.resize(2);
         gen::li_cplx(g, c.prec, c.x[0], c.x[1]);
         break;
      }
      case 2: {
         const Group gr = li_c2c(g, c.prec);
         c.sub = make_sub("DISK", gr);
         add_order(g, gr, c, true);
         c.x.resize(2);
         gen::li_cplx(g, c.prec, c.x[0], c.x[1]);
         break;
      }
      default: {
         const Group gr = clausen(g, c.prec);
         c.sub = make_sub("CLBND", gr);
         add_order(g, gr, c);
         c.x.push_back(gen::cl_real(g, c.prec));
         break;
      }
   }
   return c;
}

void check_c24(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const int p = c.prec;
   const LD eps = eps_of(p);
   for (LD v : c.x) { if (!std::isfinite(v)) { return; } }
   r.label = c.sub;
   const std::string key = key_at(c, s.g, n, s.what == "MONO" ? c.x[1] : c.x[0], s.what == "MONO" || c.x.size() < 2 ? 0.0L : c.x[1]);
   if (s.what == "MONO") {
      // Li_n increases on (-inf, 1], and up to the maximum of Re Li_n above 1;
      // beyond x = 1 only the upper bound Re Li_n(x) <= max is checked elsewhere
      const LD a = c.x[0], b = c.x[1];
      if (!(a < b) || b > 1) { return; }
      r.nontrivial = true;
      const Expect ea = expect_li(n, a, 0, p), eb = expect_li(n, b, 0, p);
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
         const Val u = call(*f, n, a), v = call(*f, n, b);
         metric(r, key, Q(u.re) - Q(v.re), Q(eps)*(ea.scale + eb.scale) + 4*denorm_of(p), std::string(f->name) + " not increasing: " + show(u.re) + " > " + show(v.re));
         // x <= Li_n(x) for x >= 0, and Li_n(x) >= x for x < 0, too
         metric(r, key, Q(b) - Q(v.re), Q(eps)*eb.scale + 4*denorm_of(p), std::string(f->name) + " below x: " + show(v.re));
      }
      return;
   }
   if (s.g.fam == LI) {
      const LD x = c.x[0], y = c.x[1];
      if (s.what == "IMSIGN") {
         if (y == 0 || n < 1) { return; }
         r.nontrivial = true;
         const Expect e = expect_li(n, x, y, p);
         if (!(e.scale < max_of(p)/16)) { return; }
         for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
            const Val v = call(*f, n, x, y);
            const Q wrong = y > 0 ? -Q(v.im) : Q(v.im);
            metric(r, key, wrong, Q(eps)*e.scale + 4*denorm_of(p), std::string(f->name) + " wrong sign of Im: " + show2(v));
         }
         return;
      }
      // |Li_n(z)| <= Li_n(|z|) <= zeta(n) for |z| <= 1, and |Li_n(z) - z| <= ...
      const Q m = ref::abs(C(x, y));
      if (m > 1 || n < 2 || m == 0) { return; }
      r.nontrivial = y != 0;
      const Expect e = expect_li(n, x, y, p);
      const Q z2 = ref::zeta(n);
      // |Li_n(z) - z| <= |z|^2 (zeta(n) - 1)
      for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
         const Val v = call(*f, n, x, y);
         const std::string t = std::string(f->name) + " = " + show2(v);
         if (!finite2(v)) { r.fail(t); continue; }
         metric(r, key, ref::abs(cq(v) - C(x, y)) - m*m*(z2 - 1), Q(eps)*e.scale + 4*denorm_of(p), t + " violates |Li_n(z) - z| <= |z|^2 (zeta(n) - 1)");
      }
      return;
   }
   // Clausen-type: |f| <= zeta(n) for n >= 2; Cl_1 >= -ln 2; |Sl_1| <= pi/2
   const LD x = c.x[0];
   r.nontrivial = x != 0;
   const bool sl = s.g.fam == SL;
   Q lo, hi;
   if (n == 1 && sl) { hi = QPI/2; lo = -hi; }
   else if (n == 1) { lo = -logq(2.0Q); hi = HUGE_VALQ; }
   else {
      const bool cosine = sl ? n % 2 == 0 : n % 2 != 0;
      if (cosine) { hi = ref::zeta(n); lo = ref::neg_eta(n); } // values at 0 and pi
      else if (n == 2) { hi = 1.01494160640965362502120255427452028594Q; lo = -hi; }
      else { hi = 1 + powq(2, -Q(n < 4000 ? n : 4000)); lo = -hi; }
      if (sl && n == 3) { hi = 1.1Q; lo = -hi; }
   }
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
      const Val v = call(*f, n, x);
      const std::string m = std::string(f->name) + " = " + show(v.re) + " outside of [" + showq(lo) + ", " + showq(hi) + "]";
      if (std::isnan(v.re)) { r.fail(m); continue; }
      if (std::isinf(v.re)) { if (n == 1 && !sl && v.re > 0) { continue; } r.fail(m); continue; }
      Q d = Q(v.re) - hi;
      if (lo - Q(v.re) > d) { d = lo - Q(v.re); }
      metric(r, key, d, Q(eps)*(hi < 10 ? hi : Q(1)), m);
   }
}

} // namespace

const std::vector<Prop>& meta_props()
{
   static const std::vector<Prop> v = {
      { "C10", gen_c10, check_c10, "" }, { "C11", gen_c11, check_c11, "" }, { "C12", gen_c12, check_c12, "" },
      { "C13", gen_c13, check_c13, "" }, { "C14", gen_c14, check_c14, "" }, { "C15", gen_c15, check_c15, "" },
      { "C16", gen_c16, check_c16, "" }, { "C17", gen_c17, check_c17, "" }, { "C21", gen_c21, check_c21, "" },
      { "C23", gen_c23, check_c23, "" }, { "C24", gen_c24, check_c24, "" },
   };
   return v;
}
