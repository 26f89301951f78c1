// C25: single-precision dilogarithm, sweep over bit patterns
// C26: no spurious floating-point exceptions
// C27: z d/dz Li_n = Li_(n-1) and its real counterparts, in integral form
// C28: no jumps between neighbouring arguments
#include "meta.hpp"
#include <cfenv>

using namespace acc;
using namespace meta;
using ref::C;

namespace {

// ---- C26 ---------------------------------------------------------------------

Case gen_c26(Rng& g)
{
   Case c;
   Group gr;
   switch (g.below(6)) {
      case 0: case 1: case 2: gr = li_c2c(g, c.prec); break;
      case 3: gr = li_r2r(g, c.prec); break;
      default: gr = clausen(g, c.prec); break;
   }
   c.sub = make_sub("FPE", gr);
   add_order(g, gr, c);
   if (gr.fam != LI) { c.x.push_back(gen::cl_real(g, c.prec)); }
   else if (gr.kind == R2R) { c.x.push_back(gen::li_real(g, c.prec)); }
   else { c.x.resize(2); gen::li_cplx(g, c.prec, c.x[0], c.x[1]); }
   return c;
}

void check_c26(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const LD x = c.x[0], y = c.x.size() > 1 ? c.x[1] : 0;
   r.label = c.sub;
   if (!std::isfinite(x) || !std::isfinite(y)) { return; }
   if (s.g.fam == LI && x == 1 && y == 0) { return; } // singular
   if (s.g.fam == CL && n == 1) { // logarithmic singularity at multiples of 2 pi
      const Expect e = expect_cl(false, n, x, c.prec);
      if (e.singular || !(e.scale < 1e30Q)) { return; }
   }
   if (s.g.fam == LI && n <= 0) { // result or intermediate powers not representable
      const Expect e = expect_li(n, x, y, c.prec);
      if (e.singular || !(e.scale < max_of(c.prec)/16)) { return; }
   }
   r.nontrivial = x != 0;
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, c.prec)) {
      LD in[2] = { x, y }, out[2] = { 0, 0 }, after[2];
      feclearexcept(FE_ALL_EXCEPT);
      f->call(n, in, out, after);
      const int e = fetestexcept(FE_INVALID | FE_DIVBYZERO);
      if (e) {
         r.fail(std::string(f->name) + " raises" + (e & FE_INVALID ? " FE_INVALID" : "") + (e & FE_DIVBYZERO ? " FE_DIVBYZERO" : "") + " for a regular argument, result (" + show(out[0]) + ", " + show(out[1]) + ")");
      }
   }
   feclearexcept(FE_ALL_EXCEPT);
}

// ---- C27 ---------------------------------------------------------------------

// 16-point Gauss-Legendre rule on [-1,1], nodes by Newton iteration
struct Gauss {
   enum { N = 16 };
   Q t[N], w[N];
   Gauss()
   {
      for (int i = 0; i < N; ++i) {
         Q x = cosq(ref::PI*(i + 0.75Q)/(N + 0.5Q)), d = 1;
         for (int k = 0; k < 100; ++k) {
            Q p0 = 1, p1 = x;
            for (int j = 2; j <= N; ++j) { const Q p2 = ((2*j - 1)*x*p1 - (j - 1)*p0)/j; p0 = p1; p1 = p2; }
            d = N*(x*p1 - p0)/(x*x - 1);
            const Q dx = p1/d;
            x -= dx;
            if (fabsq(dx) < 1e-33Q) { break; }
         }
         t[i] = x;
         w[i] = 2/((1 - x*x)*d*d);
      }
   }
};
const Gauss& gauss() { static const Gauss g; return g; }

Case gen_c27(Rng& g)
{
   Case c;
   Group gr;
   switch (g.below(6)) {
      case 0: case 1: case 2: gr = li_c2c(g, c.prec); break;
      case 3: gr = li_r2r(g, c.prec); break;
      default: gr = clausen(g, c.prec); if (gr.kind == R2R && gr.n == 1) { gr.n = 2; } break;
   }
   c.sub = make_sub("DIFF", gr);
   add_order(g, gr, c);
   if (gr.fam != LI) { c.x.push_back(gen::cl_real(g, c.prec)); }
   else if (gr.kind == R2R) { c.x.push_back(gen::li_real(g, c.prec)); c.x.push_back(0); }
   else { c.x.resize(2); gen::li_cplx(g, c.prec, c.x[0], c.x[1]); }
   // direction and relative length of the path
   c.x.push_back(round_to(c.prec, gen::sym(g)));
   c.x.push_back(round_to(c.prec, g.below(3) ? gen::sym(g) : ldexpl(gen::sym(g), -(int)g.range(1, 20))));
   return c;
}

/// z of ln z, rounded
void exp_round(int p, const C& l, LD& re, LD& im)
{
   Q s, co;
   sincosq(l.im, &s, &co);
   const Q m = expq(l.re);
   re = round_to(p, (LD)(m*co));
   im = l.im == 0 ? 0 : round_to(p, (LD)(m*s));
}

void check_c27(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const int p = c.prec;
   for (LD v : c.x) { if (!std::isfinite(v)) { return; } }
   r.label = c.sub;
   const std::string key = key_at(c, s.g, n, c.x[0], s.g.kind == C2C || s.g.kind == NC2C ? c.x[1] : 0.0L);
   const Q eps = eps_of(p);
   const LD d1 = c.x[c.x.size() - 2], d2 = c.x.back();
   if (fabsl(d1) > 1 || fabsl(d2) > 1) { return; }
   const Gauss& gl = gauss();
   // functions of order n - 1
   std::vector<const Fn*> hi = find_fns(s.g.fam, s.g.kind, s.g.n, p);
   auto lower = [&] (const Fn* f) -> const Fn* {
      if (general(s.g)) { return f; }
      for (const Fn* h : find_fns(s.g.fam, s.g.kind, s.g.n - 1, p)) { if (h->lang == f->lang) { return h; } }
      return 0;
   };

   if (s.g.fam == LI) {
      const bool real = s.g.kind == R2R;
      const LD x = c.x[0], y = real ? 0 : c.x[1];
      if (n < -40 || (x == 0 && y == 0)) { return; }
      const C z(x, y);
      const Q az = ref::abs(z);
      if (az < min_of(p)*1e6Q || az > max_of(p)/1e6Q) { return; }
      if (y == 0 && x >= 1) { return; }
      // ln z; the path stays on the sheet 0 < arg < 2 pi side of z, i.e. must
      // not cross z > 1; it may cross the negative axis
      C l = ref::plog(z);
      // distance to the singular points 2 pi i k of Li_n(e^l) and, for arg z ~ 0
      // with |z| > 1, to the cut
      Q dist = ref::abs(l);
      for (int k = -1; k <= 1; k += 2) { const Q q = ref::abs(C(l.re, l.im - 2*ref::PI*k)); if (q < dist) { dist = q; } }
      if (l.re > 0 && !real) { const Q q = fabsq(l.im); if (q < dist) { dist = q; } }
      if (dist > 4) { dist = 4; }
      C dl;
      if (real) { dl = C(0.45Q*dist*Q(d2), 0); }
      else { Q sn, cs; sincosq(ref::PI*Q(d1), &sn, &cs); dl = 0.45Q*dist*Q(fabsl(d2))*C(cs, sn); }
      if (d2 == 0 || dist < 64*eps) { return; }
      // |z| > 1 may be reached from the inside near arg = 0: not across the cut
      if (n < 1) { dl = dl/Q(4 - n); }
      const C le = l + dl;
      if (!real && (le.re > 0 || l.re > 0) && ((l.im >= 0) != (le.im >= 0))) { if (fabsq(l.im) < 2) { return; } }
      if (real && x > 0 && le.re >= 0) { return; }
      LD ea, eb; // end point
      exp_round(p, real ? C(le.re, 0) : le, ea, eb);
      if (real && x < 0) { ea = -ea; }
      if (eb == 0 && ea >= 1) { return; }
      // with the rounded end point
      C l2 = ref::plog(C(ea, eb));
      C ll = l2 - l;
      if (ll.im > ref::PI) { ll.im -= 2*ref::PI; }
      if (ll.im < -ref::PI) { ll.im += 2*ref::PI; }
      if (real) { ll.im = 0; }
      // nodes
      LD na[Gauss::N], nb[Gauss::N];
      Q lscale = 0;
      for (int i = 0; i < Gauss::N; ++i) {
         const C q = l + (0.5Q*(gl.t[i] + 1))*ll;
         exp_round(p, real ? C(q.re, 0) : q, na[i], nb[i]);
         if (real && x < 0) { na[i] = -na[i]; }
         if (nb[i] == 0 && na[i] >= 1) { return; }
      }
      for (int i : { 0, 5, 10, 15 }) { const Expect e = expect_li(n - 1, na[i], nb[i], p); if (e.scale > lscale) { lscale = e.scale; } }
      const Expect e1 = expect_li(n, x, y, p), e2 = expect_li(n, ea, eb, p);
      const Q scale = e1.scale + e2.scale + ref::abs(ll)*lscale*2;
      if (e1.singular || e2.singular || !(scale < max_of(p)/64)) { return; }
      r.nontrivial = true;
      for (const Fn* f : hi) {
         const Fn* h = lower(f);
         const Val a = call(*f, n, x, y), b = call(*f, n, ea, eb);
         const std::string m = std::string(f->name) + ": f(a) = " + show2(a) + ", b = (" + show(ea) + "," + show(eb) + "), f(b) = " + show2(b);
         if (!finite2(a) || !finite2(b)) { r.fail(m); continue; }
         C sum;
         for (int i = 0; i < Gauss::N; ++i) {
            C v;
            if (h) {
               const Val w = call(*h, n - 1, na[i], nb[i]);
               if (!finite2(w)) { r.fail(m + ", node (" + show(na[i]) + "," + show(nb[i]) + ") = " + show2(w)); break; }
               v = cq(w);
            } else { v = -ref::log1m(C(na[i], nb[i])); } // n = 2
            if (real) { v.im = 0; }
            sum = sum + gl.w[i]*v;
         }
         sum = 0.5Q*(sum*ll);
         C diff = cq(b) - cq(a) - sum;
         if (real) { diff.im = 0; }
         metric(r, key, ref::abs(diff) - 32*Q(denorm_of(p)), eps*scale, m + ", integral of order n-1: (" + showq(sum.re) + ", " + showq(sum.im) + ")");
      }
      return;
   }
   // Clausen-type
   const LD x = c.x[0];
   if (n < 2 || fabsl(x) > 1000) { return; }
   const bool sl = s.g.fam == SL;
   const Q q = fabsq(remainderq(Q(x), 2*ref::PI));
   if (q < 1e-300Q || q < 64*eps*fabsq(x)) { return; }
   const LD e = round_to(p, (LD)(Q(x) + 0.45Q*q*Q(d2)));
   const Q len = Q(e) - Q(x);
   if (len == 0) { return; }
   const bool plus = sl ? n % 2 != 0 : n % 2 == 0;
   const Expect e1 = expect_cl(sl, n, x, p), e2 = expect_cl(sl, n, e, p);
   LD nd[Gauss::N];
   Q lscale = 0;
   for (int i = 0; i < Gauss::N; ++i) { nd[i] = round_to(p, (LD)(Q(x) + 0.5Q*(gl.t[i] + 1)*len)); }
   for (int i : { 0, 5, 10, 15 }) { const Expect k = expect_cl(sl, n - 1, nd[i], p); if (k.singular) { return; } if (k.scale > lscale) { lscale = k.scale; } }
   const Q scale = e1.scale + e2.scale + 2*fabsq(len)*lscale;
   if (e1.singular || e2.singular || !(scale < 1e30Q)) { return; }
   r.nontrivial = true;
   for (const Fn* f : hi) {
      const Fn* h = lower(f);
      const Val a = call(*f, n, x), b = call(*f, n, e);
      const std::string m = std::string(f->name) + ": f(a) = " + show(a.re) + ", b = " + show(e) + ", f(b) = " + show(b.re);
      if (!std::isfinite(a.re) || !std::isfinite(b.re)) { r.fail(m); continue; }
      Q sum = 0;
      for (int i = 0; i < Gauss::N; ++i) {
         Q v;
         if (h) {
            const Val w = call(*h, n - 1, nd[i]);
            if (!std::isfinite(w.re)) { r.fail(m + ", node " + show(nd[i]) + " = " + show(w.re)); break; }
            v = w.re;
         } else { v = ref::cl(1, Q(nd[i]), 1e-30Q); } // n = 2
         sum += gl.w[i]*v;
      }
      sum *= 0.5Q*len;
      if (!plus) { sum = -sum; }
      metric(r, key, fabsq(Q(b.re) - Q(a.re) - sum) - 32*Q(denorm_of(p)), eps*scale, m + ", integral of order n-1: " + showq(sum));
   }
}

// ---- C28 ---------------------------------------------------------------------

Case gen_c28(Rng& g)
{
   Case c = gen_c26(g);
   c.sub = "CONT" + c.sub.substr(3);
   c.n.push_back(g.range(1, 8)); // direction and number of steps
   return c;
}

void check_c28(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c), d = c.n.back();
   const int p = c.prec;
   const LD x = c.x[0], y = c.x.size() > 1 ? c.x[1] : 0;
   r.label = c.sub;
   if (!std::isfinite(x) || !std::isfinite(y) || d < 1 || d > 8) { return; }
   const bool cplx = c.x.size() > 1;
   const int step = d % 4 == 0 ? 3 : 1;
   const LD x2 = cplx && d > 4 ? x : ulp_step(p, x, d % 2 ? step : -step);
   const LD y2 = !cplx ? 0 : d > 4 || d == 2 ? ulp_step(p, y, d % 2 ? step : -step) : y;
   if (!std::isfinite(x2) || !std::isfinite(y2)) { return; }
   Expect a, b;
   std::string reg;
   if (s.g.fam == LI) {
      if (cplx && x >= 1 && (y == 0) != (y2 == 0)) { return; }
      if (cplx && x >= 1 && y*y2 < 0) { return; }
      a = expect_li(n, x, y, p);
      b = expect_li(n, x2, y2, p);
      if (!cplx) { a.f.im = b.f.im = 0; }
      reg = "";
   } else {
      a = expect_cl(s.g.fam == SL, n, x, p);
      b = expect_cl(s.g.fam == SL, n, x2, p);
      if (n == 1 && s.g.fam == SL && (a.singular || b.singular)) { return; }
   }
   if (a.singular || b.singular || !(a.scale < max_of(p)/64) || !(b.scale < max_of(p)/64)) { return; }
   if (s.g.fam != LI && !(a.scale < 1e30Q)) { return; }
   r.nontrivial = true;
   // true change of the function
   const Q change = ref::abs(b.f - a.f);
   std::string key = key_at(c, s.g, n, x, y);
   const std::string key2 = key_at(c, s.g, n, x2, y2);
   if (kfactor(key2) > kfactor(key)) { key = key2; }
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
      const Val u = call(*f, n, x, y), v = call(*f, n, x2, y2);
      const std::string m = std::string(f->name) + ": " + show2(u) + " at (" + show(x) + "," + show(y) + "), " + show2(v) + " at (" + show(x2) + "," + show(y2) + ")";
      if (!finite2(u) || !finite2(v)) { r.fail(m); continue; }
      metric(r, key, ref::abs(cq(v) - cq(u)) - change - 16*Q(denorm_of(p)), Q(eps_of(p))*(a.scale + b.scale), m);
   }
}

// ---- C29 ---------------------------------------------------------------------

Case gen_c29(Rng& g)
{
   Case c;
   const Group gr = li_c2c(g, c.prec);
   c.sub = make_sub("IMAG", gr);
   add_order(g, gr, c, true);
   LD x;
   for (int i = 0; i < 20; ++i) { x = gen::li_real(g, c.prec); if (x > -0.75L && x < 1) { break; } x = -x; if (x > -0.75L && x < 1) { break; } }
   if (!(x > -0.75L && x < 1)) { x = gen::clamp(c.prec, round_to(c.prec, -0.75L + 1.75L*g.unit())); }
   const int lo = c.prec == 24 ? -149 : c.prec == 53 ? -1074 : -16440;
   const LD d = fabsl(x - 1) < fabsl(x) ? fabsl(x - 1) : fabsl(x);
   LD y = g.coin() ? gen::sgn(g)*ldexpl(d, -(int)g.range(40, 300)) : gen::sgn(g)*ldexpl(1 + g.unit(), (int)g.range(lo, 0));
   c.x.push_back(x);
   c.x.push_back(gen::clamp(c.prec, y));
   return c;
}

void check_c29(const Case& c, Report& r)
{
   const Sub s = parse_sub(c.sub);
   const int64_t n = order(s.g, c);
   const int p = c.prec;
   const LD x = c.x[0], y = c.x[1];
   r.label = c.sub;
   if (!std::isfinite(x) || !std::isfinite(y) || x == 0 || y == 0 || x == 1 || n < 1) { return; }
   const Q dist = fabsq(Q(x) - 1) < fabsq(Q(x)) ? fabsq(Q(x) - 1) : fabsq(Q(x));
   if (!(fabsq(Q(y)) < dist*0x1p-38Q)) { return; }
   if (fabsl(y) < min_of(p)*64) { return; } // subnormal numbers have no relative accuracy
   // beyond, the logarithm of z has an imaginary part close to pi, and only absolute accuracy
   if (!(x > -0.75L && x < 1)) { return; }
   const Q f1 = ref::li(n - 1, C(Q(x), 0)).v.re, f2 = ref::li(n - 2, C(Q(x), 0), 1e-15Q).v.re;
   const Q want = Q(y)/Q(x)*f1;
   const Q scale = fabsq(Q(y)/Q(x))*(fabsq(f1) + fabsq(f2)), mag = scale;
   if (!(mag < max_of(p)/64) || !(fabsq(want) > min_of(p)*64)) { return; }
   r.nontrivial = true;
   static const LD bb[] = { -0.25L, 0, 0.25L, 0.367L, 0.5L, 0.75L };
   std::string reg = "x>";
   for (LD b : bb) { if (x <= b) { reg = fmt("x<=%Lg", b); break; } }
   const std::string key = c.sub + "/" + nclass(s.g, n) + "/" + std::to_string(p) + "/" + reg;
   for (const Fn* f : find_fns(s.g.fam, s.g.kind, s.g.n, p)) {
      const Val v = call(*f, n, x, y);
      const std::string m = std::string(f->name) + ": f(" + show(x) + ", " + show(y) + ") = " + show2(v) + ", expected Im = " + showq(want);
      if (!finite2(v)) { r.fail(m); continue; }
      metric(r, key, fabsq(Q(v.im) - want) - 8*Q(denorm_of(p)), Q(eps_of(p))*scale, m);
   }
}

} // namespace

const std::vector<Prop>& extra_props()
{
   static const std::vector<Prop> v = { { "C26", gen_c26, check_c26, "" }, { "C27", gen_c27, check_c27, "" }, { "C28", gen_c28, check_c28, "" },
      { "C29", gen_c29, check_c29, "" } };
   return v;
}
