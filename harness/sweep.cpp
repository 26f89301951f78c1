// C25: Li2 in single precision at every float (or every k-th): compared with
// an independent double-precision evaluation.
//   sweep run STRIDE OFFSET FIRST LAST OUT     bit patterns FIRST <= b < LAST
//   sweep one BITS                             exit 0 / 1
// The oracle is itself compared with the quadruple-precision reference.
#include "core.hpp"
#include "gen.hpp"
#include <csignal>
#include <set>
#include <fcntl.h>
#include <unistd.h>

static const double PI2_6 = 1.6449340668482264365;

/// Li2(x) for x in [-1,1/2], u = -log(1-x)
static double series(double u)
{
   // B_(2k)/(2k+1)!
   static const double b[] = { 1.0/36, -1.0/3600, 1.0/211680, -1.0/10886400, 1.0/526901760, -4.0647616451442255e-11, 8.9216910204564526e-13, -1.9939295860721076e-14, 4.5189800296199182e-16, -1.0356517612182470e-17 };
   const double w = u*u;
   double s = b[9];
   for (int i = 8; i >= 0; --i) { s = s*w + b[i]; }
   return u + w*(s*u - 0.25);
}
static double dilog(double x, double& ln1)
{
   ln1 = x < 1 ? log1p(-x) : x > 1 ? log(x - 1) : 0;
   if (x < -1) { const double l = log(-x); return -PI2_6 - 0.5*l*l - series(-log1p(-1/x)); }
   if (x <= 0.5) { return series(-ln1); }
   if (x < 1) { return PI2_6 - log(x)*ln1 - series(-log(x)); }
   if (x == 1) { return PI2_6; }
   const double l = log(x);
   if (x < 2) { return PI2_6 - l*(log1p(-1/x) + 0.5*l) + series(l); }
   return 2*PI2_6 - 0.5*l*l - series(-log1p(-1/x));
}

static std::vector<const Fn*> fns;
static double K = 0, worst = 0;
static uint32_t worst_at = 0, current = 0;
static int fd = 1;

static float from_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }

/// false: violation
static bool check(uint32_t bits, std::string* msg)
{
   const float x = from_bits(bits);
   current = bits;
   if (!(fabsf(x) <= FLT_MAX)) {
      if (x != x) {
         for (const Fn* f : fns) { const Val v = call(*f, 2, x); if (!std::isnan(v.re)) { if (msg) { *msg = std::string(f->name) + "(NaN) = " + show(v.re); } return false; } }
      }
      return true;
   }
   double l;
   const double w = dilog(x, l), unit = (fabs(w) + (x == 0 ? 0 : fabs(l)))*ldexp(1, -24) + 1.5e-45;
   for (const Fn* f : fns) {
      const double q = fabs((double)call(*f, 2, x).re - w)/unit;
      if (q > worst || q != q) { worst = q; worst_at = bits; }
      if (!(q <= K)) {
         if (msg) { *msg = std::string(f->name) + fmt("(%.9g) = %.9Lg, expected %.12g: error %.3g units of rounding, allowed %.3g", x, call(*f, 2, x).re, w, q, K); }
         return false;
      }
   }
   return true;
}

static void on_crash(int s)
{
   const std::string m = fmt("ABORT\tsignal %d\t%u\n", s, current);
   const ssize_t k = write(fd, m.data(), m.size()); (void)k;
   _exit(70);
}

int main(int argc, char** argv)
{
   fns = find_fns(LI, R2R, 2, 24);
   K = 16;
   std::string m;
   if (argc == 3 && std::string(argv[1]) == "one") {
      const bool ok = check((uint32_t)strtoul(argv[2], 0, 10), &m);
      printf("%s\t%s\n", ok ? "OK" : "FAIL", m.c_str());
      return ok ? 0 : 1;
   }
   if (argc != 7) { return 2; }
   const uint64_t stride = strtoull(argv[2], 0, 10), off = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), last = strtoull(argv[5], 0, 10);
   fd = open(argv[6], O_WRONLY | O_CREAT | O_TRUNC, 0644);
   for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) { signal(s, on_crash); }
   // oracle against the reference
   Rng g(first + 17*off + 1);
   double oracle = 0;
   for (int i = 0; i < 20000; ++i) {
      const float x = from_bits((uint32_t)g.next());
      if (!(fabsf(x) <= FLT_MAX) || x == 0) { continue; }
      double l;
      const double w = dilog(x, l);
      const Q e = ref::li(2, ref::C(Q(x))).v.re;
      const double d = (double)(fabsq(Q(w) - e)/(fabsq(e) + fabsq(Q(l))))*ldexp(1, 24);
      if (d > oracle) { oracle = d; }
   }
   uint64_t evals = 0, nontrivial = 0, bad = 0;
   uint32_t failing = 0;
   std::string why;
   auto visit = [&] (uint32_t b) {
      ++evals;
      const float x = from_bits(b);
      if (x == x && x != 0 && x != 1) { ++nontrivial; }
      if (!check(b, 0) && bad++ == 0) { failing = b; check(b, &why); }
   };
   for (uint64_t b = first + off; b < last; b += stride) { visit((uint32_t)b); }
   if (stride > 1) { // all floats next to numbers from the source code and next to powers of two
      std::vector<float> c;
      for (LD v : gen::dict().re) { for (LD s : { v, 1/v, 1 - v, v*v, sqrtl(fabsl(v)), expl(v), expl(-v) }) { c.push_back((float)s); c.push_back((float)-s); } }
      for (int e = -149; e < 128; ++e) { c.push_back(ldexpf(1, e)); c.push_back(-ldexpf(1, e)); }
      std::set<uint32_t> near;
      for (float v : c) {
         uint32_t b;
         memcpy(&b, &v, 4);
         for (int k = -64; k <= 64; ++k) { const uint64_t t = (uint64_t)b + k; if (t >= first && t < last && (t - first) % stride != off) { near.insert((uint32_t)t); } }
      }
      for (uint32_t b : near) { visit(b); }
   }
   std::string o = fmt("EVALS\t%lu\nNONTRIVIAL\t%lu\nORACLE\t%.3g\n", (unsigned long)evals, (unsigned long)nontrivial, oracle);
   double l;
   for (int i = 0; i < 3; ++i) { const uint32_t b = (uint32_t)(first + g.below(last - first)); const float x = from_bits(b); o += fmt("SAMPLE\tbits %#x\tx=%.9g Li2=%.9Lg oracle %.12g\n", b, x, call(*fns[0], 2, x).re, dilog(x, l)); }
   o += fmt("WORST\t%.4g\t%.4g\t%lu\tLi2 float\tx=%.9g\n", worst, K, (unsigned long)evals, from_bits(worst_at));
   if (bad) { o += fmt("BAD\t%lu\n", (unsigned long)bad) + "FAIL\t" + why + fmt("\t%u\n", failing); }
   o += "END\n";
   const ssize_t k = write(fd, o.data(), o.size()); (void)k;
   return bad ? 1 : 0;
}
