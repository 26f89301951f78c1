// C31: every call uses bounded resources: steps (basic blocks, counted by
// -fsanitize-coverage=trace-pc), stack, no heap.  Linked in place of the other
// properties with a library that is compiled with that option.
#include "acc.hpp"
#include "calls.hpp"
#include <csetjmp>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <ucontext.h>

static uint64_t steps = 0, limit = 0;
static uint64_t allocations = 0;
static bool inside = false;
static jmp_buf stop;

extern "C" void __sanitizer_cov_trace_pc()
{
   if (inside && ++steps > limit) { inside = false; longjmp(stop, 1); }
}

// the linker is told to call these instead of malloc, ...
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { if (inside) { ++allocations; } return __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { if (inside) { ++allocations; } return __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { if (inside) { ++allocations; } return __real_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (inside) { ++allocations; } return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (inside) { ++allocations; } return __real_posix_memalign(p, a, n); }
}
void* operator new(size_t n) { if (inside) { ++allocations; } void* p = __real_malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {

const size_t STACK = 1 << 20;
const unsigned char PAINT = 0xA7;
unsigned char* stack_base = nullptr;
ucontext_t back, ctx;
const Fn* cur = nullptr;
int64_t cur_n = 0;
LD cur_in[2], cur_out[2], cur_after[2];
bool stopped = false;

void body()
{
   stopped = false;
   steps = 0;
   allocations = 0;
   if (setjmp(stop) == 0) {
      inside = true;
      cur->call(cur_n, cur_in, cur_out, cur_after);
      inside = false;
   } else {
      stopped = true;
   }
}

/// steps of a call
uint64_t count(const Fn& f, const Case& c, uint64_t lim)
{
   cur = &f;
   cur_n = c.n[1];
   cur_in[0] = c.x[0];
   cur_in[1] = c.x[1];
   limit = lim;
   body();
   return steps;
}

/// the call on a stack of its own: bytes used
size_t stack_use(const Fn& f, const Case& c, uint64_t lim)
{
   if (!stack_base) {
      void* p = mmap(nullptr, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) { abort(); }
      mprotect(p, 65536, PROT_NONE);
      stack_base = (unsigned char*)p + 65536;
      memset(stack_base, PAINT, STACK);
   }
   cur = &f;
   cur_n = c.n[1];
   cur_in[0] = c.x[0];
   cur_in[1] = c.x[1];
   limit = lim;
   getcontext(&ctx);
   ctx.uc_stack.ss_sp = stack_base;
   ctx.uc_stack.ss_size = STACK;
   ctx.uc_link = &back;
   makecontext(&ctx, body, 0);
   swapcontext(&back, &ctx);
   // (frames may contain bytes that are not written: look for 4 kB that are untouched)
   size_t i = STACK;
   for (size_t clean = 0; i > 0 && clean < 4096; --i) { clean = stack_base[i - 1] == PAINT ? clean + 1 : 0; }
   size_t low = i; // the lowest 4096 of [i, STACK) are untouched
   while (low < STACK && stack_base[low] == PAINT) { ++low; }
   // a frame with a large untouched array hides what is below: look there, too
   for (size_t k = 0; k < low; k += 256) { if (stack_base[k] != PAINT) { low = k; break; } }
   memset(stack_base + low, PAINT, STACK - low);
   return STACK - low;
}

std::string order_class(const Fn& f, int64_t n)
{
   if (f.kind != NC2C && f.kind != NR2R && f.kind != N2R) { return ""; }
   if (n < 0) { return n >= -20 ? "n>=-20" : n >= -60 ? "n>=-60" : n >= -200 ? "n>=-200" : n >= -500 ? "n>=-500" : n >= -2000 ? "n>=-2000" : n > -10000 ? "n>-10000" : "n<=-10000"; }
   return n <= 6 ? "n<=6" : n <= 30 ? "n<=30" : n <= 200 ? "n<=200" : n <= 2000 ? "n<=2000" : "n>2000";
}

const uint64_t LIMIT = 30000000;

Case gen_c31(Rng& g)
{
   // a short search for expensive arguments
   Case best = generate(g);
   best.sub = "COST";
   best.n[2] = 0;
   if (all_functions()[best.n[0]].kind == NC2C && g.below(12) == 0) { best.n[1] = -g.range(2, 2000); }
   if (!admissible(best)) { return best; }
   const Fn& f = all_functions()[best.n[0]];
   uint64_t b = count(f, best, LIMIT);
   const int tries = g.coin() ? 0 : (int)g.range(1, 12);
   for (int i = 0; i < tries; ++i) {
      Case c = best;
      switch (g.below(7)) {
         case 0: { const Case o = generate(g); c.x = o.x; if (o.prec > f.prec) { for (LD& v : c.x) { v = round_to(f.prec, v); } } } break;
         case 1: c.x[0] = round_to(f.prec, c.x[0]*ldexpl(1, (int)g.range(-3, 3))); break;
         case 2: c.x[1] = round_to(f.prec, c.x[1]*ldexpl(1, (int)g.range(-3, 3))); break;
         case 3: c.x[0] = round_to(f.prec, c.x[0]*(1 + gen::sym(g)*0.1L)); break;
         case 4: c.x[1] = round_to(f.prec, c.x[1]*(1 + gen::sym(g)*0.1L)); break;
         case 5: c.x[0] = -c.x[0]; break;
         default:
            if (c.n[1] > -20000 && c.n[1] < 3000) { c.n[1] += g.range(-3, 3)*(1 + c.n[1]/10); }
            else { c.n[1] += c.n[1] > 0 ? -g.range(0, 5) : g.range(0, 5); }
      }
      if (!admissible(c)) { continue; }
      const uint64_t k = count(f, c, LIMIT);
      if (k > b) { b = k; best = c; }
   }
   return best;
}

void check_c31(const Case& c, Report& r)
{
   if (c.n.size() != 3 || c.x.size() != 2 || c.n[0] < 0 || c.n[0] >= (int64_t)all_functions().size() || !admissible(c)) { return; }
   const Fn& f = all_functions()[c.n[0]];
   r.label = f.name;
   r.nontrivial = c.x[0] != 0 || c.x[1] != 0 || f.kind == N2R;
   std::string key = std::string(f.name) + "|" + order_class(f, c.n[1]);
   for (char& ch : key) { if (ch == ' ') { ch = '_'; } }
   const size_t bytes = stack_use(f, c, LIMIT);
   const std::string at = fmt("%s, order %lld, argument (%s, %s)", f.name, (long long)c.n[1], show(c.x[0]).c_str(), show(c.x[1]).c_str());
   if (stopped) { r.fail(at + ": more than " + std::to_string(LIMIT) + " steps"); return; }
   if (allocations) { r.fail(at + fmt(": %llu heap allocations", (unsigned long long)allocations)); }
   // the calibrated bounds are 2 times what was seen: room for other ways to write the same
   const double ks = 2*acc::kfactor("STEPS|" + key) + 150, kb = 2*acc::kfactor("STACK|" + key) + 8192;
   r.metrics.push_back(std::make_pair("STEPS|" + key, std::make_pair((double)steps, ks)));
   r.metrics.push_back(std::make_pair("STACK|" + key, std::make_pair((double)bytes, kb)));
   if (steps > ks) { r.fail(at + fmt(": %llu steps, allowed %.0f", (unsigned long long)steps, ks)); }
   if (bytes > kb) { r.fail(at + fmt(": %llu bytes of stack, allowed %.0f", (unsigned long long)bytes, kb)); }
}

const std::vector<Prop> none;

} // anonymous namespace

const std::vector<Prop>& extra_props()
{
   static const std::vector<Prop> v = { { "C31", gen_c31, check_c31, "" } };
   return v;
}
const std::vector<Prop>& meta_props() { return none; }
const std::vector<Prop>& num_props() { return none; }
const std::vector<Prop>& hist_props() { return none; }
