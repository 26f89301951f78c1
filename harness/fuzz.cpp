// C20: libFuzzer target for every entry point, built with the address and
// undefined-behaviour sanitizers.  One input is one call: which function, the
// order, two real numbers,
// the rounding mode.  The oracle: the sanitizers, and the call returns
// within 20 s of CPU time.
//   fuzz one LINE                 evaluates one call
//   fuzz -runs=N -seed=S ...      libFuzzer
#include "calls.hpp"
#include "shrink.hpp"
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" size_t LLVMFuzzerMutate(uint8_t* data, size_t size, size_t max);

static const size_t LEN = 1 + 8 + 10 + 10 + 1;
static volatile unsigned long counter = 0;
static unsigned long last_counter = 0, evals = 0, nontrivial = 0, structured = 0;
static std::unordered_set<uint64_t> seen;
static std::map<std::string, unsigned long> per_fn;
static int ticks = 0;
static bool running = false;
static std::string stats_file;
static std::vector<std::string> samples;

static Case decode(const uint8_t* d)
{
   Case c;
   const Fn& f = all_functions()[d[0] % all_functions().size()];
   c.sub = "CALL";
   c.prec = f.prec;
   int64_t n;
   memcpy(&n, d + 1, 8);
   c.n = { (int64_t)(&f - &all_functions()[0]), n, d[29] < 192 ? 0 : d[29] % 4 };
   for (int i = 0; i < 2; ++i) {
      if (f.prec == 64) {
         LD v = 0;
         memcpy(&v, d + 9 + 10*i, 10);
         // the explicit integer bit (unnormal numbers are not valid operands)
         unsigned short e;
         uint64_t m;
         memcpy(&e, d + 9 + 10*i + 8, 2);
         memcpy(&m, d + 9 + 10*i, 8);
         if (e & 0x7fff) { m |= 1ull << 63; } else { m &= ~(1ull << 63); }
         memcpy(&v, &m, 8);
         c.x.push_back(v);
      } else {
         double v;
         memcpy(&v, d + 9 + 10*i, 8);
         c.x.push_back(f.prec == 24 ? (LD)(float)v : (LD)v);
      }
   }
   return c;
}
static void encode(const Case& c, uint8_t* d)
{
   const Fn& f = all_functions()[c.n[0]];
   memset(d, 0, LEN);
   d[0] = (uint8_t)c.n[0];
   memcpy(d + 1, &c.n[1], 8);
   d[29] = (uint8_t)(c.n[2] ? 252 + c.n[2] % 4 : 0);
   for (int i = 0; i < 2; ++i) {
      if (f.prec == 64) { memcpy(d + 9 + 10*i, &c.x[i], 10); }
      else { const double v = (double)c.x[i]; memcpy(d + 9 + 10*i, &v, 8); }
   }
}
static void run(const Case& c)
{
   const Fn& f = all_functions()[c.n[0]];
   LD in[2] = { c.x[0], c.x[1] }, out[2] = { 0, 0 }, after[2];
   ++counter;
   running = true;
   fesetround(mode_of(c));
   f.call(c.n[1], in, out, after);
   fesetround(FE_TONEAREST);
   running = false;
   volatile LD sink = out[0] + out[1];
   (void)sink;
}

static void on_tick(int)
{
   if (!running || counter != last_counter) { last_counter = counter; ticks = 0; return; }
   if (++ticks >= 20) {
      const char m[] = "\nNO RESULT after 20 s of CPU time\n";
      const ssize_t k = write(2, m, sizeof m - 1); (void)k;
      abort();
   }
}

static void write_stats()
{
   if (stats_file.empty()) { return; }
   FILE* f = fopen(stats_file.c_str(), "w");
   if (!f) { return; }
   fprintf(f, "EVALS\t%lu\nNONTRIVIAL\t%lu\nSTRUCTURED\t%lu\n", evals, nontrivial, structured);
   for (const auto& k : per_fn) { fprintf(f, "LABEL\t%lu\t%s\n", k.second, k.first.c_str()); }
   for (const std::string& t : samples) { fprintf(f, "SAMPLE\t\t%s\n", t.c_str()); }
   fprintf(f, "END\n");
   fclose(f);
   f = fopen((stats_file + ".hash").c_str(), "wb");
   if (f) { for (uint64_t h : seen) { fwrite(&h, 8, 1, f); } fclose(f); }
}

extern "C" int LLVMFuzzerInitialize(int* argc, char*** argv)
{
   struct sigaction sa;
   memset(&sa, 0, sizeof sa);
   sa.sa_handler = on_tick;
   sa.sa_flags = SA_RESTART;
   sigaction(SIGPROF, &sa, 0);
   const itimerval it = { { 1, 0 }, { 1, 0 } };
   setitimer(ITIMER_PROF, &it, 0);
   if (*argc >= 3 && std::string((*argv)[1]) == "one") {
      Case c;
      if (!from_line((*argv)[2], c) || c.n.size() != 3 || c.x.size() != 2 || c.n[0] < 0 || (size_t)c.n[0] >= all_functions().size()) { _exit(2); }
      run(c);
      printf("OK\t%s\t%s\n", all_functions()[c.n[0]].name, to_human(c).c_str());
      fflush(stdout);
      _exit(0);
   }
   if (*argc >= 3 && std::string((*argv)[1]) == "candidates") {
      Case c;
      if (!from_line((*argv)[2], c)) { _exit(2); }
      for (const Case& d : shrink::candidates(c)) { printf("%s\n", to_line(d).c_str()); }
      fflush(stdout);
      _exit(0);
   }
   if (*argc >= 3 && std::string((*argv)[1]) == "decode") { // artifact -> line
      FILE* f = fopen((*argv)[2], "rb");
      uint8_t d[LEN] = { 0 };
      const size_t k = f ? fread(d, 1, LEN, f) : 0;
      if (k < LEN) { _exit(2); }
      printf("%s\n", to_line(decode(d)).c_str());
      fflush(stdout);
      _exit(0);
   }
   if (const char* s = getenv("FUZZ_STATS")) { stats_file = s; atexit(write_stats); }
   return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
   if (size < LEN) { return -1; }
   const Case c = decode(data);
   if (!admissible(c)) { return -1; }
   ++evals;
   const Fn& f = all_functions()[c.n[0]];
   ++per_fn[f.name];
   if (f.kind == N2R || c.x[0] != 0) { ++nontrivial; seen.insert(hash_case(c)); }
   if (samples.size() < 4 && evals % 997 == 0) { samples.push_back(f.name + std::string(" ") + to_human(c)); }
   run(c);
   return 0;
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* data, size_t size, size_t max, unsigned int seed)
{
   if (max < LEN) { return size; }
   Rng g(seed*2654435761ull + 1);
   if (size < LEN || g.below(3) == 0) {
      encode(generate(g), data);
      ++structured;
      return LEN;
   }
   Case c = decode(data);
   switch (g.below(9)) {
      case 0: c.n[1] = (int64_t)((uint64_t)c.n[1] + (uint64_t)g.range(-2, 2)); break;
      case 1: c.n[1] = g.coin() ? gen::order_pos(g) : gen::order_neg(g); break;
      case 2: { const size_t i = g.below(2); if (std::isfinite(c.x[i])) { c.x[i] = ulp_step(c.prec, c.x[i], (int)g.range(-2, 2)); } break; }
      case 3: c.x[g.below(2)] *= -1; break;
      case 4: { const size_t i = g.below(2); c.x[i] = gen::li_real(g, c.prec); break; }
      case 5: { const size_t i = g.below(2); c.x[i] = gen::dict_real(g, c.prec); break; }
      case 6: c.n[2] = g.range(0, 3); break;
      default: { // raw bytes, same function
         const size_t k = LLVMFuzzerMutate(data, LEN, LEN);
         if (k < LEN) { memset(data + k, 0, LEN - k); }
         return LEN;
      }
   }
   encode(c, data);
   return LEN;
}
