// C20: calls of every entry point under valgrind memcheck: results that depend
// on uninitialised memory (any of the three languages).
//   calls run SEED CASES OUT
//   calls one LINE
#include "calls.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <unordered_set>
#include <valgrind/memcheck.h>

static bool defined_result(const Case& c, std::string& what)
{
   const Fn& f = all_functions()[c.n[0]];
   LD in[2] = { c.x[0], c.x[1] }, out[2] = { 0, 0 }, after[2];
   const unsigned long before = VALGRIND_COUNT_ERRORS;
   f.call(c.n[1], in, out, after);
   const bool two = f.kind == C2C || f.kind == NC2C;
   unsigned long bad = 0;
   for (int i = 0; i < (two ? 2 : 1); ++i) { if (VALGRIND_CHECK_MEM_IS_DEFINED(&out[i], 10)) { ++bad; } }
   if (bad) { what = std::string(f.name) + " returns a value that depends on uninitialised memory"; }
   else if (VALGRIND_COUNT_ERRORS != before) { what = std::string("memory error in ") + f.name; }
   VALGRIND_MAKE_MEM_DEFINED(out, sizeof out);
   return what.empty();
}

int main(int argc, char** argv)
{
   if (argc == 3 && std::string(argv[1]) == "one") {
      Case c;
      std::string m;
      if (!from_line(argv[2], c) || c.n.size() != 3 || c.x.size() != 2 || c.n[0] < 0 || (size_t)c.n[0] >= all_functions().size()) { return 2; }
      const bool ok = defined_result(c, m);
      printf("%s\t%s\t%s\n", ok ? "OK" : "FAIL", m.c_str(), to_human(c).c_str());
      return ok ? 0 : 1;
   }
   if (argc != 5) { return 2; }
   Rng g(strtoull(argv[2], 0, 10)*7919 + 5);
   const long cases = atol(argv[3]);
   FILE* fp = fopen(argv[4], "w");
   std::unordered_set<uint64_t> seen;
   unsigned long evals = 0, nontrivial = 0;
   std::string fail;
   for (long i = 0; i < cases && fail.empty(); ++i) {
      Case c = generate(g);
      // (x87 numbers have the range of double in valgrind)
      for (LD& v : c.x) { if (fabsl(v) > 1e300L || (v != 0 && fabsl(v) < 1e-300L)) { v = round_to(c.prec, c.prec == 24 ? 0.3L : v > 0 ? 1e300L : -1e-300L); } }
      c.n[2] = 0; // valgrind rounds to nearest
      if (!admissible(c)) { continue; }
      ++evals;
      if (c.x[0] != 0) { ++nontrivial; seen.insert(hash_case(c)); }
      std::string m;
      if (!defined_result(c, m)) { fail = "FAIL\t" + m + "\t" + to_line(c); }
   }
   fprintf(fp, "EVALS\t%lu\nNONTRIVIAL\t%lu\nLABEL\t%lu\tmemcheck\n%s%sEND\n", evals, nontrivial, evals, fail.c_str(), fail.empty() ? "" : "\n");
   fclose(fp);
   fp = fopen((std::string(argv[4]) + ".hash").c_str(), "wb");
   for (uint64_t h : seen) { fwrite(&h, 8, 1, fp); }
   fclose(fp);
   return fail.empty() ? 0 : 1;
}
