// pbt run PROP SEED CASES OUT       rapidcheck search
// pbt one PROP LINE                 evaluates one case (plain, without rapidcheck)
// pbt candidates LINE               simpler cases
// pbt sweep PROP ...                see sweep.cpp
#include "shrink.hpp"
#include "known.hpp"
#include <rapidcheck.h>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_set>

const std::vector<Prop>& acc_props();
const std::vector<Prop>& meta_props();
const std::vector<Prop>& num_props();
const std::vector<Prop>& hist_props();
const std::vector<Prop>& extra_props();

void showValue(const Case& c, std::ostream& os) { os << to_human(c); }

static const Prop* find_prop(const std::string& id)
{
   for (auto f : { acc_props, meta_props, num_props, hist_props, extra_props }) {
      for (const Prop& p : f()) { if (id == p.id) { return &p; } }
   }
   return 0;
}

// ---- crash and hang reporting ---------------------------------------------

static const Case* current = 0;
static volatile unsigned long counter = 0;
static unsigned long last_counter = 0;
static int ticks = 0;
static int out_fd = 1;
static const int HANG_TICKS = 20; // seconds of CPU time for one case

static void put(const std::string& s) { const ssize_t k = write(out_fd, s.data(), s.size()); (void)k; }

static void on_crash(int sig)
{
   if (current) { put("ABORT\tsignal " + std::to_string(sig) + "\t" + to_line(*current) + "\n"); }
   _exit(70);
}
static void on_tick(int)
{
   if (!current || counter != last_counter) { last_counter = counter; ticks = 0; return; }
   if (++ticks >= HANG_TICKS) {
      put("ABORT\tno result after " + std::to_string(HANG_TICKS) + " s of CPU time\t" + to_line(*current) + "\n");
      _exit(71);
   }
}
static void install()
{
   static char stack[1 << 16];
   stack_t st;
   memset(&st, 0, sizeof st);
   st.ss_sp = stack;
   st.ss_size = sizeof stack;
   sigaltstack(&st, 0);
   struct sigaction sa;
   memset(&sa, 0, sizeof sa);
   sa.sa_handler = on_crash;
   sa.sa_flags = SA_ONSTACK;
   for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) { sigaction(s, &sa, 0); }
   sa.sa_handler = on_tick;
   sa.sa_flags = SA_ONSTACK | SA_RESTART;
   sigaction(SIGPROF, &sa, 0);
   const itimerval it = { { 1, 0 }, { 1, 0 } };
   setitimer(ITIMER_PROF, &it, 0);
}

static Report eval(const Prop& p, const Case& c)
{
   Report r;
   current = &c;
   ++counter;
   p.check(c, r);
   current = 0;
   return r;
}

__attribute__((weak)) int stage_main(); // hist.cpp

int main(int argc, char** argv)
{
   if (argc == 2 && std::string(argv[1]) == "stage" && stage_main) { return stage_main(); }
   if (argc < 3) { return 2; }
   const std::string mode = argv[1];
   if (mode == "candidates") {
      Case c;
      if (!from_line(argv[2], c)) { return 2; }
      for (const Case& d : shrink::candidates(c)) { printf("%s\n", to_line(d).c_str()); }
      return 0;
   }
   const Prop* p = find_prop(argv[2]);
   if (!p) { fprintf(stderr, "unknown property %s\n", argv[2]); return 2; }
   install();
   if (mode == "one") {
      Case c;
      if (!from_line(argv[3], c)) { return 2; }
      const Report r = eval(*p, c);
      if (r.ok) { printf("OK\t%s\n", to_human(c).c_str()); return 0; }
      const std::string k = known::match(p->id, c, r);
      printf("%s\t%s\t%s\n", k.empty() ? "FAIL" : ("KNOWN " + k).c_str(), r.msg.c_str(), to_human(c).c_str());
      return k.empty() ? 1 : 5;
   }
   // ---- search
   const uint64_t seed = strtoull(argv[3], 0, 10);
   const long cases = atol(argv[4]);
   out_fd = open(argv[5], O_WRONLY | O_CREAT | O_TRUNC, 0644);
   setenv("RC_PARAMS", fmt("seed=%" PRIu64 " max_success=%ld max_size=100 max_discard_ratio=1", seed, cases).c_str(), 1);
   unsigned long evals = 0, nontrivial = 0;
   std::unordered_set<uint64_t> hashes;
   std::map<std::string, unsigned long> labels, knowns;
   std::map<std::string, Metric> worst;
   std::map<std::string, std::string> samples; // one per label
   Case failing;
   std::string why;
   bool failed = false;
   long after = 0; // evaluations after the first failure
   const long max_shrink = 3000;

   const rc::Gen<Case> gen = rc::Gen<Case>([p, &after, max_shrink] (const rc::Random& random, int) {
      rc::Random r(random);
      Rng rng(r.next());
      return rc::shrinkable::shrinkRecur(p->gen(rng), [&after, max_shrink] (const Case& c) {
         return rc::seq::fromContainer(after < max_shrink ? shrink::candidates(c) : std::vector<Case>());
      });
   });
   std::ostringstream sink;
   std::streambuf* old = std::cerr.rdbuf(sink.rdbuf());
   const bool ok = rc::check([&] {
      const Case c = *gen;
      if (failed && ++after >= max_shrink) { return; }
      Report r = eval(*p, c);
      if (!failed) {
         ++evals;
         if (r.nontrivial) { ++nontrivial; hashes.insert(hash_case(c)); }
         if (!r.label.empty()) {
            if (labels[r.label]++ == 0 && r.nontrivial) { samples[r.label] = to_human(c); }
         }
         for (const auto& m : r.metrics) {
            Metric& w = worst[m.first];
            ++w.count;
            const double rel = m.second.first/m.second.second;
            if (rel > w.max || w.count == 1) { w.max = rel; w.K = m.second.second; w.at = c; }
         }
      }
      if (!r.ok) {
         const std::string k = known::match(p->id, c, r);
         if (!k.empty()) { if (!failed) { ++knowns[k]; } return; }
         failed = true;
         failing = c;
         why = r.msg;
         RC_FAIL(r.msg);
      }
   });
   std::cerr.rdbuf(old);
   std::string o = fmt("EVALS\t%lu\nNONTRIVIAL\t%lu\n", evals, nontrivial);
   for (const auto& l : labels) { o += fmt("LABEL\t%lu\t", l.second) + l.first + "\n"; }
   for (const auto& l : samples) { o += "SAMPLE\t" + l.first + "\t" + l.second + "\n"; }
   for (const auto& l : knowns) { o += fmt("KNOWN\t%lu\t", l.second) + l.first + "\n"; }
   for (const auto& w : worst) { o += fmt("WORST\t%.4g\t%.4g\t%lu\t", w.second.max, w.second.K, w.second.count) + w.first + "\t" + to_human(w.second.at) + "\n"; }
   if (failed) { o += "FAIL\t" + why + "\t" + to_line(failing) + "\n"; }
   else if (!ok) { o += "ERROR\t" + sink.str() + "\n"; }
   o += "END\n";
   put(o);
   std::ofstream h(std::string(argv[5]) + ".hash", std::ios::binary);
   for (uint64_t v : hashes) { h.write((const char*)&v, 8); }
   return failed ? 1 : 0;
}
