// C19: every function is a pure function of its arguments: the same bits for
// any history of calls, in any thread, with any stack contents; arguments and
// floating-point environment are left alone.
#include "acc.hpp"
#include <alloca.h>
#include <cfenv>
#include <pthread.h>
#include <csignal>
#include <ctime>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace acc;

namespace {

struct Op { const Fn* f; int64_t n; LD a, b; };
struct Bits { unsigned char re[10], im[10]; };

const int PREC_FLOAT = 24;

std::vector<Op> ops_of(const Case& c)
{
   std::vector<Op> v;
   const std::vector<Fn>& fs = all_functions();
   for (size_t i = 0; 2*i + 1 < c.n.size() && 2*i + 1 < c.x.size(); ++i) {
      const Fn& f = fs[(uint64_t)c.n[2*i] % fs.size()];
      v.push_back({ &f, c.n[2*i + 1], round_to(f.prec, c.x[2*i]), round_to(f.prec, c.x[2*i + 1]) });
   }
   return v;
}

__attribute__((noinline)) void poison(unsigned char b)
{
   volatile unsigned char* p = (volatile unsigned char*)alloca(12288);
   for (int i = 0; i < 12288; ++i) { p[i] = b; }
}

/// same value (all NaNs are the same)
bool same(const Bits& a, const Bits& b)
{
   LD x[4] = { 0, 0, 0, 0 };
   memcpy(&x[0], a.re, 10); memcpy(&x[1], b.re, 10); memcpy(&x[2], a.im, 10); memcpy(&x[3], b.im, 10);
   for (int i = 0; i < 4; i += 2) { if (!(std::isnan(x[i]) && std::isnan(x[i + 1])) && !same_bits(x[i], x[i + 1])) { return false; } }
   return true;
}
std::string show_bits(const Bits& a)
{
   LD x[2] = { 0, 0 };
   memcpy(&x[0], a.re, 10); memcpy(&x[1], a.im, 10);
   return "(" + hexs(x[0]) + ", " + hexs(x[1]) + ")";
}

/// call; the arguments must come back unchanged
__attribute__((noinline)) Bits eval(const Op& o, bool& args_ok)
{
   LD in[2] = { o.a, o.b }, out[2] = { 0, 0 }, after[2] = { o.a, o.b };
   o.f->call(o.n, in, out, after);
   if (!same_bits(after[0], in[0]) && !(std::isnan(after[0]) && std::isnan(in[0]))) { args_ok = false; }
   if (o.f->kind == C2C || o.f->kind == NC2C) {
      if (!same_bits(after[1], in[1]) && !(std::isnan(after[1]) && std::isnan(in[1]))) { args_ok = false; }
   }
   Bits b;
   memcpy(b.re, &out[0], 10);
   memcpy(b.im, &out[1], 10);
   return b;
}

struct Env { unsigned short cw; unsigned mxcsr; int round; };
Env env()
{
   Env e;
   fenv_t f;
   fegetenv(&f);
   e.cw = f.__control_word;
   e.mxcsr = f.__mxcsr & ~0x3fu; // without the sticky flags
   e.round = fegetround();
   return e;
}
bool same_env(const Env& a, const Env& b) { return a.cw == b.cw && a.mxcsr == b.mxcsr && a.round == b.round; }

struct Job { const std::vector<Op>* ops; size_t start; unsigned char fill; int reps; const std::vector<Bits>* want; std::string bad; };

void* thread_main(void* p)
{
   Job* j = (Job*)p;
   bool ok = true;
   for (int k = 0; k < j->reps; ++k) {
      for (size_t i = 0; i < j->ops->size(); ++i) {
         const size_t q = (i + j->start) % j->ops->size();
         poison(j->fill);
         const Bits b = eval((*j->ops)[q], ok);
         if (j->want && !same(b, (*j->want)[q]) && j->bad.empty()) {
            j->bad = std::string((*j->ops)[q].f->name) + " call " + std::to_string(q) + " gave " + show_bits(b) + " in a thread, " + show_bits((*j->want)[q]) + " before";
         }
      }
   }
   if (!ok && j->bad.empty()) { j->bad = "argument modified"; }
   return 0;
}

/// all calls twice in a directed rounding mode: the mode stays, and so do the results
std::string directed(const std::vector<Op>& ops, int which, bool& args)
{
   const int modes[] = { FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
   std::string bad;
   std::vector<Bits> first;
   fesetround(modes[which % 3]);
   const Env e0 = env();
   for (int k = 0; k < 2; ++k) {
      for (size_t i = 0; i < ops.size(); ++i) {
         const Bits b = eval(ops[i], args);
         if (!same_env(e0, env()) && bad.empty()) { bad = std::string(ops[i].f->name) + " call " + std::to_string(i) + " in a directed rounding mode changed the floating-point environment"; }
         if (k == 0) { first.push_back(b); }
         else if (!same(first[i], b) && bad.empty()) { bad = std::string(ops[i].f->name) + " call " + std::to_string(i) + " repeated in a directed rounding mode: " + show_bits(first[i]) + ", then " + show_bits(b); }
      }
   }
   fesetround(FE_TONEAREST);
   return bad;
}

/// runs f in a child process, returns what it wrote
bool in_child(const std::vector<Op>& ops, bool history, int fill, int threads, std::string& out, std::string& err, const std::string& stages = "")
{
   int fd[2];
   if (pipe(fd) != 0) { err = ""; return false; }
   const pid_t pid = fork();
   if (pid < 0) { close(fd[0]); close(fd[1]); err = ""; return false; }
   if (pid == 0) {
      close(fd[0]);
      for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF }) { signal(s, SIG_DFL); }
      const rlimit rl = { 20, 25 };
      setrlimit(RLIMIT_CPU, &rl);
      if (!stages.empty()) {
         const itimerval off = { { 0, 0 }, { 0, 0 } };
         setitimer(ITIMER_PROF, &off, 0);
         setenv("MALLOC_PERTURB_", "165", 1); // freed memory is overwritten
         setenv("VERIF_STAGE_CASE", stages.c_str(), 1);
         setenv("VERIF_STAGE", fmt("%c%d", fill & 1 ? 'e' : 'm', fd[1]).c_str(), 1);
         execl("/proc/self/exe", "pbt", "stage", (char*)0);
         _exit(1);
      }
      std::string res, bad;
      bool args = true;
      const Env e0 = env();
      if (!history) {
         poison((unsigned char)fill);
         const Bits b = eval(ops.back(), args);
         res.assign((const char*)&b, sizeof b);
      } else {
         std::vector<Bits> first, second(ops.size());
         if (fill % 4 == 0) { bad = directed(ops, fill/4, args); }
         for (const Op& o : ops) { poison((unsigned char)fill); first.push_back(eval(o, args)); }
         for (size_t i = ops.size(); i-- > 0; ) {
            poison((unsigned char)~fill);
            second[i] = eval(ops[i], args);
            if (!same(first[i], second[i]) && bad.empty()) { bad = std::string(ops[i].f->name) + " call " + std::to_string(i) + " repeated: " + show_bits(first[i]) + ", then " + show_bits(second[i]); }
         }
         if (fill % 4 == 1 && bad.empty()) { bad = directed(ops, fill/4, args); }
         if (fill % 16 == 7 && bad.empty()) { // a long life: tens of thousands of calls
            const clock_t t0 = clock(); // only limits the length
            for (long k = 0; k < 40000 && bad.empty() && clock() - t0 < 2*CLOCKS_PER_SEC; ++k) {
               const size_t i = (size_t)k % ops.size();
               if (!same(first[i], eval(ops[i], args))) { bad = std::string(ops[i].f->name) + " call " + std::to_string(i) + " repeated: other result after some " + std::to_string(k) + " calls"; }
            }
         }
         if (threads > 1) {
            std::vector<Job> jobs(threads);
            std::vector<pthread_t> th(threads);
            for (int t = 0; t < threads; ++t) {
               jobs[t] = { &ops, ops.size()*(size_t)t/threads, (unsigned char)(fill + t), 3, &first, "" };
               pthread_create(&th[t], 0, thread_main, &jobs[t]);
            }
            for (int t = 0; t < threads; ++t) { pthread_join(th[t], 0); if (bad.empty()) { bad = jobs[t].bad; } }
         }
         res.assign((const char*)&first.back(), sizeof(Bits));
      }
      if (!args && bad.empty()) { bad = "argument modified"; }
      if (!same_env(e0, env()) && bad.empty()) { bad = "floating-point environment changed"; }
      res += bad;
      const ssize_t w = write(fd[1], res.data(), res.size());
      _exit(w == (ssize_t)res.size() ? 0 : 1);
   }
   close(fd[1]);
   char buf[4096];
   ssize_t k;
   out.clear();
   while ((k = read(fd[0], buf, sizeof buf)) > 0) { out.append(buf, k); }
   close(fd[0]);
   int st = 0;
   while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
   if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || out.size() < sizeof(Bits)) {
      err = fmt("child ended abnormally (status %d)", st);
      return false;
   }
   return true;
}

// ---- the stages of a process' life -------------------------------------------
// A fresh process evaluates the calls before all static initialisers (if asked
// to), in main(), and after all static destructors.

struct Stage { std::vector<Op> ops; std::vector<Bits> first; std::string bad; bool args = true; int fd = -1; };
Stage* stage = 0;

void stage_eval(const char* when)
{
   Stage& s = *stage;
   for (size_t i = 0; i < s.ops.size(); ++i) {
      poison(0x3c);
      const Bits b = eval(s.ops[i], s.args);
      if (s.first.size() <= i) { s.first.push_back(b); }
      else if (!same(s.first[i], b) && s.bad.empty()) { s.bad = std::string(s.ops[i].f->name) + " call " + std::to_string(i) + " " + when + ": " + show_bits(b) + ", earlier " + show_bits(s.first[i]); }
   }
}

void stage_last()
{
   stage_eval("after the destructors of static objects");
   if (!stage->args && stage->bad.empty()) { stage->bad = "argument modified"; }
   const std::string res = std::string((const char*)&stage->first.back(), sizeof(Bits)) + stage->bad;
   const ssize_t w = write(stage->fd, res.data(), res.size());
   _exit(w == (ssize_t)res.size() ? 0 : 1);
}

__attribute__((constructor(101))) void stage_first()
{
   const char* e = getenv("VERIF_STAGE");
   const char* l = getenv("VERIF_STAGE_CASE");
   Case c;
   if (!e || !l || !from_line(l, c)) { return; }
   const rlimit rl = { 20, 25 };
   setrlimit(RLIMIT_CPU, &rl);
   stage = new Stage;
   stage->ops = ops_of(c);
   stage->fd = atoi(e + 1);
   if (stage->ops.empty()) { _exit(3); }
   atexit(stage_last); // everything that is registered later is destroyed earlier
   if (*e == 'e') { stage_eval("before static initialisation"); }
}

LD any_arg(Rng& g, const Fn& f)
{
   if (g.below(24) == 0) { const LD b[] = { NAN, INFINITY, -INFINITY, 0.0L, -0.0L }; return b[g.below(5)]; }
   return f.fam == CL || f.fam == SL ? gen::cl_real(g, f.prec) : gen::li_real(g, f.prec);
}

void push(Case& c, int64_t f, int64_t n, LD a, LD b) { c.n.push_back(f); c.n.push_back(n); c.x.push_back(a); c.x.push_back(b); }

Case gen_hist(Rng& g, bool conc)
{
   const std::vector<Fn>& fs = all_functions();
   Case c;
   c.sub = conc ? "CONC" : "HIST";
   c.prec = 64;
   const int len = g.below(12) == 0 ? (int)g.range(50, 300) : (int)g.range(1, 24);
   int64_t bf = 0, bn = 1;
   LD ba = 0, bb = 0;
   // a few functions of interest per history
   int64_t pal[3];
   for (int64_t& p : pal) {
      p = g.below(fs.size());
      if (g.below(3) == 0) { for (size_t i = 0; i < fs.size(); ++i) { const size_t k = (i + p) % fs.size(); if (fs[k].kind == NC2C || fs[k].kind == NR2R) { p = k; break; } } }
   }
   for (int i = 0; i < len; ++i) {
      if (i == 0 || g.below(4) == 0) { // new base
         bf = pal[g.below(3)];
         const Fn& f = fs[bf];
         bn = f.kind == NC2C ? (g.coin() ? gen::order_pos(g) : gen::order_neg(g)) : f.kind == NR2R ? gen::order_pos(g)
            : f.kind == N2R ? (g.coin() ? g.range(-300, 300) : (int64_t)g.next()) : 0;
         ba = any_arg(g, f);
         bb = any_arg(g, f);
         if (f.kind == C2C || f.kind == NC2C) { gen::li_cplx(g, f.prec, ba, bb); }
         push(c, bf, bn, ba, bb);
         continue;
      }
      // something related to the base
      int64_t k = bf, n = bn;
      LD a = ba, b = bb;
      const Fn& f = fs[bf];
      switch (g.below(11)) {
         case 0: break; // exactly the same again
         case 1: a = -a; break;
         case 2: b = -b; break;
         case 3: b = any_arg(g, f); break; // same real part
         case 4: a = any_arg(g, f); break; // same imaginary part
         case 5: n = n < INT64_MAX - 1 ? n + g.range(1, 2) : n; break;
         case 6: n = (int64_t)((uint64_t)n ^ ((uint64_t)1 << g.below(64))); break;
         case 7: if (std::isfinite(a)) { a = ulp_step(f.prec, a, (int)g.range(-2, 2)); } break;
         case 8: k = pal[g.below(3)]; break;
         case 10: n = (int64_t)((uint64_t)n + (uint64_t)gen::dict_int(g)); if (bn > 0 && n < 1) { n = bn; } break;
         default: if (std::isfinite(a) && a != 0) { a = round_to(f.prec, 1/a); } break;
      }
      const Fn& f2 = fs[k];
      push(c, k, n, round_to(f2.prec, a), round_to(f2.prec, b));
   }
   return c;
}

} // namespace

static Case gen_c19(Rng& g) { return gen_hist(g, false); }

static void check_c19(const Case& c, Report& r)
{
   const std::vector<Op> ops = ops_of(c);
   if (ops.empty()) { return; }
   r.nontrivial = ops.size() > 1;
   r.label = fmt("%s/%s", c.sub.c_str(), ops.size() == 1 ? "1" : ops.size() < 10 ? "2-9" : ops.size() < 30 ? "10-29" : "30+");
   const unsigned h = (unsigned)hash_case(c);
   std::string fresh, fresh2, hist, err;
   if (!in_child(ops, false, h & 255, 1, fresh, err)) { if (!err.empty()) { r.fail("single call: " + err); } return; }
   if (h % 8 == 0) {
      if (!in_child(ops, false, ~h & 255, 1, fresh2, err)) { if (!err.empty()) { r.fail("single call: " + err); } return; }
      if (fresh.substr(0, sizeof(Bits)) != fresh2.substr(0, sizeof(Bits))) {
         Bits a, b;
         memcpy(&a, fresh.data(), sizeof a); memcpy(&b, fresh2.data(), sizeof b);
         if (!same(a, b)) { r.fail(std::string(ops.back().f->name) + " depends on stack contents: " + show_bits(a) + " / " + show_bits(b)); return; }
      }
   }
   if (!in_child(ops, true, (h >> 8) & 255, h % 4 == 1 ? 4 : 1, hist, err)) { if (!err.empty()) { r.fail("history: " + err); } return; }
   std::string life = fresh.substr(0, sizeof(Bits));
   if (h % 16 == 3 && !in_child(ops, true, h >> 8, 1, life, err, to_line(c))) { if (!err.empty()) { r.fail("before main(), in it, or after it: " + err); } return; }
   Bits a, b, d;
   memcpy(&a, fresh.data(), sizeof a);
   memcpy(&b, hist.data(), sizeof b);
   memcpy(&d, life.data(), sizeof d);
   if (life.size() > sizeof d) { r.fail(life.substr(sizeof d)); }
   else if (!same(a, d)) { r.fail(std::string(ops.back().f->name) + " returns " + show_bits(a) + " in a fresh process, but " + show_bits(d) + " at the start of another one"); }
   else if (fresh.size() > sizeof a) { r.fail(std::string(ops.back().f->name) + ": " + fresh.substr(sizeof a)); }
   else if (hist.size() > sizeof b) { r.fail(hist.substr(sizeof b)); }
   else if (!same(a, b)) {
      r.fail(std::string(ops.back().f->name) + " returns " + show_bits(a) + " in a fresh process, but " + show_bits(b) + " after " + std::to_string(ops.size() - 1) + " other calls");
   }
}

// four threads without any synchronisation, for the thread sanitizer build
static Case gen_conc(Rng& g) { return gen_hist(g, true); }

static void check_conc(const Case& c, Report& r)
{
   const std::vector<Op> ops = ops_of(c);
   if (ops.empty()) { return; }
   r.nontrivial = true;
   r.label = "CONC";
   Job jobs[4];
   pthread_t th[4];
   for (int t = 0; t < 4; ++t) {
      jobs[t] = { &ops, ops.size()*(size_t)t/4, (unsigned char)t, 2, 0, "" };
      pthread_create(&th[t], 0, thread_main, &jobs[t]);
   }
   for (int t = 0; t < 4; ++t) { pthread_join(th[t], 0); if (!jobs[t].bad.empty()) { r.fail(jobs[t].bad); } }
}

int stage_main() { stage_eval("in main()"); return 0; }

const std::vector<Prop>& hist_props()
{
   static const std::vector<Prop> v = { { "C19", gen_c19, check_c19, "" }, { "C19T", gen_conc, check_conc, "" } };
   return v;
}
