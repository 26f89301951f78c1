// calibrate PROP CASES SEED: largest error per key
#include "core.hpp"
const std::vector<Prop>& acc_props();
const std::vector<Prop>& meta_props();
const std::vector<Prop>& num_props();
const std::vector<Prop>& extra_props();
int main(int argc, char** argv)
{
   const long N = atol(argv[2]);
   Rng g(strtoull(argv[3], 0, 10)*7919 + 1);
   std::vector<Prop> ps = acc_props();
   ps.insert(ps.end(), meta_props().begin(), meta_props().end());
   ps.insert(ps.end(), num_props().begin(), num_props().end());
   ps.insert(ps.end(), extra_props().begin(), extra_props().end());
   long fails = 0;
   for (const Prop& p : ps) {
      if (std::string(argv[1]) != p.id) { continue; }
      std::map<std::string, Metric> m;
      for (long i = 0; i < N; ++i) {
         const Case c = p.gen(g);
         Report r;
         p.check(c, r);
         for (auto& k : r.metrics) {
            Metric& t = m[k.first];
            t.count++;
            if (k.second.first > t.max || t.count == 1) { t.max = k.second.first; t.at = c; }
         }
         if (!r.ok && fails++ < 20) { printf("FAIL %s  %s\n", to_line(c).c_str(), r.msg.c_str()); }
      }
      for (auto& k : m) { printf("%s\t%.4g\t%lu\t%s\n", k.first.c_str(), k.second.max, (unsigned long)k.second.count, to_line(k.second.at).c_str()); }
   }
}
