// Accuracy: comparison with the quadruple-precision reference.
#pragma once
#include "gen.hpp"

namespace acc {

double kfactor(const std::string& key); // largest accepted ratio

struct Group { Fam fam; Kind kind; int n; };
std::string group_name(const Group& g);
Group parse_group(const std::string& s);

/// reference value, scale for the tolerance (in units of eps)
struct Expect {
   ref::C f;
   Q scale = 0, err = 0;
   bool singular = false;  // a pole or a log. singularity within the rounding error
};

Expect expect_li(int64_t n, LD re, LD im, int prec);
Expect expect_cl(bool sl, int64_t n, LD x, int prec);

/// (error - slack)/(eps scale); infinite if v is not finite
double ratio(const Val& v, const Expect& e, int prec);
std::string li_region(Kind kind, int64_t n, int prec, LD re, LD im);
std::string cl_region(int64_t n, int prec, LD x);
void check_fn(const Fn& f, int64_t n, const Case& c, const Expect& e, const std::string& key, Report& r);

}
