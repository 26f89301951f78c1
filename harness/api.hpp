// Uniform view of every entry point under test.  Values travel as long double
// (which holds float and double exactly), complex values as two of them.
#pragma once
#include <cstdint>
#include <vector>
#include <string>

enum Lang { CPP, CLANG, FORT };
enum Kind {
   R2R,   // real -> real
   C2C,   // complex -> complex
   NR2R,  // (n, real) -> real
   NC2C,  // (n, complex) -> complex
   N2R    // n -> real
};
enum Fam { LI, CL, SL, ZETA, NEGETA, INVFAC, HARM, LOG1P, POSLOG };

typedef long double LD;

struct Fn {
   const char* name;
   Lang lang;
   Fam fam;
   Kind kind;
   int n;      // order (0: argument)
   int prec;   // 24, 53, 64
   /// in/out: {re, im}; `after` receives the argument as the callee left it
   void (*call)(int64_t n, const LD* in, LD* out, LD* after);
};

const std::vector<Fn>& all_functions();
