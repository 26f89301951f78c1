// Extended-precision C++ functions, compiled with the same -mlong-double-N as
// the library under test (long double is a double or an IEEE quadruple number)
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include <complex>
using namespace polylogarithm;
typedef long double L;
typedef std::complex<L> Z;
extern "C" int pl_digits_cpp() { return __LDBL_MANT_DIG__; }
extern "C" void pl_cpp(int fn, const L* i, L* o)
{
   Z r;
   switch (fn) {
      case 0: r = Li2(i[0]); break;
      case 2: r = Li2(Z(i[0], i[1])); break;
      case 3: r = Li3(Z(i[0], i[1])); break;
      case 4: r = Li4(Z(i[0], i[1])); break;
      case 5: r = Li5(Z(i[0], i[1])); break;
      case 6: r = Li6(Z(i[0], i[1])); break;
      case 12: r = Cl2(i[0]); break;
      case 13: r = Cl3(i[0]); break;
      case 14: r = Cl4(i[0]); break;
      case 15: r = Cl5(i[0]); break;
      case 16: r = Cl6(i[0]); break;
   }
   o[0] = r.real();
   o[1] = r.imag();
}
