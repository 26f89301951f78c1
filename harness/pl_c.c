/* Extended-precision C functions, see pl_cpp.cpp */
#include "Li2.h"
#include "Li3.h"
#include "Li4.h"
#include "Li5.h"
#include "Li6.h"
#include "Cl2.h"
#include "Cl3.h"
#include "Cl4.h"
#include "Cl5.h"
#include "Cl6.h"
typedef long double L;
int pl_digits_c(void) { return __LDBL_MANT_DIG__; }
void pl_c(int fn, const L* i, L* o)
{
   const long double _Complex z = __builtin_complex(i[0], i[1]);
   long double _Complex r = 0;
   switch (fn) {
      case 0: r = li2l(i[0]); break;
      case 2: r = cli2l(z); break;
      case 3: r = cli3l(z); break;
      case 4: r = cli4l(z); break;
      case 5: r = cli5l(z); break;
      case 6: r = cli6l(z); break;
      case 12: r = cl2l(i[0]); break;
      case 13: r = cl3l(i[0]); break;
      case 14: r = cl4l(i[0]); break;
      case 15: r = cl5l(i[0]); break;
      case 16: r = cl6l(i[0]); break;
   }
   o[0] = __real__ r;
   o[1] = __imag__ r;
}
