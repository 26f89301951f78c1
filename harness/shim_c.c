/* one thin wrapper per entry point under test */
#include "Li2.h"
#include "Li3.h"
#include "Li4.h"
#include "Li5.h"
#include "Li6.h"
#include "Cl2.h"
#include "Cl3.h"
#include "Cl4.h"
#include "Cl5.h"
#include "Cl6.h"
#include <complex.h>
#include <stdint.h>
typedef long double LD;
/* internal helpers: weak, so that renaming them does not break the harness */
extern double _Complex clog1p(double _Complex) __attribute__((weak));
extern long double _Complex clog1pl(long double _Complex) __attribute__((weak));
extern double _Complex pos_clog(double _Complex) __attribute__((weak));
extern long double _Complex pos_clogl(long double _Complex) __attribute__((weak));
extern double _Complex cdlog1p_(double _Complex*) __attribute__((weak));
extern double _Complex pos_cdlog_(double _Complex*) __attribute__((weak));
int c_has(int which)
{
   switch (which) {
      case 0: return clog1p != 0;
      case 1: return clog1pl != 0;
      case 2: return pos_clog != 0;
      case 3: return pos_clogl != 0;
      case 4: return cdlog1p_ != 0;
      case 5: return pos_cdlog_ != 0;
   }
   return 0;
}
#define CX(T, r, i) __builtin_complex((T)(r), (T)(i))

void c_li2f(int64_t n, const LD* i, LD* o, LD* a) { float x = (float)i[0]; (void)n; o[0] = li2f(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cli2f(int64_t n, const LD* i, LD* o, LD* a) { float _Complex z = CX(float, i[0], i[1]); (void)n; float _Complex r = cli2f(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_li2(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = li2(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cli2(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = cli2(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_li2l(int64_t n, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; (void)n; o[0] = li2l(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cli2l(int64_t n, const LD* i, LD* o, LD* a) { long double _Complex z = CX(long double, i[0], i[1]); (void)n; long double _Complex r = cli2l(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_li3(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = li3(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_li4(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = li4(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cli3(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = cli3(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cli3l(int64_t n, const LD* i, LD* o, LD* a) { long double _Complex z = CX(long double, i[0], i[1]); (void)n; long double _Complex r = cli3l(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cli4(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = cli4(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cli4l(int64_t n, const LD* i, LD* o, LD* a) { long double _Complex z = CX(long double, i[0], i[1]); (void)n; long double _Complex r = cli4l(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cli5(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = cli5(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cli5l(int64_t n, const LD* i, LD* o, LD* a) { long double _Complex z = CX(long double, i[0], i[1]); (void)n; long double _Complex r = cli5l(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cli6(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = cli6(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cli6l(int64_t n, const LD* i, LD* o, LD* a) { long double _Complex z = CX(long double, i[0], i[1]); (void)n; long double _Complex r = cli6l(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_cl2(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = cl2(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl2l(int64_t n, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; (void)n; o[0] = cl2l(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl3(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = cl3(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl3l(int64_t n, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; (void)n; o[0] = cl3l(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl4(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = cl4(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl4l(int64_t n, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; (void)n; o[0] = cl4l(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl5(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = cl5(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl5l(int64_t n, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; (void)n; o[0] = cl5l(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl6(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; (void)n; o[0] = cl6(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_cl6l(int64_t n, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; (void)n; o[0] = cl6l(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
void c_clog1p(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = clog1p(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_pos_clog(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = pos_clog(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_clog1pl(int64_t n, const LD* i, LD* o, LD* a) { long double _Complex z = CX(long double, i[0], i[1]); (void)n; long double _Complex r = clog1pl(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_pos_clogl(int64_t n, const LD* i, LD* o, LD* a) { long double _Complex z = CX(long double, i[0], i[1]); (void)n; long double _Complex r = pos_clogl(z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }

void c_cdlog1p(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = cdlog1p_(&z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
void c_pos_cdlog(int64_t n, const LD* i, LD* o, LD* a) { double _Complex z = CX(double, i[0], i[1]); (void)n; double _Complex r = pos_cdlog_(&z); o[0] = __real__ r; o[1] = __imag__ r; a[0] = __real__ z; a[1] = __imag__ z; }
