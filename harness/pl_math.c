/* The mathematical functions of <math.h> and <complex.h> for a long double
   that is a double (PL == 64) or an IEEE quadruple number (PL == 128).  The
   references to logl, ... in the library are renamed to pl_logl, ... */
#include <math.h>
#include <complex.h>
#include <quadmath.h>
#if PL == 64
typedef double T;
typedef double _Complex Z;
#define M(f) f
#else
typedef __float128 T;
typedef __complex128 Z;
#define M(f) f##q
#endif
#define F1(f) T pl_##f##l(T x) { return M(f)(x); }
#define F2(f) T pl_##f##l(T x, T y) { return M(f)(x, y); }
#define Z1(f) Z pl_##f##l(Z x) { return M(f)(x); }
F1(acos) F1(acosh) F1(asin) F1(asinh) F1(atan) F1(atanh) F1(cbrt) F1(ceil) F1(cos) F1(cosh) F1(erf) F1(erfc) F1(exp) F1(exp2)
F1(expm1) F1(fabs) F1(floor) F1(lgamma) F1(log) F1(log10) F1(log1p) F1(log2) F1(logb) F1(nearbyint) F1(rint) F1(round) F1(sin)
F1(sinh) F1(sqrt) F1(tan) F1(tanh) F1(tgamma) F1(trunc)
F2(atan2) F2(copysign) F2(fdim) F2(fmax) F2(fmin) F2(fmod) F2(hypot) F2(nextafter) F2(pow) F2(remainder)
Z1(cexp) Z1(clog) Z1(csqrt) Z1(csin) Z1(ccos) Z1(ctan) Z1(csinh) Z1(ccosh) Z1(ctanh) Z1(casin) Z1(cacos) Z1(catan) Z1(casinh) Z1(cacosh) Z1(catanh)
Z1(cproj)
T pl_cabsl(Z z) { return M(cabs)(z); }
T pl_cargl(Z z) { return M(carg)(z); }
T pl_creall(Z z) { return __real__ z; }
T pl_cimagl(Z z) { return __imag__ z; }
Z pl_conjl(Z z) { return ~z; }
Z pl_cpowl(Z z, Z w) { return M(cpow)(z, w); }
T pl_fmal(T x, T y, T z) { return M(fma)(x, y, z); }
T pl_ldexpl(T x, int n) { return M(ldexp)(x, n); }
T pl_scalbnl(T x, int n) { return M(scalbn)(x, n); }
T pl_scalblnl(T x, long n) { return M(scalbln)(x, n); }
T pl_frexpl(T x, int* n) { return M(frexp)(x, n); }
T pl_modfl(T x, T* y) { return M(modf)(x, y); }
T pl_remquol(T x, T y, int* q) { return M(remquo)(x, y, q); }
void pl_sincosl(T x, T* s, T* c) { *s = M(sin)(x); *c = M(cos)(x); }
int pl_ilogbl(T x) { return M(ilogb)(x); }
long pl_lrintl(T x) { return M(lrint)(x); }
long pl_lroundl(T x) { return M(lround)(x); }
long long pl_llrintl(T x) { return M(llrint)(x); }
long long pl_llroundl(T x) { return M(llround)(x); }
