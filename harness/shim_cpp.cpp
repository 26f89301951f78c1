// one thin wrapper per entry point under test
#include "api.hpp"
#include "Li.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Cl.hpp"
#include "Cl1.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Sl.hpp"
#include "zeta.hpp"
#include "eta.hpp"
#include "factorial.hpp"
#include "harmonic.hpp"
#include "log.hpp"
#include <complex>
namespace P = polylogarithm;
extern "C" {
void c_li2f(int64_t, const LD*, LD*, LD*);
void c_cli2f(int64_t, const LD*, LD*, LD*);
void c_li2(int64_t, const LD*, LD*, LD*);
void c_cli2(int64_t, const LD*, LD*, LD*);
void c_li2l(int64_t, const LD*, LD*, LD*);
void c_cli2l(int64_t, const LD*, LD*, LD*);
void c_li3(int64_t, const LD*, LD*, LD*);
void c_li4(int64_t, const LD*, LD*, LD*);
void c_cli3(int64_t, const LD*, LD*, LD*);
void c_cli3l(int64_t, const LD*, LD*, LD*);
void c_cli4(int64_t, const LD*, LD*, LD*);
void c_cli4l(int64_t, const LD*, LD*, LD*);
void c_cli5(int64_t, const LD*, LD*, LD*);
void c_cli5l(int64_t, const LD*, LD*, LD*);
void c_cli6(int64_t, const LD*, LD*, LD*);
void c_cli6l(int64_t, const LD*, LD*, LD*);
void c_cl2(int64_t, const LD*, LD*, LD*);
void c_cl2l(int64_t, const LD*, LD*, LD*);
void c_cl3(int64_t, const LD*, LD*, LD*);
void c_cl3l(int64_t, const LD*, LD*, LD*);
void c_cl4(int64_t, const LD*, LD*, LD*);
void c_cl4l(int64_t, const LD*, LD*, LD*);
void c_cl5(int64_t, const LD*, LD*, LD*);
void c_cl5l(int64_t, const LD*, LD*, LD*);
void c_cl6(int64_t, const LD*, LD*, LD*);
void c_cl6l(int64_t, const LD*, LD*, LD*);
void c_clog1p(int64_t, const LD*, LD*, LD*);
void c_pos_clog(int64_t, const LD*, LD*, LD*);
void c_clog1pl(int64_t, const LD*, LD*, LD*);
void c_pos_clogl(int64_t, const LD*, LD*, LD*);
void w_dli2(double*, double*);
void w_dli3(double*, double*);
void w_dli4(double*, double*);
void w_cdli2(double*, double*, double*);
void w_cdli3(double*, double*, double*);
void w_cdli4(double*, double*, double*);
void w_cdli5(double*, double*, double*);
void w_cdli6(double*, double*, double*);
void w_dcl2(double*, double*);
void w_dcl3(double*, double*);
void w_dcl4(double*, double*);
void w_dcl5(double*, double*);
void w_dcl6(double*, double*);
void c_cdlog1p(int64_t, const LD*, LD*, LD*);
void c_pos_cdlog(int64_t, const LD*, LD*, LD*);
int c_has(int);
}

static void cpp_li2_rf(int64_t, const LD* i, LD* o, LD* a) { float x = (float)i[0]; o[0] = P::Li2(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_li2_cf(int64_t, const LD* i, LD* o, LD* a) { std::complex<float> z((float)i[0], (float)i[1]); const std::complex<float> r = P::Li2(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li2_rd(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Li2(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_li2_cd(int64_t, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::Li2(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li2_rl(int64_t, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; o[0] = P::Li2(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_li2_cl(int64_t, const LD* i, LD* o, LD* a) { std::complex<long double> z((long double)i[0], (long double)i[1]); const std::complex<long double> r = P::Li2(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li3_rd(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Li3(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_li4_rd(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Li4(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_li3_cd(int64_t, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::Li3(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li3_cl(int64_t, const LD* i, LD* o, LD* a) { std::complex<long double> z((long double)i[0], (long double)i[1]); const std::complex<long double> r = P::Li3(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li4_cd(int64_t, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::Li4(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li4_cl(int64_t, const LD* i, LD* o, LD* a) { std::complex<long double> z((long double)i[0], (long double)i[1]); const std::complex<long double> r = P::Li4(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li5_cd(int64_t, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::Li5(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li5_cl(int64_t, const LD* i, LD* o, LD* a) { std::complex<long double> z((long double)i[0], (long double)i[1]); const std::complex<long double> r = P::Li5(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li6_cd(int64_t, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::Li6(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li6_cl(int64_t, const LD* i, LD* o, LD* a) { std::complex<long double> z((long double)i[0], (long double)i[1]); const std::complex<long double> r = P::Li6(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_cl1_d(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Cl1(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl2_d(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Cl2(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl2_l(int64_t, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; o[0] = P::Cl2(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl3_d(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Cl3(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl3_l(int64_t, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; o[0] = P::Cl3(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl4_d(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Cl4(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl4_l(int64_t, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; o[0] = P::Cl4(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl5_d(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Cl5(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl5_l(int64_t, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; o[0] = P::Cl5(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl6_d(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Cl6(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_cl6_l(int64_t, const LD* i, LD* o, LD* a) { long double x = (long double)i[0]; o[0] = P::Cl6(x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_log1p_f(int64_t, const LD* i, LD* o, LD* a) { std::complex<float> z((float)i[0], (float)i[1]); const std::complex<float> r = P::log1p(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_pos_log_f(int64_t, const LD* i, LD* o, LD* a) { std::complex<float> z((float)i[0], (float)i[1]); const std::complex<float> r = P::pos_log(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_log1p_d(int64_t, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::log1p(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_pos_log_d(int64_t, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::pos_log(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_log1p_l(int64_t, const LD* i, LD* o, LD* a) { std::complex<long double> z((long double)i[0], (long double)i[1]); const std::complex<long double> r = P::log1p(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_pos_log_l(int64_t, const LD* i, LD* o, LD* a) { std::complex<long double> z((long double)i[0], (long double)i[1]); const std::complex<long double> r = P::pos_log(z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_li_n(int64_t n, const LD* i, LD* o, LD* a) { std::complex<double> z((double)i[0], (double)i[1]); const std::complex<double> r = P::Li(n, z); o[0] = r.real(); o[1] = r.imag(); a[0] = z.real(); a[1] = z.imag(); }
static void cpp_Cl_n(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Cl(n, x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_Sl_n(int64_t n, const LD* i, LD* o, LD* a) { double x = (double)i[0]; o[0] = P::Sl(n, x); o[1] = 0; a[0] = x; a[1] = i[1]; }
static void cpp_zeta(int64_t n, const LD* i, LD* o, LD* a) { o[0] = P::zeta(n); o[1] = 0; a[0] = i[0]; a[1] = i[1]; }
static void cpp_neg_eta(int64_t n, const LD* i, LD* o, LD* a) { o[0] = P::neg_eta(n); o[1] = 0; a[0] = i[0]; a[1] = i[1]; }
static void cpp_inv_fac(int64_t n, const LD* i, LD* o, LD* a) { o[0] = P::inv_fac(n); o[1] = 0; a[0] = i[0]; a[1] = i[1]; }
static void cpp_harmonic(int64_t n, const LD* i, LD* o, LD* a) { o[0] = P::harmonic(n); o[1] = 0; a[0] = i[0]; a[1] = i[1]; }
static void f_dli2(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dli2(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }
static void f_dli3(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dli3(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }
static void f_dli4(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dli4(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }
static void f_cdli2(int64_t, const LD* i, LD* o, LD* a) { double z[2] = { (double)i[0], (double)i[1] }, re, im; w_cdli2(z, &re, &im); o[0] = re; o[1] = im; a[0] = z[0]; a[1] = z[1]; }
static void f_cdli3(int64_t, const LD* i, LD* o, LD* a) { double z[2] = { (double)i[0], (double)i[1] }, re, im; w_cdli3(z, &re, &im); o[0] = re; o[1] = im; a[0] = z[0]; a[1] = z[1]; }
static void f_cdli4(int64_t, const LD* i, LD* o, LD* a) { double z[2] = { (double)i[0], (double)i[1] }, re, im; w_cdli4(z, &re, &im); o[0] = re; o[1] = im; a[0] = z[0]; a[1] = z[1]; }
static void f_cdli5(int64_t, const LD* i, LD* o, LD* a) { double z[2] = { (double)i[0], (double)i[1] }, re, im; w_cdli5(z, &re, &im); o[0] = re; o[1] = im; a[0] = z[0]; a[1] = z[1]; }
static void f_cdli6(int64_t, const LD* i, LD* o, LD* a) { double z[2] = { (double)i[0], (double)i[1] }, re, im; w_cdli6(z, &re, &im); o[0] = re; o[1] = im; a[0] = z[0]; a[1] = z[1]; }
static void f_dcl2(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dcl2(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }
static void f_dcl3(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dcl3(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }
static void f_dcl4(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dcl4(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }
static void f_dcl5(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dcl5(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }
static void f_dcl6(int64_t, const LD* i, LD* o, LD* a) { double x = (double)i[0], r; w_dcl6(&x, &r); o[0] = r; o[1] = 0; a[0] = x; a[1] = i[1]; }

static const std::vector<Fn>& declared_functions()
{
   static const std::vector<Fn> v = {
      { "C++ Li2(float)", CPP, LI, R2R, 2, 24, cpp_li2_rf },
      { "C++ Li2(complex<float>)", CPP, LI, C2C, 2, 24, cpp_li2_cf },
      { "C++ Li2(double)", CPP, LI, R2R, 2, 53, cpp_li2_rd },
      { "C++ Li2(complex<double>)", CPP, LI, C2C, 2, 53, cpp_li2_cd },
      { "C++ Li2(long double)", CPP, LI, R2R, 2, 64, cpp_li2_rl },
      { "C++ Li2(complex<long double>)", CPP, LI, C2C, 2, 64, cpp_li2_cl },
      { "C++ Li3(double)", CPP, LI, R2R, 3, 53, cpp_li3_rd },
      { "C++ Li4(double)", CPP, LI, R2R, 4, 53, cpp_li4_rd },
      { "C++ Li3(complex<double>)", CPP, LI, C2C, 3, 53, cpp_li3_cd },
      { "C++ Li3(complex<long double>)", CPP, LI, C2C, 3, 64, cpp_li3_cl },
      { "C++ Li4(complex<double>)", CPP, LI, C2C, 4, 53, cpp_li4_cd },
      { "C++ Li4(complex<long double>)", CPP, LI, C2C, 4, 64, cpp_li4_cl },
      { "C++ Li5(complex<double>)", CPP, LI, C2C, 5, 53, cpp_li5_cd },
      { "C++ Li5(complex<long double>)", CPP, LI, C2C, 5, 64, cpp_li5_cl },
      { "C++ Li6(complex<double>)", CPP, LI, C2C, 6, 53, cpp_li6_cd },
      { "C++ Li6(complex<long double>)", CPP, LI, C2C, 6, 64, cpp_li6_cl },
      { "C++ Cl1(double)", CPP, CL, R2R, 1, 53, cpp_cl1_d },
      { "C++ Cl2(double)", CPP, CL, R2R, 2, 53, cpp_cl2_d },
      { "C++ Cl2(long double)", CPP, CL, R2R, 2, 64, cpp_cl2_l },
      { "C++ Cl3(double)", CPP, CL, R2R, 3, 53, cpp_cl3_d },
      { "C++ Cl3(long double)", CPP, CL, R2R, 3, 64, cpp_cl3_l },
      { "C++ Cl4(double)", CPP, CL, R2R, 4, 53, cpp_cl4_d },
      { "C++ Cl4(long double)", CPP, CL, R2R, 4, 64, cpp_cl4_l },
      { "C++ Cl5(double)", CPP, CL, R2R, 5, 53, cpp_cl5_d },
      { "C++ Cl5(long double)", CPP, CL, R2R, 5, 64, cpp_cl5_l },
      { "C++ Cl6(double)", CPP, CL, R2R, 6, 53, cpp_cl6_d },
      { "C++ Cl6(long double)", CPP, CL, R2R, 6, 64, cpp_cl6_l },
      { "C++ log1p(complex<float>)", CPP, LOG1P, C2C, 1, 24, cpp_log1p_f },
      { "C++ pos_log(complex<float>)", CPP, POSLOG, C2C, 1, 24, cpp_pos_log_f },
      { "C++ log1p(complex<double>)", CPP, LOG1P, C2C, 1, 53, cpp_log1p_d },
      { "C++ pos_log(complex<double>)", CPP, POSLOG, C2C, 1, 53, cpp_pos_log_d },
      { "C++ log1p(complex<long double>)", CPP, LOG1P, C2C, 1, 64, cpp_log1p_l },
      { "C++ pos_log(complex<long double>)", CPP, POSLOG, C2C, 1, 64, cpp_pos_log_l },
      { "C++ Li(n,complex<double>)", CPP, LI, NC2C, 0, 53, cpp_li_n },
      { "C++ Cl(n,double)", CPP, CL, NR2R, 0, 53, cpp_Cl_n },
      { "C++ Sl(n,double)", CPP, SL, NR2R, 0, 53, cpp_Sl_n },
      { "C++ zeta(n)", CPP, ZETA, N2R, 0, 53, cpp_zeta },
      { "C++ neg_eta(n)", CPP, NEGETA, N2R, 0, 53, cpp_neg_eta },
      { "C++ inv_fac(n)", CPP, INVFAC, N2R, 0, 53, cpp_inv_fac },
      { "C++ harmonic(n)", CPP, HARM, N2R, 0, 53, cpp_harmonic },
      { "C li2f", CLANG, LI, R2R, 2, 24, c_li2f },
      { "C cli2f", CLANG, LI, C2C, 2, 24, c_cli2f },
      { "C li2", CLANG, LI, R2R, 2, 53, c_li2 },
      { "C cli2", CLANG, LI, C2C, 2, 53, c_cli2 },
      { "C li2l", CLANG, LI, R2R, 2, 64, c_li2l },
      { "C cli2l", CLANG, LI, C2C, 2, 64, c_cli2l },
      { "C li3", CLANG, LI, R2R, 3, 53, c_li3 },
      { "C li4", CLANG, LI, R2R, 4, 53, c_li4 },
      { "C cli3", CLANG, LI, C2C, 3, 53, c_cli3 },
      { "C cli3l", CLANG, LI, C2C, 3, 64, c_cli3l },
      { "C cli4", CLANG, LI, C2C, 4, 53, c_cli4 },
      { "C cli4l", CLANG, LI, C2C, 4, 64, c_cli4l },
      { "C cli5", CLANG, LI, C2C, 5, 53, c_cli5 },
      { "C cli5l", CLANG, LI, C2C, 5, 64, c_cli5l },
      { "C cli6", CLANG, LI, C2C, 6, 53, c_cli6 },
      { "C cli6l", CLANG, LI, C2C, 6, 64, c_cli6l },
      { "C cl2", CLANG, CL, R2R, 2, 53, c_cl2 },
      { "C cl2l", CLANG, CL, R2R, 2, 64, c_cl2l },
      { "C cl3", CLANG, CL, R2R, 3, 53, c_cl3 },
      { "C cl3l", CLANG, CL, R2R, 3, 64, c_cl3l },
      { "C cl4", CLANG, CL, R2R, 4, 53, c_cl4 },
      { "C cl4l", CLANG, CL, R2R, 4, 64, c_cl4l },
      { "C cl5", CLANG, CL, R2R, 5, 53, c_cl5 },
      { "C cl5l", CLANG, CL, R2R, 5, 64, c_cl5l },
      { "C cl6", CLANG, CL, R2R, 6, 53, c_cl6 },
      { "C cl6l", CLANG, CL, R2R, 6, 64, c_cl6l },
      { "C clog1p", CLANG, LOG1P, C2C, 1, 53, c_clog1p },
      { "C pos_clog", CLANG, POSLOG, C2C, 1, 53, c_pos_clog },
      { "C clog1pl", CLANG, LOG1P, C2C, 1, 64, c_clog1pl },
      { "C pos_clogl", CLANG, POSLOG, C2C, 1, 64, c_pos_clogl },
      { "Fortran dli2", FORT, LI, R2R, 2, 53, f_dli2 },
      { "Fortran dli3", FORT, LI, R2R, 3, 53, f_dli3 },
      { "Fortran dli4", FORT, LI, R2R, 4, 53, f_dli4 },
      { "Fortran cdli2", FORT, LI, C2C, 2, 53, f_cdli2 },
      { "Fortran cdli3", FORT, LI, C2C, 3, 53, f_cdli3 },
      { "Fortran cdli4", FORT, LI, C2C, 4, 53, f_cdli4 },
      { "Fortran cdli5", FORT, LI, C2C, 5, 53, f_cdli5 },
      { "Fortran cdli6", FORT, LI, C2C, 6, 53, f_cdli6 },
      { "Fortran dcl2", FORT, CL, R2R, 2, 53, f_dcl2 },
      { "Fortran dcl3", FORT, CL, R2R, 3, 53, f_dcl3 },
      { "Fortran dcl4", FORT, CL, R2R, 4, 53, f_dcl4 },
      { "Fortran dcl5", FORT, CL, R2R, 5, 53, f_dcl5 },
      { "Fortran dcl6", FORT, CL, R2R, 6, 53, f_dcl6 },
      { "Fortran cdlog1p", FORT, LOG1P, C2C, 1, 53, c_cdlog1p },
      { "Fortran pos_cdlog", FORT, POSLOG, C2C, 1, 53, c_pos_cdlog },
   };
   return v;
}

const std::vector<Fn>& all_functions()
{
   static const std::vector<Fn> v = [] {
      std::vector<Fn> r;
      for (const Fn& f : declared_functions()) {
         const int w = f.call == c_clog1p ? 0 : f.call == c_clog1pl ? 1 : f.call == c_pos_clog ? 2
            : f.call == c_pos_clogl ? 3 : f.call == c_cdlog1p ? 4 : f.call == c_pos_cdlog ? 5 : -1;
         if (w < 0 || c_has(w)) { r.push_back(f); }
      }
      return r;
   }();
   return v;
}
