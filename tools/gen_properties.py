#!/usr/bin/env python3
"""writes properties.jsonl (the texts are kept here)"""
import json, os
CPP = ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp", "src/cpp/Li5.cpp", "src/cpp/Li6.cpp"]
C = [f.replace("cpp", "c") for f in CPP]
F = ["src/fortran/Li%d.f90" % n for n in range(2, 7)]
CL = ["src/cpp/Cl%d.cpp" % n for n in range(1, 7)] + ["src/c/Cl%d.c" % n for n in range(2, 7)] + ["src/fortran/Cl%d.f90" % n for n in range(2, 7)]
CLN = ["src/cpp/Cl.cpp", "src/cpp/Cl1.cpp"] + ["src/cpp/%s.cpp" % n for n in ("zeta", "harmonic", "factorial")]
NUM = ["src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/factorial.cpp", "src/cpp/harmonic.cpp"]
LIN = ["src/cpp/Li.cpp"] + NUM
LOG = ["src/cpp/log.hpp", "src/c/log.h", "src/c/log.c", "src/fortran/log.f90"]
def m(*a): return [dict(name=n, where=w) for n, w in a]
GRID = "The tests compare a fixed table of points (a regular grid and a few special values) with a mixed absolute/relative tolerance; "
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mech)))

p("C01", "Real Li2, Li3, Li4 are accurate for every real argument",
  "For every finite real x, the real dilogarithm (single, double and extended precision), trilogarithm and Li4 (double precision) equal the real part of the exact Li_n(x) up to a bounded number of rounding errors of the precision, relative to |Li_n(x)|+|x Li_n'(x)|, in C++, C and Fortran. "
  "The bound is about 10 units of roundoff (a few hundred for Li4 between 1/2 and 2), and holds also for tiny, huge and subnormal arguments and next to the borders of the internal regions.",
  ["inputs"], "all finite real x of the three precisions",
  GRID + "a wrong branch, border or coefficient that matters only in a small interval, or the relative accuracy of small values, is not sampled.",
  ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp", "src/c/Li2.c", "src/c/Li3.c", "src/c/Li4.c", "src/fortran/Li2.f90", "src/fortran/Li3.f90", "src/fortran/Li4.f90"],
  m(("transformation to a small interval, then rational approximation", "real Li2/Li3/Li4"), ("coefficient tables", "top of the functions")))
p("C02", "Complex Li2..Li6 are accurate in single and double precision",
  "For every finite complex z, the complex polylogarithms of order 2 to 6 in double precision, and of order 2 in single precision, equal the exact Li_n(z) (principal value) up to a bounded number of rounding errors relative to |Li_n(z)|+|z Li_n'(z)|, in C++, C and Fortran. "
  "This includes |z| near 1, z near exp(+-i pi/3), tiny and huge |z|, and real or imaginary parts of very different size.",
  ["inputs"], "all finite complex z of the two precisions", GRID + "the plane is sampled by a few hundred points of moderate size.",
  CPP + C + F + LOG, m(("choice between series in log(z), series in log(1-z) and inversion", "Li2..Li6"), ("complex logarithms", "log helpers")))
p("C03", "Complex Li2..Li6 are accurate in extended precision",
  "For every finite complex z in extended precision (long double), the complex polylogarithms of order 2 to 6 equal the exact Li_n(z) up to a bounded number of rounding errors of that precision relative to |Li_n(z)|+|z Li_n'(z)|, in C++ and C.",
  ["inputs"], "all finite complex z in long double", GRID + "in long double only with a tolerance and at points that leave most regions and the last coefficients untested.",
  CPP + C, m(("long coefficient tables and Horner sums with a number of terms that depends on the precision", "long double versions of Li2..Li6")))
p("C04", "Li(n,z) is accurate for every order n >= 1",
  "For every 64-bit integer n >= 1 and every finite complex z, the polylogarithm of general order equals the exact Li_n(z) up to a bounded number of rounding errors of double precision relative to |Li_n(z)|+|z Li_n'(z)| (for n > 6 also times min(n,|ln|z||), the conditioning of the inversion formula), and the call returns. "
  "Li(1,z) = -ln(1-z), also for tiny |z|.",
  ["inputs"], "all n in [1, 2^63), all finite complex z", "The tests use orders up to about 100 and a grid of z of moderate size; overflow for large n, slow convergence near |z| = 1 and the borders between methods are not sampled.",
  LIN, m(("unit-circle series, series in z, inversion", "Li(n,z)"), ("Bernoulli/eta remainder", "Li(n,z) for large |z|")))
p("C05", "Li(n,z) is accurate for orders n <= 0",
  "For every integer n <= 0 and every finite complex z, Li_n(z) (a rational function with its only pole at z = 1) is returned up to a bounded number of rounding errors relative to |Li_n(z)|(1+|n|)+|z Li_n'(z)| (below n = -300, with an additional factor |n| close to zeros of Li_n); it overflows only if the exact value does, and then the components that are not representable are infinities with the right sign, never NaN.",
  ["inputs"], "all n <= 0, all finite complex z", "The tests use orders down to about -10 and a handful of z.",
  LIN, m(("series in z, series in ln z with Hurwitz terms, inversion", "Li(n,z), n < 0")))
p("C06", "Clausen functions Cl1..Cl6 are accurate in double precision",
  "For every finite real x (of a size for which x mod 2 pi is determined by x), Cl_1(x) to Cl_6(x) in double precision equal the exact values up to a bounded number of rounding errors relative to |Cl_n(x)| plus the effect of one rounding of x, in C++, C and Fortran, including arguments near 0, pi, 2 pi and their multiples.",
  ["inputs"], "all finite x, orders 1 to 6", GRID + "mostly on [0, 2 pi] with an absolute tolerance, so that neighbourhoods of the zeros and of the multiples of 2 pi are unchecked.",
  CL, m(("range reduction in extended precision", "range_reduce"), ("rational approximations on [0,pi/2] and [pi/2,pi]", "Cl2..Cl6")))
p("C07", "Clausen functions Cl2..Cl6 are accurate in extended precision",
  "For every finite real x in extended precision (of a size for which x mod 2 pi is determined by x), Cl_2(x) to Cl_6(x) equal the exact values up to a bounded number of rounding errors of that precision relative to |Cl_n(x)| plus the effect of one rounding of x (a few tens; a few hundred for Cl_6 near pi/2), in C++ and C.",
  ["inputs"], "all finite x in long double, orders 2 to 6", GRID + "last coefficients and the neighbourhoods of the zeros matter only in a few digits.",
  CL, m(("range reduction and rational approximations in long double", "Cl2..Cl6")))
p("C08", "Cl(n,x) is accurate for every order n >= 1",
  "For every 64-bit integer n >= 1 and every finite real x (of a size for which x mod 2 pi is determined), the general Clausen function equals sum cos(kx)/k^n (n odd) or sum sin(kx)/k^n (n even) up to a bounded number of rounding errors relative to its value plus the effect of one rounding of x.",
  ["inputs"], "all n in [1, 2^63), all finite x", "The tests use n up to about 16 and a grid of x.",
  CLN, m(("series for small orders with logarithm removed, direct sum for large orders", "Cl(n,x)")))
p("C09", "Sl(n,x) is accurate for every order n >= 1",
  "For every 64-bit integer n >= 1 and every finite real x (of a size for which x mod 2 pi is determined), the Glaisher-Clausen function equals sum sin(kx)/k^n (n odd) or sum cos(kx)/k^n (n even), the Bernoulli polynomial of x/(2 pi) up to a factor, up to a bounded number of rounding errors relative to its value plus the effect of one rounding of x.",
  ["inputs"], "all n in [1, 2^63), all finite x", "The tests use n up to about 30 and a grid of x.",
  ["src/cpp/Sl.cpp", "src/cpp/zeta.cpp", "src/cpp/factorial.cpp"], m(("Bernoulli polynomials for small orders, direct sum for large orders", "Sl(n,x)")))
p("C10", "Clausen functions have their parity and period exactly",
  "Cl_n and Sl_n are odd or even functions exactly: f(-x) = +-f(x). Shifting x by a multiple of 2 pi (as far as representable), or reflecting x -> 2 pi - x, changes the result only by rounding errors and by the effect of the rounding of the arguments, for fixed and general orders, both precisions, all languages.",
  ["inputs"], "all x, shifts by 2 pi k with |k| up to 10^5, all orders", "The tests sample few shifted points.",
  CL + CLN + ["src/cpp/Sl.cpp"], m(("sign handling and range reduction", "range_reduce, Cl(n,x), Sl(n,x)")))
p("C11", "On the branch cut the value from below the axis is returned",
  "For real z = x > 1 with imaginary part +0 or -0, every complex polylogarithm of order n >= 1 (fixed or general) returns the limit from below, with imaginary part -pi ln^(n-1)(x)/(n-1)!, identical for both zeros; for x < 1.39 (general orders), x < 2.7 (fixed orders) and n <= 3 this imaginary part has a small relative error. Off the axis, however close to the cut (down to the smallest subnormal imaginary part), the imaginary part is +-pi ln^(n-1)(x)/(n-1)! with the sign of Im z and the real part agrees with the one on the cut, up to rounding errors.",
  ["inputs"], "all x > 1, all distances from the cut down to the smallest subnormal number, all orders", "The tests evaluate a few points on the cut with exactly zero imaginary part; points extremely close to the cut, where intermediate angles underflow, are not sampled.",
  CPP + C + F + LIN + LOG, m(("handling of arg(z) = 0 and of signed zeros", "complex Li2..Li6, Li(n,z), pos_log")))
p("C12", "Li_n(conj z) = conj Li_n(z) off the branch cut",
  "For every complex z not on the cut, Li_n(conj z) equals conj(Li_n(z)): bit by bit for all functions of fixed order and for general order n >= 0, up to rounding errors for general order n < 0.",
  ["inputs"], "all finite z off the cut, all orders, precisions and languages", "The tests do not compare conjugate arguments.",
  CPP + C + F + LIN + LOG, m(("symmetric use of Im z and arg z", "complex functions")))
p("C13", "The real axis: real results, signed zeros, agreement with the real functions",
  "For real z <= 1 the complex polylogarithms return a real result (imaginary part zero) that agrees with the real function of the same order up to rounding errors, and where a real function of that order exists the zero keeps the sign of the imaginary part of the argument (as it does for every general order n >= 1 at z = 1, if n > 1, and z = -1); the functions of the argument +-0 return zeros with the signs of the argument.",
  ["inputs"], "all real x <= 1 with both signs of zero, all orders, precisions and languages", "The tests check signed zeros at a few points.",
  CPP + C + F + LIN, m(("special treatment of Im z = 0 and of z = 0, 1, -1", "complex Li2..Li6, Li(n,z)")))
p("C14", "NaN propagates and has no other source; infinity gives no plausible number",
  "If a component of the argument is NaN, at least one component of the result is NaN (both for general order); if the argument is infinite, the result is never a finite number, never positive for the real functions, and -infinity with zero imaginary part for the polylogarithm of general order. Clausen functions of NaN, of infinite arguments, and of general order n < 1 are NaN. Otherwise a finite argument never gives NaN.",
  ["inputs"], "all combinations of NaN, infinities, finite numbers and orders", "The tests check one or two such arguments for a few functions.",
  CPP + C + F + CL + LIN + ["src/cpp/Sl.cpp"], m(("explicit tests for NaN and infinity; comparisons that are false for NaN", "all functions")))
p("C15", "C, C++ and Fortran implementations agree",
  "For every finite argument the C, C++ and Fortran versions of the same function and precision return the same value up to a few rounding errors, are finite together, and give zeros of the same sign on the real axis (hence take the same side of the branch cut).",
  ["inputs"], "all finite arguments of all functions that exist in several languages", "The tests compare the languages only at the points of the grids.",
  CPP + C + F + CL + LOG, m(("three parallel implementations with separate coefficient tables", "src/cpp, src/c, src/fortran")))
p("C16", "Lower-precision versions agree with higher-precision versions",
  "For every argument representable in the lower precision, the version of a function in single (double) precision equals the version in double (extended) precision of the same function, up to a bounded number of rounding errors of the lower precision.",
  ["inputs"], "all arguments of functions that exist in several precisions", "The tests treat the precisions separately at grid points.",
  CPP + C + F + CL, m(("separate coefficient tables per precision", "Li2..Li6, Cl2..Cl6")))
p("C17", "Functional equations hold",
  "Inversion z -> 1/z, duplication Li_n(z^2), triplication, Euler reflection and Landen's identity (orders 2 and 3), the five-term relation, the relation of Clausen functions to Li_n(exp(i x)) and their duplication formula hold for all arguments up to rounding errors of the terms.",
  ["inputs"], "all arguments for which both sides are defined, orders -30 to 200, all precisions and languages", "The tests evaluate two or three of these identities at few points.",
  CPP + C + F + CL + LIN, m(("mutual consistency of the regions of definition", "all functions")))
p("C18", "zeta, eta, 1/n! and harmonic numbers are right for every integer",
  "For every 64-bit integer n the helper functions return zeta(n), -eta(n) (alternating zeta), 1/n! (0 when it underflows, NaN for n < 0) and the harmonic number H_n (NaN for n <= 0) up to a few rounding errors, with infinity at the pole of zeta and when zeta(n) overflows, and zero at the trivial zeros.",
  ["inputs"], "all 64-bit integers n", "The tests check a table of small n; table ends, large and extreme n are sampled once or not at all.",
  NUM, m(("tables, reflection formula, asymptotic expansion", "zeta, neg_eta, inv_fac, harmonic")))
p("C19", "Every function is pure and thread-safe",
  "The result of a call depends, bit by bit, only on its arguments: not on earlier calls, on other threads calling the same or other functions at the same time, on leftover memory contents, or on the stage of the process (before static initialisation, in main(), in exit handlers after the destruction of static objects), and this in every rounding mode. A call changes neither its arguments (also in Fortran, where they are passed by reference) nor the rounding mode or other control state of the floating-point environment, and there are no data races.",
  ["histories", "schedules", "inputs"], "all sequences of calls of all functions, from any number of threads", "The tests call every function from one thread and never compare a repeated call with the first.",
  CPP + C + F + CL + LIN, m(("no mutable static data; local copies of arguments", "all functions")))
p("C20", "No undefined behaviour, every call returns",
  "For every argument of every function (any order, any number including NaN, infinities and subnormal numbers) and in every rounding mode the call has no undefined behaviour (no out-of-bounds access, integer overflow, invalid conversion, use of uninitialised values) and returns after a bounded time.",
  ["inputs"], "all arguments and orders of all entry points", "The tests run without sanitizers at benign arguments; extreme orders and arguments are not sampled.",
  CPP + C + F + CL + LIN + ["src/cpp/Sl.cpp"] + NUM + LOG, m(("bounds of tables and loops", "all functions")))
p("C21", "Complex logarithm helpers are accurate and have the documented branch",
  "The helper for ln(1+z) has full relative accuracy for all finite z including tiny |z|, and the helper for ln(z) returns the principal value with the argument of the negative real axis equal to +pi for both signs of a zero imaginary part, without overflow or underflow on the way.",
  ["inputs"], "all finite complex z of the three precisions, three languages", "The tests check a few values.",
  LOG, m(("log1p, pos_log and their C and Fortran versions", "log helpers")))
p("C22", "Accuracy does not depend on compiler, optimisation or rounding mode",
  "The accuracy statements for all functions also hold, with bounds a small factor larger, when the library is compiled without optimisation, with another compiler, with fused multiply-add contraction, for arguments of moderate size with -ffast-math, and when called in a directed rounding mode (upward, downward, toward zero) or with subnormal numbers flushed to zero (programs linked with -ffast-math; general orders from -50 to 150 and arguments whose squares are normal numbers); in directed rounding modes, general orders from -50 to 200 are claimed, with a bound of some thousand rounding errors.",
  ["configurations", "inputs"], "compilers, flags and rounding modes times all arguments (of moderate size where stated)", "The tests run in one configuration per build at grid points.",
  CPP + C + F + CL + LIN + LOG, m(("formulae that do not rely on exact cancellations or on a particular evaluation order", "all functions")))
p("C23", "General order and fixed order agree",
  "For every finite argument Li(n,z) with n = 2,...,6 agrees with the polylogarithm of that fixed order (including the side of the branch cut and the signs of zeros for n <= 4), and Cl(n,x) with n = 1,...,6 with the Clausen function of that fixed order, up to rounding errors. Li(1,z) = -ln(1-z), Li(0,z) = z/(1-z) and Li(-1,z) = z/(1-z)^2.",
  ["inputs"], "all arguments, n = -1,...,6", "The tests compare with reference values at grid points.",
  LIN + CLN + CPP, m(("forwarding of small orders to the fixed functions", "Li(n,z), Cl(n,x)")))
p("C24", "Monotone on the real axis, bounded, right sign of the imaginary part",
  "Up to rounding errors, the real functions Li_n increase for x <= 1 and are at least x; for n >= 1 the imaginary part of Li_n(z) has the sign of Im z; and |Li_n(z)-z| <= |z|^2 (zeta(n)-1) in the unit disk for n >= 2. Clausen and Glaisher-Clausen functions stay within their extreme values (for n >= 3 between -1-2^-n and 1+2^-n if odd, between -eta(n) and zeta(n) if even in x).",
  ["inputs"], "all pairs of arguments and of orders", "The tests check single values, not relations between values.",
  CPP + C + F + CL + LIN, m(("accuracy and continuity at region borders", "real functions, Li(n,z), Cl(n,x), Sl(n,x)")))
p("C25", "Single-precision Li2 is accurate at every one of the 2^32 arguments",
  "For every single-precision number x (every bit pattern), the single-precision real dilogarithm in C++ and C is within about 10 units of roundoff of the exact value relative to |Li_2(x)|+|ln|1-x||, and NaN exactly for NaN.",
  ["inputs"], "all 2^32 bit patterns", "The tests evaluate a few hundred of 4294967296 arguments.",
  ["src/cpp/Li2.cpp", "src/c/Li2.c"], m(("region borders and rational approximation in single precision", "float Li2")))
p("C26", "No spurious floating-point exceptions",
  "Evaluating any function at a finite argument where its value is finite and which is not a pole or logarithmic singularity raises neither the invalid-operation nor the division-by-zero exception (so that programs that trap these exceptions keep running).",
  ["inputs"], "all finite regular arguments and orders", "The tests never look at the exception flags.",
  CPP + C + F + CL + LIN + ["src/cpp/Sl.cpp"] + LOG, m(("no evaluation of log(0), 0/0 or inf-inf on the way to finite results", "all functions")))
p("C27", "Consecutive orders satisfy the differential equation",
  "For all arguments, Li_n(b)-Li_n(a) equals the integral of Li_(n-1)(z)/z from a to b on a path off the cut, and correspondingly for the real functions and for Clausen functions (d/dx Cl_n = +-Cl_(n-1), d/dx Sl_n = +-Sl_(n-1)), up to rounding errors, for fixed and general orders.",
  ["inputs"], "all short intervals in the domain, all orders, precisions and languages", "The tests check values only, not relations between neighbouring arguments.",
  CPP + C + F + CL + LIN + ["src/cpp/Sl.cpp"], m(("consistency of the separately coded orders", "all functions")))
p("C28", "No jumps between neighbouring arguments",
  "For all pairs of arguments that are 1 to some thousand ulps apart (not separated by the branch cut or a singularity), the results differ by no more than the derivative allows plus a few rounding errors: in particular at the borders between internal methods.",
  ["inputs"], "all neighbouring pairs, all functions", "The tests do not evaluate neighbouring arguments.",
  CPP + C + F + CL + LIN + ["src/cpp/Sl.cpp"], m(("agreement of the methods at region borders", "all functions")))
p("C29", "Imaginary parts close to the real axis have relative accuracy",
  "For all real x with -0.75 < x < 1 and all tiny y (|y| below 2^-38 times the distance of x to 0 and 1), the complex functions return Im Li_n(x+iy) = y Li_(n-1)(x)/x with a relative error of some units of rounding, for fixed orders and for general orders n > 0, in all languages and precisions, however small y is (as long as the result is a normal number): the sign is right, complex-step differentiation works.",
  ["inputs"], "all such x and y, all orders n > 0, precisions and languages", "The tests compare with an absolute tolerance, which cannot see tiny imaginary parts.",
  CPP + C + F + LIN + LOG, m(("imaginary part next to the real axis", "complex polylogarithms")))
p("C30", "Extended-precision functions adapt to the platform's long double",
  "On a platform whose long double is an IEEE quadruple-precision number (113-bit mantissa: aarch64, riscv64, s390x; LDBL_DIG = 33) or just a double (53 bits), the extended-precision Li2 (real), Li2 to Li6 (complex) and Cl2 to Cl6 of C++ and C are accurate to a bounded number of rounding errors of that type, relative to |f|+|z f'(z)|, for every finite argument: all numbers of terms, thresholds and coefficients that depend on LDBL_DIG or on numeric_limits fit the type. "
  "Exception: Cl3 to Cl6 for pi/2 <= |x mod 2 pi| <= 2 and Cl4 close to pi promise about 24 digits only, the accuracy of the tables of coefficients.",
  ["inputs", "configurations"], "all finite arguments; long double with 53 and 113 bits", "The tests run on one platform; the branches for LDBL_DIG > 18 and the last coefficients are not even compiled on x86-64.",
  CPP + C + ["src/cpp/Cl%d.cpp" % n for n in range(2, 7)] + ["src/c/Cl%d.c" % n for n in range(2, 7)] + LOG, m(("#if LDBL_DIG > 18: more terms and coefficients", "extended-precision Li2 to Li6"), ("rational approximations for quadruple precision", "Cl2 to Cl6")))
p("C31", "Every call uses bounded time, stack and no heap",
  "Functions of fixed order take a small number of steps that does not depend on the argument (no loop that runs longer for large, tiny or special arguments): some ten to a hundred basic blocks. The functions of general order take at most some ten thousand steps for every argument and every order, Cl(n,x), Sl(n,x) and the number-theoretic helpers some ten to some thousand. No call allocates memory (all functions are noexcept), and none uses more than a few kilobytes of stack.",
  ["inputs"], "all arguments and orders of all entry points, three languages", "The tests do not measure; an argument reduction by repeated subtraction, a series used beyond its useful range or a table that is built on the heap pass them.",
  CPP + C + F + CL + LIN + ["src/cpp/Sl.cpp"] + LOG, m(("closed forms with fixed numbers of terms", "functions of fixed order"), ("series with stopping conditions, choice of method by region", "Li(n,z), Cl(n,x), Sl(n,x)")))
p("C32", "The interface works in every client program",
  "Every public header of C, C++ and Fortran can be included alone, in any order and combination, repeatedly (C, C++), in several translation units, in every language standard that the library supports (C99 and later, C++11 and later, Fortran with gfortran's defaults), the C headers from C++ as well, from the source tree and from the installation, without diagnostics; every documented function can then be called with every documented argument type, returns the documented type, and gives bit by bit the same value in every such program, whether the library of that language (alone) is linked statically or as a shared library; the sources themselves can be compiled as part of a project with another compiler or standard (C11 or later) and give the same values up to rounding. The C library exports no names besides those its headers declare, and the headers define no macros (besides the version), so the user may use any other name.",
  ["programs", "configurations"], "all programs that use the public headers", "The tests are a handful of programs with one order of inclusion each; none includes a Fortran header; the C sources do not include their own headers, so that the compiler does not compare declaration and definition.",
  sorted("src/c/%s%d.h" % (s, n) for s in ("Cl", "Li") for n in range(2, 7)) + sorted("src/cpp/%s%d.hpp" % (s, n) for s in ("Cl", "Li") for n in range(2, 7)) + ["src/cpp/Cl.hpp", "src/cpp/Cl1.hpp", "src/cpp/Sl.hpp", "src/cpp/Li.hpp"] + sorted("src/fortran/%s%d.fh" % (s, n) for s in ("Cl", "Li") for n in range(2, 7)), m(("self-contained headers that agree with the definitions", "all public headers")))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
