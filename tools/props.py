# Per property: what the search runs (phases), the rule printed in the evidence,
# and the assumptions.  Counts are cases per worker (quick, thorough); there are
# 8 workers with different seeds.

ACC_RULE = ("one case = one argument (and order) of one group of functions, all languages evaluated; arguments are drawn from: "
            "every magnitude, neighbourhoods (1 ulp to 10%) of branch points, region borders, exp(i k pi/3), multiples of pi, "
            "constants found in the conditions of the source files, special values; the oracle is an independent quadruple-precision "
            "evaluation and an error bound per region in units of rounding of |f|+|z f'(z)|; non-trivial: the argument is neither 0, +-1 nor a pole")
META_RULE = ("one case = one instance of a relation (arguments and orders from the structured generators), evaluated with every function it applies to; "
             "non-trivial: the arguments are not all 0 or 1 and the relation applies (not excluded by a pole or overflow)")
TRUST = ["the quadruple-precision reference (validated against mpmath by tools/validate_ref.py)",
         "error bounds are 2 to 4 times (depending on the number of calibration cases) the largest error seen in calibration runs on the unchanged tree (harness/kfactors.hpp): a loss of accuracy that stays below them is not reported"]
BUILD = ["gcc/g++/gfortran -O3 unless said otherwise, x86-64, glibc's libm"]

def P(prop, quick, thorough, **kw):
    d = dict(kind="pbt", build="default", prop=prop, quick=quick, thorough=thorough, env={})
    d.update(kw)
    return d

PROPS = {
    "C01": dict(phases=[P("C01", 540000, 6000000)], rule=ACC_RULE),
    "C02": dict(phases=[P("C02", 360000, 4000000)], rule=ACC_RULE),
    "C03": dict(phases=[P("C03", 360000, 4000000)], rule=ACC_RULE),
    "C04": dict(phases=[P("C04", 360000, 4000000)], rule=ACC_RULE),
    "C05": dict(phases=[P("C05", 5000, 300000)], rule=ACC_RULE),
    "C06": dict(phases=[P("C06", 360000, 4000000)], rule=ACC_RULE),
    "C07": dict(phases=[P("C07", 360000, 4000000)], rule=ACC_RULE),
    "C08": dict(phases=[P("C08", 480000, 5000000)], rule=ACC_RULE),
    "C09": dict(phases=[P("C09", 480000, 5000000)], rule=ACC_RULE),
    "C10": dict(phases=[P("C10", 150000, 2000000)], rule=META_RULE),
    "C11": dict(phases=[P("C11", 180000, 2000000)], rule=META_RULE),
    "C12": dict(phases=[P("C12", 600000, 6000000)], rule=META_RULE),
    "C13": dict(phases=[P("C13", 240000, 2500000)], rule=META_RULE),
    "C14": dict(phases=[P("C14", 360000, 3000000)], rule=META_RULE),
    "C15": dict(phases=[P("C15", 360000, 4000000)], rule=META_RULE),
    "C16": dict(phases=[P("C16", 360000, 4000000)], rule=META_RULE),
    "C17": dict(phases=[P("C17", 60000, 700000)], rule=META_RULE),
    "C18": dict(phases=[P("C18", 480000, 3000000)], rule=META_RULE),
    "C19": dict(phases=[P("C19", 1400, 25000), P("C19T", 300, 6000, build="tsan", env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}, tries=20)],
                rule="one case = a history of 1 to 60 calls of any entry points; the last call (and with 4 threads every call) is compared, bit by bit, with the same call in a fresh process, "
                     "with different stack contents, and arguments and floating-point environment are compared before and after; also four unsynchronised threads under the thread sanitizer; "
                     "non-trivial: at least two calls"),
    "C20": dict(phases=[dict(kind="fuzz", build="fuzz", prop="C20", quick=1500000, thorough=12000000, env={}, workers=6),
                        dict(kind="memcheck", build="memcheck", prop="C20", quick=24000, thorough=1200000, env={}, workers=2)],
                rule="one case = one call of any entry point (libFuzzer, value profile, half of the mutations from the structured generators; address + undefined-behaviour sanitizers for C and C++, "
                     "run-time checks for Fortran; valgrind memcheck for uninitialised values in all three languages); non-trivial: the argument is not 0; distinct by (function, order, argument)"),
    "C21": dict(phases=[P("C21", 720000, 8000000)], rule=META_RULE),
    "C22": dict(phases=[P("C22", 20000, 500000, build="O0", env={"VERIF_KSCALE": "4"}),
                        P("C22", 20000, 500000, build="clang", env={"VERIF_KSCALE": "4"}),
                        P("C22", 20000, 500000, build="fma", env={"VERIF_KSCALE": "4"}),
                        P("C22", 20000, 500000, build="fast", env={"VERIF_KSCALE": "4", "VERIF_VARIANT": "fast"}),
                        P("C22", 0, 300000, build="x87", env={"VERIF_KSCALE": "4", "VERIF_VARIANT": "x87"}),
                        P("C22", 14000, 300000, env={"VERIF_KSCALE": "4", "VERIF_VARIANT": "flush"}),
                        P("C22", 14000, 300000, env={"VERIF_KSCALE": "16", "VERIF_VARIANT": "up"}),
                        P("C22", 14000, 300000, env={"VERIF_KSCALE": "16", "VERIF_VARIANT": "down"}),
                        P("C22", 14000, 300000, env={"VERIF_KSCALE": "16", "VERIF_VARIANT": "zero"})],
                rule=ACC_RULE + "; here for builds with -O0, clang -O2 with contraction, gcc -O3 -march=native with contraction, gcc -Ofast -ffast-math, (thorough) x87 arithmetic for C and C++, with subnormal numbers flushed to zero, and with the three directed rounding modes"),
    "C23": dict(phases=[P("C23", 360000, 4000000)], rule=META_RULE),
    "C24": dict(phases=[P("C24", 480000, 5000000)], rule=META_RULE),
    "C25": dict(phases=[dict(kind="sweep", build="sweep", prop="C25", quick=4, thorough=1, env={})],
                rule="one case = one single-precision argument (bit pattern), both implementations; quick: every 4th bit pattern from a seeded offset, and all within 64 ulps of powers of two and of the constants in the source; "
                     "thorough: all 2^32; oracle: an independent double-precision evaluation (itself compared with the quadruple reference in the run); non-trivial: neither NaN, 0 nor 1"),
    "C26": dict(phases=[P("C26", 360000, 4000000)], rule=META_RULE),
    "C27": dict(phases=[P("C27", 56000, 700000)], rule=META_RULE),
    "C28": dict(phases=[P("C28", 100000, 1000000)], rule=META_RULE),
    "C29": dict(phases=[P("C29", 360000, 4000000)], rule=META_RULE),
    "C31": dict(phases=[P("C31", 400000, 8000000, build="cov")],
                rule="one case = one call of any entry point, half of them after a search of up to 12 steps for more expensive arguments; steps = basic blocks of the library executed (compiled with -fsanitize-coverage=trace-pc), "
                     "stack = bytes written of a painted stack, heap = calls of the allocation functions; non-trivial: the argument is not 0"),
    "C30": dict(phases=[P("C30", 25000, 1500000, build="ld128"), P("C30", 60000, 2500000, build="ld64")],
                rule="one case = one argument of one extended-precision function (real Li2, complex Li2 to Li6, Cl2 to Cl6), C and C++, compiled with -mlong-double-128 (quadruple precision) "
                     "or -mlong-double-64 (double); the mathematical functions of the platform are stood in for by libquadmath or the double-precision libm; oracle: an independent evaluation with 170 bits; "
                     "non-trivial: the argument is neither 0 nor +-1"),
    "C32": dict(phases=[dict(kind="iface", build="install", prop="C32", quick=700, thorough=30000, env={})],
                rule="one case = one generated client program (C, C++ or Fortran; random language standard, compiler, optimisation, static or shared library from the real build and installation; "
                     "1 to 3 translation units with a random list of public headers in random order and repetition, mixed with headers of the standard library; 1 to 5 calls each, all documented argument types, "
                     "different ways to call); it has to compile without diagnostics, link, and print bit by bit what a baseline program obtains; non-trivial: at least two calls or two included files",
                assumptions=["the baseline program declares the C and Fortran functions by itself and includes all C++ headers", "gcc 13, clang 18, gfortran 13 on x86-64"]),
}

# build name -> (CXX, CC, FC, FLAGS, FFLAGS, harness compiler, harness flags)
BUILDS = {
    "default": [],
    "O0": ["g++", "gcc", "gfortran", "-O0"],
    "clang": ["clang++", "clang", "gfortran", "-O2 -mfma -ffp-contract=on", "-O2"],
    "fma": ["g++", "gcc", "gfortran", "-O3 -march=native -ffp-contract=fast"],
    "fast": ["g++", "gcc", "gfortran", "-Ofast -ffast-math"],
    "x87": ["g++", "gcc", "gfortran", "-O2 -mfpmath=387", "-O2"],
    "tsan": ["g++", "gcc", "gfortran", "-O1 -g -fsanitize=thread", "-O1 -g -fsanitize=thread"],
}
