#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ACC = "property-based testing: structured random arguments against an independent quadruple-precision reference (rapidcheck, shrinking)"
META = "property-based testing: metamorphic relation over generated arguments (rapidcheck, shrinking)"
DIFF = "property-based testing: differential comparison of implementations over generated arguments (rapidcheck, shrinking)"
TECH = {"C01": ACC, "C02": ACC, "C03": ACC, "C04": ACC, "C05": ACC, "C06": ACC, "C07": ACC, "C08": ACC, "C09": ACC, "C18": ACC, "C21": ACC,
        "C10": META, "C11": META, "C12": META, "C13": META, "C14": META, "C17": META, "C24": META, "C27": META, "C28": META, "C29": ACC, "C30": ACC + "; the sources are compiled for long double with 53 and 113 bits (-mlong-double-64/128)",
        "C15": DIFF, "C16": DIFF, "C23": DIFF,
        "C31": "targeted property-based testing (generation climbs towards expensive arguments) with step counts from coverage instrumentation, painted stacks and intercepted allocation functions",
        "C32": "generated client programs (random headers, order, standard, compiler, linkage, calls), results compared bit by bit with a baseline program; programs are shrunk by delta debugging",
        "C19": "property-based testing of call histories (fresh process versus after a generated history, stack poisoning, threads) and thread sanitizer; shrinking of histories",
        "C20": "coverage-guided fuzzing (libFuzzer with structured mutations; address and undefined-behaviour sanitizers, Fortran run-time checks) and valgrind memcheck on generated calls",
        "C22": ACC + ", repeated for several compilers, flags and rounding modes",
        "C25": "exhaustive (thorough) or strided (quick) enumeration of bit patterns against an independent double-precision oracle",
        "C26": "property-based testing: exception flags after calls with generated regular arguments (rapidcheck, shrinking)"}
LIMIT = {"C19": "Interleavings are those the operating system produces in the runs; data races are detected by the thread sanitizer on executed paths (the Fortran code is instrumented as well).",
         "C20": "Sanitizers see executed paths; gfortran's run-time checks do not cover everything.",
         "C30": "The other platforms are stood in for by -mlong-double-64 and -mlong-double-128 on x86-64, with the mathematical functions of libm (double) and libquadmath.",
         "C32": "Compilers and platform of this sandbox; programs are sampled.",
         "C25": "thorough: every argument; quick: 1/4 of them and the neighbourhoods of borders."}
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="python3 tools/check.py " + p, evidence_file="evidence/%s.json" % p,
                       technique=TECH[p], level="exploration",
                       level_note=LIMIT.get(p, "Search over generated arguments with fixed case counts: no proof. Trusts the reference (validated against mpmath) and error bounds of about 2 to 4 times the largest error calibrated on the unchanged tree; losses of accuracy below them are not reported.")))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[],
               notes="No hooks in /repo. tools/check.py PROPERTY [--replay FILE]; VERIF_TIER, VERIF_SEED. Repaired defects: known_findings.json. See DESIGN.md."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
