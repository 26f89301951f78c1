#!/usr/bin/env python3
"""gen_k.py FILE...: harness/kfactors.hpp from the outputs of calibrate.sh

Bound for every region: 2 times the largest error seen in a million cases or
more (at least 5 units more); regions with fewer cases get more room."""
import os, sys
m = {}
for f in sys.argv[1:]:
    for l in open(f):
        p = l.split(" ", 3)
        if p[0] in ("FAIL", "") or len(p) < 3: continue
        try: v, c = float(p[1]), int(p[2])
        except ValueError: continue
        o = m.get(p[0], (0.0, 0))
        m[p[0]] = (max(v, o[0]), o[1] + c)
# general orders that call the functions of fixed order have their errors
import re
for k in list(m):
    g = re.sub(r"(LI|CL):N(C2C|R2R):0/([1-6])/", r"\1:\2:\3//", k)
    for h in (g, g.rsplit("/", 1)[0]):
        if h != k and h in m and m[h][0] > m[k][0]: m[k] = (m[h][0], m[k][1])
def bound(v, c):
    if v == 0: return 2.0 if c >= 100000 else 6.0
    if c >= 1000000: return max(2*v, v + 5)
    if c >= 100000: return max(2.5*v, v + 6)
    if c >= 3000: return max(3*v, v + 6)
    return max(4*v, v + 12)
K = {k: bound(*m[k]) for k in m}
# Relations between results: two implementations, or two arguments, may round
# differently although today they happen to agree in more digits; so the bound
# is at least the one that accuracy gives.
floors = dict(LANG=1, FIX=1, REALFN=1, REAL=1, PREC=1, MONO=1, IMSIGN=1, DISK=1, CLBND=1, DIFF=1, PER=1, REFL=1, CUTOFF=1, CONT=0.6)
raised = 0
for k in m:
    if "|" not in k: continue
    pre, b = k.split("|", 1)
    if pre not in floors: continue
    if pre == "PREC": b = re.sub(r"-\d+$", "", b)
    bs = [b] if b in K else []
    if pre == "FIX": bs += [c for c in (re.sub(r"^(LI:)C2C:(\d)//", r"\1NC2C:0/\2/", b), re.sub(r"^(CL:)R2R:(\d)//", r"\1NR2R:0/\2/", b)) if c in K]
    # real function: also the complex function of the same order
    for c in bs:
        if floors[pre]*K[c] > K[k]: K[k] = floors[pre]*K[c]; raised += 1
print(raised, "bounds raised")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/kfactors.hpp"), "w") as o:
    o.write("// generated by tools/gen_k.py from calibration runs: error bounds per region\n#pragma once\nnamespace acc { struct KEntry { const char* key; double K; };\nstatic const KEntry ktable[] = {\n")
    for k in sorted(m): o.write('{ "%s", %.3g },\n' % (k, K[k]))
    o.write("};\nstatic const double kdefault = 64; }\n")
for k in sorted(m, key=lambda k: -m[k][0])[:60]: print(k, *m[k])
