#!/usr/bin/env python3-vt
"""Generates harness/ref_tables.hpp (zeta, eta, harmonic numbers) with mpmath.
Run once at development time; the output is committed, so no check needs mpmath."""
import mpmath as mp
mp.mp.dps = 60
def q(x): return mp.nstr(mp.mpf(x), 42, strip_zeros=False, min_fixed=0, max_fixed=0) + "Q"
out = ["// generated by tools/gen_tables.py with mpmath %s; do not edit" % mp.__version__, "#pragma once", "namespace ref {"]
N = 180
out.append("static const __float128 ZETA_POS[%d] = { // zeta(n), n=0..%d (entry 1 unused)" % (N+1, N))
out.append(",\n".join(q(0 if n == 1 else mp.zeta(n)) for n in range(N+1)))
out.append("};")
M = 700
out.append("static const __float128 ZETA_NEG[%d] = { // zeta(1-2k), k=1..%d" % (M, M))
out.append(",\n".join(q(-mp.bernoulli(2*k)/(2*k)) for k in range(1, M+1)))
out.append("};")
out.append("static const __float128 NETA_POS[%d] = { // -eta(n), n=0..%d" % (N+1, N))
out.append(",\n".join(q(mp.mpf(-0.5) if n == 0 else (-mp.log(2) if n == 1 else -(1-mp.mpf(2)**(1-n))*mp.zeta(n))) for n in range(N+1)))
out.append("};")
out.append("}")
open("harness/ref_tables.hpp","w").write("\n".join(out)+"\n")
