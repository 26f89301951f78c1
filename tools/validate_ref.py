#!/usr/bin/env python3-vt
"""Development-time validation of harness/ref.hpp against mpmath (not run by a check).
usage: validate_ref.py REF_BINARY N SEED ; REF_BINARY reads 'l n re im' / 'c n x 0'."""
import sys, random, subprocess, mpmath as mp
mp.mp.dps = 40
exe, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rnd = random.Random(seed)
cases = []
def mk():
    k = rnd.random()
    n = rnd.choice([1,2,3,4,5,6,7,8,9,10,11,12,20,50,100,129,130,131,200,1000]) if k < .6 else -rnd.choice([0,1,2,3,4,5,10,15,20,21,22,25,30,50,100])
    r = mp.mpf(10)**rnd.choice([rnd.uniform(-1,1), rnd.uniform(-.4,.4), rnd.uniform(-20,20), rnd.uniform(-.01,.01)])
    phi = rnd.choice([rnd.uniform(-3.14159,3.14159), 0, 3.141592653589793, 10**rnd.uniform(-15,0), 3.14159-10**rnd.uniform(-3,0)])
    if phi == 0: z = (float(r), 0.0)
    elif phi == 3.141592653589793: z = (-float(r), 0.0)
    else: z = (float(r*mp.cos(phi)), float(r*mp.sin(phi)))
    return (n, z)
for _ in range(N): cases.append(mk())
inp = "".join("l %d %s %s\n" % (n, repr(z[0]), repr(z[1])) for n, z in cases)
# exact decimal expansion of the doubles
from decimal import Decimal
inp = "".join("l %d %s %s\n" % (n, str(Decimal(z[0])), str(Decimal(z[1]))) for n, z in cases)
out = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, text=True).stdout.split("\n")
worst = 0; bad = 0
def truth(n, z):
    zz = mp.mpc(*z)
    if z[1] == 0 and z[0] > 1 and n > 0:
        v = mp.polylog(n, mp.mpf(z[0])); v = mp.mpc(v)
        im = -mp.pi*mp.log(z[0])**(n-1)/mp.factorial(n-1)
        return mp.mpc(v.real, im)
    if n >= 130 or n > 12:
        return mp.polylog(n, zz)
    return mp.polylog(n, zz)
skipped = 0
for (n, z), o in zip(cases, out):
    re, im, err = o.split()
    a = abs(mp.mpc(*z))
    mp.mp.dps = 40 if n >= 0 else 60 + int(-n*1.5)
    if n > 12: mp.mp.dps = 60
    if a > 1e3 and n < 0: mp.mp.dps += 60
    try:
        v = truth(n, z)
    except Exception as e:
        skipped += 1; continue
    got = mp.mpc(mp.mpf(re), mp.mpf(im))
    d = abs(got - v)/abs(v)
    e = mp.mpf(err)/abs(v)
    worst = max(worst, d)
    if d > max(1e-28, 10*e): bad += 1; print("BAD", n, z, mp.nstr(got, 20), mp.nstr(v, 20), mp.nstr(d, 3), mp.nstr(e, 3))
print("worst rel", mp.nstr(worst, 3), "bad", bad, "skipped", skipped)
