#!/bin/bash
# calibrate.sh PROP CASES_PER_WORKER [SEED0]: worst errors per key over 8 workers
P=$1; N=$2; S=${3:-1}
for i in 0 1 2 3 4 5 6 7; do ${CAL:-/tmp/cal} $P $N $((S*100+i)) > /tmp/cal.$P.$i & done; wait
python3 - $P <<'P'
import sys,glob
m={}
for f in glob.glob(f'/tmp/cal.{sys.argv[1]}.?'):
    for l in open(f):
        if l.startswith('FAIL'): print(l.strip()[:400]); continue
        k,v,c,a=l.rstrip('\n').split('\t'); v=float(v); c=int(c)
        o=m.get(k,(-1,0,'')); m[k]=((v,o[1]+c,a) if v>o[0] else (o[0],o[1]+c,o[2]))
for k in sorted(m): print(k,'%.4g'%m[k][0],m[k][1],m[k][2])
P
