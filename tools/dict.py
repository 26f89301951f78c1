#!/usr/bin/env python3
"""dict.py REPO: numbers that occur in the sources, for the generators.

Numbers in conditions are listed in full, of the others (tables of
coefficients) none: lines with more than three numbers and numbers with more
than eight digits outside of conditions are tables."""
import glob, re, sys

NUM = re.compile(r'(?<![\w.])(\d+\.?\d*(?:[eEdD][+-]?\d+)?|\.\d+(?:[eEdD][+-]?\d+)?|0[xX][0-9a-fA-F.]+(?:[pP][+-]?\d+)?)(?=[fFlLuU]*\b|_|\W|$)')
COND = re.compile(r'\b(if|while|for|case|switch|do|elseif|select)\b|\?|==|!=|/=|<=|>=|[^<]<[^<]|[^>-]>[^>]|\.(lt|le|gt|ge|eq|ne)\.|%|\b(mod|mask|iand|merge)\b|>>|<<', re.I)

def numbers(repo):
    reals, ints = {}, set()
    for f in sorted(glob.glob(repo + '/src/*/*')):
        if not re.search(r'\.(cpp|hpp|h|c|f90|F90|cc|inc)$', f):
            continue
        fortran = f.lower().endswith('f90')
        for line in open(f, errors='replace'):
            line = line.split('!')[0] if fortran and '!=' not in line else re.sub(r'//.*|^\s*\*.*|/\*.*?\*/', '', line)
            if line.lstrip().startswith('#'):
                line = re.sub(r'#\s*(include|define\s+\w+).*', '', line)
            t = [m.group(1) for m in NUM.finditer(line)]
            cond = COND.search(line)
            if not t or (len(t) > (6 if cond else 3)):
                continue
            for x in t:
                digits = len(re.sub(r'\D', '', x))
                if digits > (24 if cond else 8):
                    continue
                try:
                    if re.fullmatch(r'\d+', x) or re.fullmatch(r'0[xX][0-9a-fA-F]+', x):
                        v = int(x, 0 if x[:2].lower() == '0x' else 10)
                        if v < 2**63:
                            ints.add(v)
                        if v < 10**6:
                            reals.setdefault(float(v), str(v))
                    else:
                        h = x[:2].lower() == '0x'
                        t = x if h else re.sub('[dD]', 'e', x)
                        v = float.fromhex(x) if h else float(t)
                        if v == v and abs(v) < 1e300:
                            reals.setdefault(v if h else t, t)
                        if v == int(v) and abs(v) < 2**62:
                            ints.add(int(v))
                except (ValueError, OverflowError):
                    pass
    return sorted(set(reals.values()), key=lambda t: (float.fromhex(t) if 'x' in t.lower() else float(t), t)), sorted(ints)

if __name__ == '__main__':
    r, i = numbers(sys.argv[1])
    for v in r:
        print('r', v)
    for v in i:
        print('i', v)
