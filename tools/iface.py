"""C32: generated client programs.

One case is a program of a user: language, standard, compiler, the way the
library is installed and linked (by the real build system), one to three
translation units, each with a random list of the public headers (any order,
any repetition, mixed with headers of the standard library), names of its own,
and calls of the documented functions with arguments of every documented type.
Oracle: it compiles without diagnostics, links against the libraries of its
language only, every result has the documented type, and its bits are those
which a baseline program without the headers of C and Fortran obtains."""
import concurrent.futures as cf
import hashlib, json, math, os, random, re, shutil, struct, subprocess, tempfile, threading, time

REPO = os.environ.get("REPO", "/repo")
WORKERS = 8
F, D, L, CF, CD, CL = "f", "d", "l", "cf", "cd", "cl"
REAL = {F: "float", D: "double", L: "long double"}
SIZE = {F: 4, D: 8, L: 10}
SUF = {F: "F", D: "", L: "L"}


def catalogue():
    """{language: {header: [(function, kind, argument type)]}}; kind n: has an order"""
    c, cpp, f = {}, {}, {}
    for n in range(2, 7):
        c["Cl%d.h" % n] = [("cl%d" % n, "", D), ("cl%dl" % n, "", L)]
        cpp["Cl%d.hpp" % n] = [("Cl%d" % n, "", D), ("Cl%d" % n, "", L)]
        f["Cl%d.fh" % n] = [("dcl%d" % n, "", D)]
        c["Li%d.h" % n] = [("cli%d" % n, "", CD), ("cli%dl" % n, "", CL)]
        cpp["Li%d.hpp" % n] = [("Li%d" % n, "", CD), ("Li%d" % n, "", CL)]
        f["Li%d.fh" % n] = [("cdli%d" % n, "", CD)]
        if n <= 4:
            c["Li%d.h" % n].append(("li%d" % n, "", D))
            cpp["Li%d.hpp" % n].append(("Li%d" % n, "", D))
            f["Li%d.fh" % n].append(("dli%d" % n, "", D))
    c["Li2.h"] += [("li2f", "", F), ("li2l", "", L), ("cli2f", "", CF)]
    cpp["Li2.hpp"] += [("Li2", "", F), ("Li2", "", L), ("Li2", "", CF)]
    cpp["Cl1.hpp"] = [("Cl1", "", D)]
    cpp["Cl.hpp"] = [("Cl", "n", D)]
    cpp["Sl.hpp"] = [("Sl", "n", D)]
    cpp["Li.hpp"] = [("Li", "n", CD)]
    return {"c": c, "cpp": cpp, "f": f}


CAT = catalogue()
STD = {"c": ["c99", "c11", "c17", "c2x", "gnu99", "gnu11", "gnu17"],
       "cpp": ["c++11", "c++14", "c++17", "c++20", "c++2b", "gnu++11", "gnu++17", "gnu++20"],
       "f": ["gnu", "legacy"]}
COMP = {"c": ["gcc", "clang"], "cpp": ["g++", "clang++"], "f": ["gfortran"]}
SYS = {"c": ["complex.h", "math.h", "stdint.h", "tgmath.h", "limits.h", "stdlib.h"],
       "cpp": ["complex", "cmath", "cstdint", "limits", "vector", "cstdlib", "algorithm"]}
# names a user may have for objects after the inclusion of the headers
NAMES = ["PI", "PI2", "PI_2", "N", "M", "Z", "T", "EPS", "eps", "MAX", "MIN", "SQR", "ABS", "zeta", "zeta2", "zeta3", "eta", "fac", "ln", "lnz", "B", "C", "P", "Q", "re", "im", "sgn",
         "horner", "HORNER", "is_even", "IS_EVEN", "cl", "li", "Cl", "Li", "Sl", "n", "size", "order", "series", "Complex", "polylog", "POLYLOG", "real_t"]
INT = ["int", "long", "long long", "short", "signed char", "std::int64_t", "std::int32_t", "unsigned char"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---- library and baseline

def build_library(tmp):
    """the real build system, twice (static and shared), installed below tmp; returns an error or None"""
    def one(kind):
        b, p = tmp + "/b." + kind, tmp + "/" + kind
        for cmd in (["cmake", "-S", REPO, "-B", b, "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_INSTALL_PREFIX=" + p, "-DCMAKE_INSTALL_LIBDIR=lib",
                     "-DBUILD_SHARED_LIBS=" + ("ON" if kind == "shared" else "OFF")],
                    ["cmake", "--build", b, "-j4", "--target", "polylogarithm_c", "polylogarithm_cpp", "polylogarithm_fortran"]):
            r = run(cmd)
            if r.returncode:
                return "%s\n%s" % (" ".join(cmd), r.stdout[-3000:])
        # (installation runs the scripts of src/ only: the tests are not built)
        r = run(["cmake", "--install", b + "/src"])
        if r.returncode:
            return "cmake --install\n" + r.stdout[-3000:]
        return None
    with cf.ThreadPoolExecutor(2) as ex:
        for e in ex.map(one, ("static", "shared")):
            if e:
                return e
    return None


def baseline_sources():
    c, x = [], []
    c.append("#include <string.h>\n#include <stdio.h>\n")
    c.append("static void out(const void* p, int n) { unsigned char b[32]; memcpy(b, p, n); for (int i = 0; i < n; ++i) printf(\"%02x\", b[i]); }\n")
    table = []
    for lang in ("c", "f"):
        for h in sorted(CAT[lang]):
            for fn, k, t in CAT[lang][h]:
                T = REAL[t[-1]] + (" _Complex" if t[0] == "c" and len(t) == 2 else "")
                if lang == "c":
                    c.append("%s %s(%s);\n" % (T, fn, T))
                else:
                    c.append("%s %s_(%s*);\n" % (T, fn, T))
                table.append((lang, fn, t, T))
    c.append("int eval_c(const char* lang, const char* fn, double x, double y) {\n")
    for lang, fn, t, T in table:
        r = REAL[t[-1]]
        cx = len(t) == 2
        c.append("  if (!strcmp(lang, \"%s\") && !strcmp(fn, \"%s.%s\")) { " % (lang, fn, t))
        c.append("%s z; ((%s*)&z)[0] = (%s)x; %s " % (T, r, r, "((%s*)&z)[1] = (%s)y;" % (r, r) if cx else ""))
        c.append("%s w = %s; " % (T, "%s_(&z)" % fn if lang == "f" else "%s(z)" % fn))
        c.append("out(&w, %d); %s putchar(10); return 0; }\n" % (SIZE[t[-1]], "out((%s*)&w + 1, %d);" % (r, SIZE[t[-1]]) if cx else ""))
    c.append("  (void)x; (void)y; return 1;\n}\n")
    for h in sorted(CAT["cpp"]):
        x.append('#include "%s"\n' % h)
    x.append("#include <cstdio>\n#include <cstring>\n#include <complex>\n#include <cstdint>\n")
    x.append("extern \"C\" int eval_c(const char*, const char*, double, double);\n")
    x.append("static void out(const void* p, int n) { unsigned char b[32]; std::memcpy(b, p, n); for (int i = 0; i < n; ++i) std::printf(\"%02x\", b[i]); }\n")
    x.append("int main() {\n  char lang[20], fn[40]; long long n; double x, y; (void)n;\n")
    x.append("  while (std::scanf(\"%19s %39s %lld %lf %lf\", lang, fn, &n, &x, &y) == 5) {\n    if (std::strcmp(lang, \"cpp\")) { if (eval_c(lang, fn, x, y)) return 1; continue; }\n")
    for h in sorted(CAT["cpp"]):
        for fn, k, t in CAT["cpp"][h]:
            r = REAL[t[-1]]
            T = "std::complex<%s>" % r if len(t) == 2 else r
            a = "std::complex<%s>(x, y)" % r if len(t) == 2 else "static_cast<%s>(x)" % r
            x.append("    if (!std::strcmp(fn, \"%s.%s\")) { const %s z = %s; const %s w = polylogarithm::%s(%sz); const %s* p = reinterpret_cast<const %s*>(&w); out(p, %d); %s std::putchar(10); continue; }\n"
                     % (fn, t, T, a, T, fn, "n, " if k else "", r, r, SIZE[t[-1]], "out(p + 1, %d);" % SIZE[t[-1]] if len(t) == 2 else ""))
    x.append("    return 1;\n  }\n}\n")
    return "".join(c), "".join(x)


def build_baseline(tmp):
    c, x = baseline_sources()
    open(tmp + "/base.c", "w").write(c)
    open(tmp + "/base.cpp", "w").write(x)
    p = tmp + "/static"
    for cmd in (["gcc", "-O1", "-w", "-fno-builtin", "-c", tmp + "/base.c", "-o", tmp + "/base.o"],
                ["g++", "-O1", "-w", "-I" + p + "/include/polylogarithm", tmp + "/base.cpp", tmp + "/base.o"]
                + [p + "/lib/libpolylogarithm_%s.a" % l for l in ("c", "cpp", "fortran")] + ["-lgfortran", "-lquadmath", "-lm", "-o", tmp + "/base"]):
        r = run(cmd)
        if r.returncode:
            return "the documented functions cannot be linked: " + r.stdout[-2000:]
    return None


def call_key(c):
    return "%s %s.%s %d %r %r" % (c["lang"], c["fn"], c["t"], c["n"], c["x"], c["y"])


def baseline(tmp, cases, table):
    keys = sorted(set(call_key(c) for k in cases for u in k["units"] for c in u["calls"]) - set(table))
    r = run([tmp + "/base"], input="\n".join(keys) + "\n")
    res = r.stdout.split()
    if r.returncode or len(res) != len(keys):
        raise RuntimeError("baseline: exit %d, %d of %d" % (r.returncode, len(res), len(keys)))
    table.update(zip(keys, res))


# ---- generator

def internal_names():
    """functions of the C sources which no header declares: the user may have functions of these names"""
    defs, decl = set(), set()
    d = REPO + "/src/c"
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f), errors="replace").read()
        t = re.sub(r"/\*.*?\*/|//[^\n]*", "", t, flags=re.S)
        if f.endswith(".h"):
            decl |= set(re.findall(r"\b([A-Za-z_]\w*)\s*\(", t))
        elif f.endswith(".c"):
            defs |= set(re.findall(r"^[A-Za-z_][\w \t*]*?\b([A-Za-z_]\w*)\s*\([^;{}()]*\)\s*\{", t, flags=re.M))
    bad = {"if", "for", "while", "switch", "return", "main"}
    return sorted(n for n in defs - decl - bad if not n.startswith("_"))


def number(r):
    m = r.choice([1, 1, 2, 4, 16])
    while True:
        v = r.randrange(-1023*m, 1023*m)/1024.0
        if v not in (0.0, 1.0, -1.0):
            return v


def gen_call(r, lang, h):
    fn, k, t = r.choice(CAT[lang][h])
    y = number(r) if len(t) == 2 else 0.0
    n = r.choice([r.randint(1, 8), r.randint(1, 100), r.randint(-6, 12) if fn == "Li" else r.randint(1, 30)]) if k else 0
    return dict(lang=lang, h=h, fn=fn, k=k, t=t, n=n, x=number(r), y=y, how=r.randrange(6), it=r.choice(INT))


def gen_case(seed, names):
    r = random.Random(seed)
    lang = r.choice(["c", "c", "cpp", "cpp", "cpp", "f", "f"])
    case = dict(seed=seed, lang=lang, std=r.choice(STD[lang]), comp=r.choice(COMP[lang]), style=r.choice(["dir", "flat"]),
                link=r.choice(["static", "shared"]), opt=r.choice(["-O0", "-O1", "-O2"]), own=[], units=[])
    if lang == "c":
        case["own"] = sorted(r.sample(names, min(len(names), r.choice([0, 1, 3]))))
    if lang != "f" and r.random() < 0.2:
        # the sources themselves as part of the user's project (C: glibc has CMPLX for gcc and C11 only)
        q = random.Random(seed//10**6)
        combos = {"c": [("gcc", s) for s in q.sample(["c11", "c17", "c2x", "gnu11", "gnu17"], 2)],
                  "cpp": [(c, s) for c in COMP["cpp"] for s in q.sample(STD["cpp"], 2)]}[lang]
        case["link"] = "sources"
        case["comp"], case["std"] = r.choice(combos)
    for u in range(r.choice([1, 1, 2, 3])):
        hs = sorted(CAT[lang])
        k = r.choice([1, 1, 2, 3, 5, len(hs)])
        inc = r.sample(hs, min(k, len(hs)))
        langs = {h: lang for h in inc}
        if lang == "cpp" and r.random() < 0.35:
            for h in r.sample(sorted(CAT["c"]), r.choice([1, 2, 4])):
                langs[h] = "c"
                inc.insert(r.randrange(len(inc) + 1), h)
        calls = []
        for _ in range(r.randint(1, 5)):
            h = r.choice(sorted(langs))
            calls.append(gen_call(r, langs[h], h))
        if lang != "f":
            for _ in range(r.choice([0, 0, 1, 3])):
                inc.insert(r.randrange(len(inc) + 1), r.choice(sorted(langs)))     # repeated
            for _ in range(r.choice([0, 0, 1, 2])):
                inc.insert(r.randrange(len(inc) + 1), "<%s>" % r.choice(SYS[lang]))
            if r.random() < 0.15:
                inc.insert(r.randrange(len(inc) + 1), "version.h")
        # the headers must stand on their own: nothing else is included before them
        mine = sorted(n + r.choice(["", "()"]) for n in r.sample(NAMES, r.choice([0, 2, 6]))) if lang != "f" else []
        case["units"].append(dict(inc=inc, calls=calls, form=r.randrange(4), names=mine))
    return case


# ---- source texts

def lit(v, t):
    s = "%.10f" % v
    s = s.rstrip("0")
    if s.endswith("."):
        s += "0"
    return s + SUF[t] if v >= 0 else "(%s)" % (s + SUF[t])


def incline(h, style):
    if h.startswith("<"):
        return "#include %s\n" % h
    return '#include "%s%s"\n' % ("polylogarithm/" if style == "dir" else "", h)


def c_call(c, v, cpp):
    """statements that evaluate a call of the C interface and print its bits"""
    r = REAL[c["t"][-1]]
    n = SIZE[c["t"][-1]]
    T = r + (" _Complex" if len(c["t"]) == 2 else "")
    s = "  {\n"
    s += "    %s a[2] = { %s, %s };\n" % (r, lit(c["x"], c["t"][-1]), lit(c["y"], c["t"][-1]))
    s += "    %s z; __builtin_memcpy(&z, a, sizeof(z));\n" % T
    if cpp:
        s += "    static_assert(ptest::same<decltype(%s(z)), %s>::value, \"type of result\");\n" % (c["fn"], T)
    else:
        s += "    extern char type_of_result[_Generic(%s(z), %s: 1, default: -1)]; (void)type_of_result;\n" % (c["fn"], T) if c["how"] % 2 and v["std"] not in ("c99", "gnu99") else ""
    if c["how"] < 3:
        s += "    %s w = %s(z);\n" % (T, c["fn"])
    else:
        s += "    %s (*p)(%s) = %s%s;\n    %s w = p(z);\n" % (T, T, "&" if c["how"] == 4 else "", c["fn"], T)
    s += "    ptest_out(&w, %d, %d, (int)sizeof(a[0]));\n" % (n, len(c["t"]))
    return s + "  }\n"


def cpp_call(c, form):
    r = REAL[c["t"][-1]]
    t = c["t"][-1]
    cx = len(c["t"]) == 2
    T = "std::complex<%s>" % r if cx else r
    s = "  {\n"
    name = "polylogarithm::" + c["fn"]
    if form == 1:
        s += "    using namespace polylogarithm;\n"
        name = c["fn"]
    elif form == 2:
        s += "    using polylogarithm::%s;\n" % c["fn"]
        name = c["fn"]
    elif form == 3:
        s += "    namespace pl = polylogarithm;\n"
        name = "pl::" + c["fn"]
    x, y = lit(c["x"], t), lit(c["y"], t)
    if cx:
        arg = ["std::complex<%s>(%s, %s)" % (r, x, y), "z", "z", "cz", "-(-z)", "z"][c["how"]]
        s += "    std::complex<%s> z(%s, %s); const std::complex<%s>& cz = z; (void)cz;\n" % (r, x, y, r)
    else:
        arg = [x, "z", "z", "cz", "-(-z)", "z"][c["how"]]
        s += "    %s z = %s; const %s& cz = z; (void)cz;\n" % (r, x, r)
    if c["k"]:
        it = c["it"]
        n = c["n"]
        if n < 0 and it.startswith("unsigned") or abs(n) > 120:
            it = "int"
        s += "    const %s n = %d; (void)n;\n" % (it, n)
        arg = (["n", "%d" % n, "%dL" % n][c["how"] % 3]) + ", " + arg
    s += "    static_assert(ptest::same<decltype(%s(%s)), %s>::value, \"type of result\");\n" % (name, arg, T)
    s += "    const %s w = %s(%s);\n" % (T, name, arg)
    s += "    ptest_out(&w, %d, %d, (int)sizeof(%s));\n" % (SIZE[t], 2 if cx else 1, r)
    return s + "  }\n"


def sources(case):
    """[(file name, text)]"""
    lang = case["lang"]
    out = []
    U = case["units"]
    if lang in ("c", "cpp"):
        ext = "c" if lang == "c" else "cpp"
        for i, u in enumerate(U):
            s = "".join(incline(h, case["style"]) for h in u["inc"])
            s += 'extern "C" {\n' if lang == "cpp" else ""
            s += "void ptest_out(const void*, int, int, int);\n"
            s += "}\n" if lang == "cpp" else ""
            if lang == "cpp":
                s += "namespace ptest { template <typename A, typename B> struct same { enum { value = 0 }; }; template <typename A> struct same<A, A> { enum { value = 1 }; }; }\n"
            if u["names"]:
                s += "namespace mine {\n" if lang == "cpp" else ""
                s += "".join(("static int %s(int v) { return v; }\n" % n[:-2]) if n.endswith("()") else "static const int %s = 42;\n" % n for n in u["names"])
                s += "}\n" if lang == "cpp" else ""
            s += "void unit%d(void);\nvoid unit%d(void)\n{\n" % (i, i)
            s += "".join("  if (%s%s != 42) { ptest_out(\"\", 1, 1, 1); }\n" % ("mine::" if lang == "cpp" else "", n.replace("()", "(42)")) for n in u["names"])
            for c in u["calls"]:
                s += c_call(c, case, lang == "cpp") if c["lang"] == "c" else cpp_call(c, u["form"])
            out.append(("u%d.%s" % (i, ext), s + "}\n"))
        s = "#include <stdio.h>\n#include <string.h>\n"
        s += 'extern "C" {\n' if lang == "cpp" else ""
        s += "void ptest_out(const void*, int, int, int);\n"
        for n in case["own"]:
            s += "int %s(void);\nint %s(void) { return 42; }\n" % (n, n)
        s += "void ptest_out(const void* p, int n, int k, int stride)\n{\n  for (int i = 0; i < k; ++i) {\n    unsigned char b[32];\n    memcpy(b, (const char*)p + i*stride, (size_t)n);\n    for (int j = 0; j < n; ++j) { printf(\"%02x\", b[j]); }\n  }\n  printf(\"\\n\");\n}\n"
        s += "}\n" if lang == "cpp" else ""
        s += "".join("void unit%d(void);\n" % i for i in range(len(U)))
        s += "int main(void)\n{\n" + "".join("  unit%d();\n" % i for i in range(len(U))) + "".join("  if (%s() != 42) { return 3; }\n" % n for n in case["own"]) + "  return 0;\n}\n"
        out.append(("m." + ext, s))
        return out
    # Fortran
    main = "program client\n%s  implicit none\n%s"
    use, body, text = "", "", ""
    internal = ""
    for i, u in enumerate(U):
        inc = ""
        for h in u["inc"]:
            path = ("polylogarithm/" if case["style"] == "dir" else "") + h
            inc += '#include "%s"\n' % path if (u["form"] + len(h)) % 2 else "  include '%s'\n" % path
        dec = "  implicit none\n" + inc + "  double precision :: x, a(3), w\n  double complex :: z, b(2), v\n"
        st = ""
        for c in u["calls"]:
            fl = lambda q: ("%.10fD0" % q)
            st += "  x = %s; a = x; z = dcmplx(%s, %s); b = z\n" % (fl(c["x"]), fl(c["x"]), fl(c["y"]))
            if len(c["t"]) == 2:
                arg = ["z", "b(2)", "z + 0", "dcmplx(%s, %s)" % (fl(c["x"]), fl(c["y"])), "z", "(%s, %s)" % (fl(c["x"]), fl(c["y"]))][c["how"]]
                st += "  v = %s(%s)\n  print '(2Z16.16)', transfer(dble(v), 0_8), transfer(aimag(v), 0_8)\n" % (c["fn"], arg)
                st += "  if (storage_size(%s(z)) /= 128) stop 4\n" % c["fn"]
            else:
                arg = ["x", "a(2)", "x + 0", fl(c["x"]), "x", "dble(z)"][c["how"]]
                st += "  w = %s(%s)\n  print '(Z16.16)', transfer(w, 0_8)\n" % (c["fn"], arg)
                st += "  if (storage_size(%s(x)) /= 64) stop 4\n" % c["fn"]
        form = u["form"]
        proc = "subroutine unit%d()\n%s%send subroutine\n" % (i, dec, st)
        if form == 0:
            text += proc
        elif form == 1:
            text += "module mod%d\n  implicit none\ncontains\n%send module\n" % (i, proc)
            use += "  use mod%d\n" % i
        elif form == 2:
            internal += proc
        else:
            text += "integer function unitf%d()\n%s%s  unitf%d = 0\nend function\n" % (i, dec, st, i)
        if form == 3:
            body += "  if (unitf%d() /= 0) stop 3\n" % i
        else:
            body += "  call unit%d()\n" % i
    decl = "".join("  integer, external :: unitf%d\n" % i for i, u in enumerate(U) if u["form"] == 3)
    text += "program client\n" + use + "  implicit none\n" + decl + body + ("contains\n" + internal if internal else "") + "end program\n"
    return [("m.F90", text)]


LOCKS, SOURCE_LIBS = {}, {}
LOCK = threading.Lock()


def source_library(tmp, lang, comp, std):
    """the sources of one language compiled like the user's own: (archive, error)"""
    key = (tmp, lang, comp, std)
    with LOCK:
        lock = LOCKS.setdefault(key, threading.Lock())
    with lock:
        if key not in SOURCE_LIBS:
            d = tempfile.mkdtemp(dir=tmp, prefix="src.")
            p = os.path.join(REPO, "src", lang)
            fs = sorted(f for f in os.listdir(p) if f.endswith("." + lang))
            def one(f):
                r = run([comp, "-std=" + std, "-O1", "-w", "-I" + p, "-c", os.path.join(p, f), "-o", "%s/%s.o" % (d, f)])
                return None if r.returncode == 0 else "%s does not compile with %s -std=%s: %s" % (f, comp, std, " | ".join([l for l in r.stdout.splitlines() if "error" in l][:2]))
            with cf.ThreadPoolExecutor(4) as ex:
                err = [e for e in ex.map(one, fs) if e]
            if not err:
                run(["ar", "rcs", d + "/lib.a"] + ["%s/%s.o" % (d, f) for f in fs])
            SOURCE_LIBS[key] = (d + "/lib.a", err[0] if err else None)
        return SOURCE_LIBS[key]


def close(a, b, t):
    """results of different compilers: equal up to rounding"""
    n, p = SIZE[t[-1]], t[-1]
    def num(s):
        raw = bytes.fromhex(s)
        if p == F: return struct.unpack("<f", raw)[0]
        if p == D: return struct.unpack("<d", raw)[0]
        m, e = struct.unpack("<QH", raw)
        return (-1 if e & 0x8000 else 1)*math.ldexp(m, (e & 0x7fff) - 16383 - 63) if e & 0x7fff != 0x7fff else math.nan
    if len(a) != len(b):
        return False
    za = [num(a[i:i + 2*n]) for i in range(0, len(a), 2*n)]
    zb = [num(b[i:i + 2*n]) for i in range(0, len(b), 2*n)]
    s = max(abs(v) for v in zb)
    tol = {F: 1e-4, D: 1e-10, L: 1e-12}[p]
    return all(x == y or abs(x - y) <= tol*(s + 1e-3) for x, y in zip(za, zb))


def fortran_bits(line):
    """hexadecimal digits of 64-bit integers, most significant first -> bytes in memory order"""
    line = line.strip()
    return "".join(bytes.fromhex(line[i:i + 16])[::-1].hex() for i in range(0, len(line), 16))


def commands(case, tmp, d, files):
    lang, p = case["lang"], tmp + "/" + case["link"]
    inc = ["-I" + p + "/include"] if case["style"] == "dir" else ["-I" + p + "/include/polylogarithm"]
    warn = {"c": ["-Wall", "-Wextra", "-Werror", "-Wstrict-prototypes"], "cpp": ["-Wall", "-Wextra", "-Werror"], "f": ["-w"]}[lang]
    if lang == "cpp" and any(c["lang"] == "c" for u in case["units"] for c in u["calls"]):
        warn.append("-Wno-return-type-c-linkage")
    libs = {"c": ["c"], "cpp": ["cpp"], "f": ["fortran"]}[lang]
    if any(c["lang"] == "c" for u in case["units"] for c in u["calls"]) and "c" not in libs:
        libs = libs + ["c"]
    if case["link"] == "sources":
        l = [source_library(tmp, lang, case["comp"], case["std"])[0]] + (["%s/static/lib/libpolylogarithm_c.a" % tmp] if "c" in libs[1:] else [])
        inc = ["-I" + tmp + "/static/include"] if case["style"] == "dir" else ["-I" + tmp + "/static/include/polylogarithm"]
    elif case["link"] == "static":
        l = [p + "/lib/libpolylogarithm_%s.a" % x for x in libs]
    else:
        l = ["-L" + p + "/lib", "-Wl,-rpath," + p + "/lib"] + ["-lpolylogarithm_" + x for x in libs]
    return [[case["comp"], "-std=" + case["std"], case["opt"]] + warn + inc + [d + "/" + f for f in files] + ["-o", d + "/a.out"] + l + ["-lm"]]


def evaluate(case, tmp, table):
    """None if it passes, else what fails"""
    d = tempfile.mkdtemp(dir=tmp, prefix="case.")
    try:
        src = sources(case)
        if case["link"] == "sources":
            e = source_library(tmp, case["lang"], case["comp"], case["std"])[1]
            if e:
                return e
        for f, t in src:
            open(os.path.join(d, f), "w").write(t)
        for cmd in commands(case, tmp, d, [f for f, _ in src]):
            try:
                r = run(cmd, cwd=d, timeout=120)
            except subprocess.TimeoutExpired:
                return "the compiler does not end"
            if r.returncode:
                return "does not compile or link: " + re.sub(r"/tmp/(\S*/|cc\w+\.o:)", "", " | ".join([l for l in r.stdout.splitlines() if re.search(r"[Ee]rror|undefined|multiple|ambig", l)][:3]) or r.stdout[-300:])
        try:
            r = run([d + "/a.out"], cwd=d, timeout=60)
        except subprocess.TimeoutExpired:
            return "the program does not end"
        if r.returncode:
            return "the program ends with %d %s" % (r.returncode, r.stdout[-200:])
        got = r.stdout.split("\n")[:-1]
        # order of evaluation: the units in order
        calls = [c for u in case["units"] for c in u["calls"]]
        if case["lang"] == "f":
            got = [fortran_bits(g) for g in got]
        if len(got) != len(calls):
            return "%d results instead of %d" % (len(got), len(calls))
        for c, g in zip(calls, got):
            if g != table[call_key(c)] and not (case["link"] == "sources" and close(g, table[call_key(c)], c["t"])):
                return "%s%s(%s%r%s) is %s in this program, but %s" % (c["fn"], "<%s>" % c["t"], "%d, " % c["n"] if c["k"] else "", c["x"], ", %r" % c["y"] if len(c["t"]) == 2 else "", g, table[call_key(c)])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- shrinking: delta debugging of the program

def smaller(case):
    import copy
    def cp():
        return copy.deepcopy(case)
    for i in range(len(case["units"])):
        if len(case["units"]) > 1:
            c = cp(); del c["units"][i]; yield c
    for n in case["own"]:
        c = cp(); c["own"].remove(n); yield c
    for i, u in enumerate(case["units"]):
        for j in range(len(u["calls"])):
            if len(u["calls"]) > 1:
                c = cp(); del c["units"][i]["calls"][j]; yield c
        need = set(x["h"] for x in u["calls"])
        for j, h in enumerate(u["inc"]):
            if h not in need or u["inc"].count(h) > 1:
                c = cp(); del c["units"][i]["inc"][j]; yield c
        for n in u["names"]:
            c = cp(); c["units"][i]["names"].remove(n); yield c
        if u["form"]:
            c = cp(); c["units"][i]["form"] = 0; yield c
        for j, x in enumerate(u["calls"]):
            if x["how"] != 1:
                c = cp(); c["units"][i]["calls"][j]["how"] = 1; yield c
            if x["it"] != "int":
                c = cp(); c["units"][i]["calls"][j]["it"] = "int"; yield c
    for k, v in (("link", "static"), ("style", "flat"), ("opt", "-O0"), ("comp", COMP[case["lang"]][0]), ("std", {"c": "c11", "cpp": "c++11", "f": "gnu"}[case["lang"]])):
        if case[k] != v:
            c = cp(); c[k] = v; yield c


def shrink(case, why, tmp, table):
    end = time.time() + 60
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in smaller(case):
            if time.time() > end:
                break
            w = evaluate(c, tmp, table)
            if w:
                case, why, progress = c, w, True
                break
    return case, why


def describe(case):
    return "%s -std=%s %s %s: %s" % (case["comp"], case["std"], case["link"], case["style"],
        " / ".join("[%s] %s" % (" ".join(u["inc"]), ", ".join("%s(%s)" % (c["fn"], c["t"]) for c in u["calls"])) for u in case["units"]))


def search(prop, spec, tier, seed, replay, replay_path, root, known):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    try:
        table, bad, results, cases = {}, [], [], []
        err = build_library(tmp)
        if err:
            raise RuntimeError(err)
        names = internal_names()
        err = build_baseline(tmp)
        if err:
            bad.append(dict(property=prop, kind="iface", case=None, why=err))
        if replay:
            w = err
            if not err and replay["case"]:
                baseline(tmp, [replay["case"]], table)
                w = evaluate(replay["case"], tmp, table)
            if w:
                print(w)
                print("VIOLATION property=%s replay=%s" % (prop, replay_path))
                return 1
            print("passes")
            return 0
        if not err:
            count = spec["phases"][0][tier]
            cases = [gen_case(seed*10**6 + i, names) for i in range(count)]
            baseline(tmp, cases, table)
            limit = t0 + (600 if tier == "quick" else 3000)
            def one(c):
                return evaluate(c, tmp, table) if time.time() < limit else "skipped"
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                results = list(ex.map(one, cases))
            done = [(c, w) for c, w in zip(cases, results) if w != "skipped"]
            seen = set()
            tried = 0
            for c, w in done:
                if w and len(bad) < 3 and tried < 5:
                    tried += 1
                    again = [evaluate(c, tmp, table) for _ in range(2)]
                    if not all(again):
                        continue
                    s, why = shrink(c, w, tmp, table)
                    key = re.sub(r"[\d.]+", "", why)
                    if key in seen:
                        continue
                    seen.add(key)
                    bad.append(dict(property=prop, kind="iface", case=s, why=why, program={f: t for f, t in sources(s)},
                                    command=[" ".join(x) for x in commands(s, "LIB", ".", [f for f, _ in sources(s)])]))
            cases = [c for c, _ in done]
        nontrivial = [c for c in cases if sum(len(u["calls"]) for u in c["units"]) >= 2 or sum(len(u["inc"]) for u in c["units"]) >= 2]
        labels = {}
        for c in cases:
            for k in ("lang", "std", "comp", "style", "link"):
                labels["%s=%s" % (k, c[k])] = labels.get("%s=%s" % (k, c[k]), 0) + 1
            labels["units=%d" % len(c["units"])] = labels.get("units=%d" % len(c["units"]), 0) + 1
            for u in c["units"]:
                for x in u["calls"]:
                    labels["call " + x["fn"] + "." + x["t"]] = labels.get("call " + x["fn"] + "." + x["t"], 0) + 1
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=len(cases), distinct_nontrivial=len(set(json.dumps({k: v for k, v in c.items() if k != "seed"}, sort_keys=True) for c in nontrivial)),
                                rule=spec["rule"], samples=[describe(c) for c in cases[:25]] or ["(none)"], cases_per_class=dict(sorted(labels.items())),
                                calls_compared=sum(len(u["calls"]) for c in cases for u in c["units"]), names_of_the_user=names),
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
        os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(root, "evidence", prop + ".json"), "w"), indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("%s: %d programs, %d distinct non-trivial, %.1f s" % (prop, len(cases), ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
        if bad:
            d = os.path.join(root, "replays")
            os.makedirs(d, exist_ok=True)
            for c in bad:
                text = json.dumps(c, indent=1)
                path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
                open(path, "w").write(text)
                print("  " + c["why"])
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
