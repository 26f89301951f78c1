#!/usr/bin/env python3
"""check.py PROP [--replay FILE]

Decides one property of the working tree of /repo by generated-input search.
Tier and seed: VERIF_TIER (quick, thorough), VERIF_SEED.
Exit 0: held on everything explored.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: a reproduced counterexample.
Exit 2: the check itself could not run."""
import concurrent.futures as cf
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

TOOLS = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(TOOLS)
sys.path.insert(0, TOOLS)
sys.dont_write_bytecode = True
from props import PROPS, BUILDS, TRUST, BUILD

REPO = os.environ.get("REPO", "/repo")
WORKERS = 8
HARNESS = ["acc", "meta", "num", "hist", "extra", "main"]


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def must(cmd, **kw):
    p = run(cmd, **kw)
    if p.returncode != 0:
        raise CheckError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def build(names, out):
    """binaries for the given build names: {name: path}"""
    H = os.path.join(ROOT, "harness")
    impl = os.path.join(TOOLS, "build_impl.sh")
    res = {}
    with cf.ThreadPoolExecutor(16) as ex:
        jobs = []
        pbt = [n for n in names if n in BUILDS]
        plain = [n for n in pbt if n != "tsan"]
        if plain:
            os.makedirs(out + "/h", exist_ok=True)
            for f in HARNESS:
                jobs.append(ex.submit(must, ["g++", "-std=gnu++17", "-O2", "-I" + H, "-c", "%s/%s.cpp" % (H, f), "-o", "%s/h/%s.o" % (out, f)]))
        if "tsan" in pbt:
            os.makedirs(out + "/ht", exist_ok=True)
            for f in HARNESS:
                jobs.append(ex.submit(must, ["g++", "-std=gnu++17", "-O1", "-g", "-fsanitize=thread", "-I" + H, "-c", "%s/%s.cpp" % (H, f), "-o", "%s/ht/%s.o" % (out, f)]))
        for n in pbt:
            jobs.append(ex.submit(must, ["bash", impl, "%s/i.%s" % (out, n)] + BUILDS[n]))
        if "fuzz" in names:
            jobs.append(ex.submit(must, ["bash", os.path.join(TOOLS, "build_fuzz.sh"), out + "/f"]))
            res["fuzz"] = out + "/f/fuzz"
        if "memcheck" in names:
            jobs.append(ex.submit(must, ["bash", impl, out + "/i.memcheck", "g++", "gcc", "gfortran", "-O1 -g"]))
            jobs.append(ex.submit(must, ["g++", "-std=gnu++17", "-O1", "-g", "-I" + H, "-c", H + "/calls.cpp", "-o", out + "/calls.o"]))
        if "sweep" in names:
            jobs.append(ex.submit(must, ["bash", impl, out + "/i.sweep"]))
            jobs.append(ex.submit(must, ["g++", "-std=gnu++17", "-O2", "-I" + H, "-c", H + "/sweep.cpp", "-o", out + "/sweep.o"]))
        plat = {"ld64": "64", "ld128": "128"}
        plat = {n: b for n, b in plat.items() if n in names}
        if plat:
            os.makedirs(out + "/hp", exist_ok=True)
            for f in ("main", "acc"):
                jobs.append(ex.submit(must, ["g++", "-std=gnu++17", "-O2", "-I" + H, "-c", "%s/%s.cpp" % (H, f), "-o", "%s/hp/%s.o" % (out, f)]))
        if "cov" in names:
            os.makedirs(out + "/hc", exist_ok=True)
            for f in ("main", "acc", "cost"):
                jobs.append(ex.submit(must, ["g++", "-std=gnu++17", "-O2", "-I" + H, "-c", "%s/%s.cpp" % (H, f), "-o", "%s/hc/%s.o" % (out, f)]))
            jobs.append(ex.submit(must, ["bash", impl, out + "/i.cov", "g++", "gcc", "gfortran", "-O1 -g -fsanitize-coverage=trace-pc"]))
        for n, b in plat.items():
            jobs.append(ex.submit(must, ["bash", os.path.join(TOOLS, "build_platform.sh"), "%s/i.%s" % (out, n), b]))
            jobs.append(ex.submit(must, ["g++", "-std=gnu++17", "-O2", "-DPL=" + b, "-I" + H, "-c", H + "/platform.cpp", "-o", "%s/hp/platform%s.o" % (out, b)]))
        for j in jobs:
            j.result()
        libs = ["-lgfortran", "-lquadmath", "-lm", "-lpthread"]
        jobs = []
        for n in pbt:
            res[n] = "%s/pbt.%s" % (out, n)
            hd, fl = ("ht", ["-fsanitize=thread"]) if n == "tsan" else ("h", [])
            jobs.append(ex.submit(must, ["g++"] + fl + ["%s/%s/%s.o" % (out, hd, f) for f in HARNESS] + ["%s/i.%s/impl.a" % (out, n), "-lrapidcheck"] + libs + ["-o", res[n]]))
        if "cov" in names:
            res["cov"] = out + "/pbt.cov"
            wrap = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign")]
            jobs.append(ex.submit(must, ["g++"] + wrap + ["%s/hc/%s.o" % (out, f) for f in ("main", "acc", "cost")] + [out + "/i.cov/impl.a", "-lrapidcheck"] + libs + ["-o", res["cov"]]))
        for n, bits in plat.items():
            res[n] = "%s/pbt.%s" % (out, n)
            jobs.append(ex.submit(must, ["g++"] + ["%s/hp/%s.o" % (out, f) for f in ("main", "acc", "platform" + bits)] + ["%s/i.%s/impl.a" % (out, n), "-lrapidcheck"] + libs[1:] + ["-o", res[n]]))
        if "memcheck" in names:
            res["memcheck"] = out + "/calls"
            jobs.append(ex.submit(must, ["g++", out + "/calls.o", out + "/i.memcheck/impl.a"] + libs + ["-o", res["memcheck"]]))
        if "sweep" in names:
            res["sweep"] = out + "/sweep"
            jobs.append(ex.submit(must, ["g++", out + "/sweep.o", out + "/i.sweep/impl.a"] + libs + ["-o", res["sweep"]]))
        for j in jobs:
            j.result()
    return res


def environment(phase, tmp):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIF_") or k in ("OMP_NUM_THREADS",):
            del e[k]
    e["VERIF_DICT"] = tmp + "/dict.txt"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    e.update(phase["env"])
    return e


def one_cmd(phase, bins, line):
    """command that evaluates one case"""
    b = bins[phase["build"]]
    if phase["kind"] == "pbt":
        return [b, "one", phase["prop"], line]
    if phase["kind"] == "memcheck":
        return ["valgrind", "-q", b, "one", line]
    return [b, "one", line]


def fails(phase, bins, tmp, line, timeout=120):
    """None: passes; else what fails"""
    try:
        p = run(one_cmd(phase, bins, line), env=environment(phase, tmp), timeout=timeout)
    except subprocess.TimeoutExpired:
        return "no result"
    if p.returncode in (0, 5):
        return None
    if p.returncode == 2:
        raise CheckError("cannot evaluate %s: %s" % (line, p.stdout[-2000:]))
    t = [l for l in p.stdout.splitlines() if l.startswith("FAIL")]
    if t:
        return t[0][5:]
    t = [l for l in p.stdout.splitlines() if "runtime error" in l or "ERROR" in l or "NO RESULT" in l or "Fortran runtime" in l or "ABORT" in l]
    return (t[0] if t else p.stdout[-300:]).strip() + " (exit %d)" % p.returncode


def shrink(phase, bins, tmp, line, why):
    """greedy, for failures that end the process; pbt failures are shrunk by rapidcheck"""
    if "no result" in why.lower():
        return line, why
    pbt = bins["fuzz"] if phase["kind"] == "memcheck" else bins[phase["build"]]
    budget = time.time() + 60
    progress = True
    while progress and time.time() < budget:
        progress = False
        for cand in run([pbt, "candidates", line]).stdout.splitlines():
            if time.time() > budget:
                break
            w = fails(phase, bins, tmp, cand)
            if w and "no result" not in w.lower():
                line, why, progress = cand, w, True
                break
    return line, why


def parse(path):
    d = dict(evals=0, nontrivial=0, labels={}, samples=[], worst=[], fail=None, abort=None, error=None, end=False, other={})
    try:
        text = open(path, errors="replace").read()
    except OSError:
        return d
    for l in text.splitlines():
        f = l.split("\t")
        if f[0] == "EVALS": d["evals"] = int(f[1])
        elif f[0] == "NONTRIVIAL": d["nontrivial"] = int(f[1])
        elif f[0] == "LABEL": d["labels"][f[2]] = d["labels"].get(f[2], 0) + int(f[1])
        elif f[0] == "SAMPLE": d["samples"].append(f[2])
        elif f[0] == "WORST": d["worst"].append((float(f[1]), float(f[2]), int(f[3]), f[4], f[5]))
        elif f[0] == "FAIL": d["fail"] = (f[1], f[2])
        elif f[0] == "ABORT": d["abort"] = (f[1], f[2])
        elif f[0] == "ERROR": d["error"] = l
        elif f[0] == "END": d["end"] = True
        elif len(f) == 2: d["other"][f[0]] = f[1]
    return d


def worker(phase, bins, tmp, i, tier, seed, index):
    """runs worker i of a phase: (command, result)"""
    out = "%s/out.%d.%d" % (tmp, index, i)
    b = bins[phase["build"]]
    env = environment(phase, tmp)
    count = phase[tier]
    s = seed*1000 + index*100 + i + 1
    if phase["kind"] == "pbt":
        cmd = [b, "run", phase["prop"], str(s), str(count), out]
    elif phase["kind"] == "memcheck":
        cmd = ["valgrind", "-q", b, "run", str(s), str(count), out]
    elif phase["kind"] == "sweep":
        n = 1 << 32
        cmd = [b, "run", str(count), str(seed % count), str(i*n//WORKERS), str((i + 1)*n//WORKERS), out]
    else:
        os.makedirs("%s/corpus.%d" % (tmp, i), exist_ok=True)
        env["FUZZ_STATS"] = out
        cmd = [b, "-runs=%d" % count, "-seed=%d" % s, "-max_len=30", "-len_control=0", "-use_value_profile=1", "-timeout=0", "-rss_limit_mb=6000", "-verbosity=0",
               "-artifact_prefix=%s/art.%d." % (tmp, i), "%s/corpus.%d" % (tmp, i)]
    limit = 700 if tier == "quick" else 3000
    try:
        p = run(cmd, env=env, timeout=limit, cwd=tmp)
    except subprocess.TimeoutExpired:
        raise CheckError("worker did not end: " + " ".join(cmd))
    r = parse(out)
    r["rc"], r["log"], r["cmd"], r["hash"] = p.returncode, p.stdout, cmd, out + ".hash"
    r["phase"], r["index"], r["worker"], r["seed"] = phase, index, i, s
    if phase["kind"] == "fuzz" and p.returncode != 0:
        art = sorted(f for f in os.listdir(tmp) if f.startswith("art.%d." % i))
        if not art:
            raise CheckError("fuzz target: exit %d\n%s" % (p.returncode, p.stdout[-3000:]))
        line = run([b, "decode", tmp + "/" + art[0]], env=env).stdout.strip().splitlines()[-1]
        r["abort"] = (p.stdout[-300:], line)
    elif p.returncode not in (0, 1) and not r["abort"]:
        if phase.get("build") == "tsan" and p.returncode == 66:
            r["abort"] = ("thread sanitizer: " + "".join(l + " " for l in p.stdout.splitlines() if "WARNING" in l or "Location" in l or " #0" in l)[:600], None)
        else:
            raise CheckError("%s: exit %d\n%s" % (" ".join(cmd), p.returncode, p.stdout[-3000:]))
    elif p.returncode == 1 and not r["fail"]:
        raise CheckError("%s: exit 1 without a counterexample\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    if r["error"]:
        raise CheckError(r["error"])
    return r


def confirm(prop, r, bins, tmp):
    """(description, replay) if the failure reproduces, else None"""
    phase = r["phase"]
    rep = dict(property=prop, build=phase["build"], kind=phase["kind"], prop=phase["prop"], env=phase["env"])
    why, line = r["fail"] or r["abort"]
    crash = not r["fail"]
    if line:
        n = 3 if "no result" not in why.lower() else 1
        tries = phase.get("tries", n)
        hits = 0
        for _ in range(tries):
            w = fails(phase, bins, tmp, line)
            if w:
                hits, why = hits + 1, w
            elif tries == n:
                break
            if hits >= n:
                break
        if hits >= n:
            if crash or phase["kind"] == "memcheck":
                line, why = shrink(phase, bins, tmp, line, why)
            rep.update(line=line, why=why)
            return rep
    # not by itself: the same search again (a failure that depends on earlier calls)
    if phase["kind"] == "pbt":
        again = 0
        for _ in range(2):
            p = run(r["cmd"], env=environment(phase, tmp), cwd=tmp)
            q = parse(r["cmd"][-1])
            if p.returncode != 0 and (q["fail"] or q["abort"] or p.returncode == 66):
                again += 1
        if again == 2:
            rep.update(search=r["cmd"][1:-1], why=why + " (only after the earlier calls of the search)", line=line)
            return rep
    return None


def distinct(files, bins):
    files = [f for f in files if os.path.exists(f)]
    if not files:
        return 0
    import array
    n = sum(os.path.getsize(f) for f in files)//8
    if n > 3000000:
        try:
            import numpy as np
            return int(np.unique(np.concatenate([np.fromfile(f, dtype=np.uint64) for f in files])).size)
        except ImportError:
            pass
    s = set()
    for f in files:
        a = array.array("Q")
        a.frombytes(open(f, "rb").read())
        s.update(a)
    return len(s)


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
    if spec["phases"][0]["kind"] == "iface":
        import iface
        return iface.search(prop, spec, tier, seed, replay, sys.argv[-1], ROOT, known_findings(prop))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    try:
        phases = [dict(p) for p in spec["phases"] if p[tier] > 0 or replay]
        names = sorted(set(p["build"] for p in phases)) if not replay else [replay["build"]]
        with open(tmp + "/dict.txt", "w") as f:
            f.write(subprocess.run([sys.executable, os.path.join(TOOLS, "dict.py"), REPO], stdout=subprocess.PIPE, text=True, check=True).stdout)
        bins = build(names, tmp)
        if replay:
            ph = [p for p in phases if p["build"] == replay["build"] and p["kind"] == replay["kind"] and p["env"] == replay["env"]][0]
            if "search" in replay:
                p = run([bins[ph["build"]]] + replay["search"] + [tmp + "/o"], env=environment(ph, tmp))
                q = parse(tmp + "/o")
                w = (q["fail"] or q["abort"] or ("exit %d" % p.returncode,))[0] if p.returncode else None
            else:
                w = None
                for _ in range(ph.get("tries", 1)):
                    w = w or fails(ph, bins, tmp, replay["line"])
            if w:
                print(w)
                print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
                return 1
            print("passes")
            return 0
        tsan_ok = True
        notes = []
        if "tsan" in names:
            p = run([bins["tsan"], "candidates", "CONC;0;1,2;0x0p+0,0x0p+0"])
            if p.returncode != 0:
                tsan_ok = False
                notes.append("the thread sanitizer does not start here: " + p.stdout[:200])
        tasks = []
        for index, ph in enumerate(phases):
            if ph["build"] == "tsan" and not tsan_ok:
                continue
            for i in range(ph.get("workers", WORKERS)):
                tasks.append((ph, i, index))
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            results = list(ex.map(lambda t: worker(t[0], bins, tmp, t[1], tier, seed, t[2]), tasks))
        bad, unconfirmed = [], []
        for r in results:
            if r["fail"] or r["abort"]:
                if len(bad) >= 3:
                    break
                c = confirm(prop, r, bins, tmp)
                (bad if c else unconfirmed).append(c or "%s: %s" % (r["phase"]["prop"], (r["fail"] or r["abort"])))
        # ---- evidence
        labels, samples, worst, knowns = {}, [], {}, {}
        for r in results:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for s in r["samples"]:
                if len(samples) < 60 and s not in samples:
                    samples.append(s)
            for v, K, n, key, at in r["worst"]:
                o = worst.get(key)
                if o is None or v > o[0]:
                    worst[key] = [v, K, n + (o[2] if o else 0), at]
                else:
                    o[2] += n
        cov = dict(evaluations=sum(r["evals"] for r in results),
                   distinct_nontrivial=0,
                   rule=spec["rule"],
                   samples=samples[:40],
                   cases_per_class=dict(sorted(labels.items())),
                   builds={ph["build"]: " ".join(BUILDS.get(ph["build"], []) or ["default"]) for ph in phases},
                   largest_errors=[dict(key=k, fraction_of_bound=v[0], bound=v[1], cases=v[2], at=v[3]) for k, v in sorted(worst.items(), key=lambda t: -t[1][0])[:12]])
        if phases[0]["kind"] == "sweep":
            cov["distinct_nontrivial"] = sum(r["nontrivial"] for r in results) # (bit patterns are visited once)
            cov["exhaustive"] = tier == "thorough"
            cov["oracle_error_units"] = max(float(r["other"].get("ORACLE", 0)) for r in results)
        else:
            cov["distinct_nontrivial"] = distinct([r["hash"] for r in results], bins)
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=TRUST*(prop not in ("C19", "C20", "C14")) + BUILD + spec.get("assumptions", []) + notes
                  + ["a failure that did not reproduce, not reported: " + u for u in unconfirmed],
                  wall_s=round(time.time() - t0, 2), violations=len(bad))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
        for u in unconfirmed:
            print("not reproduced:", u)
        if bad:
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            for c in bad:
                text = json.dumps(c, indent=1)
                path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
                with open(path, "w") as f:
                    f.write(text)
                print("  " + c["why"])
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    try:
        k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    except OSError:
        return []
    return [f["what"] for f in k.get("open", []) if f["property"] == prop]


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
