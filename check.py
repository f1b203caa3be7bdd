#!/usr/bin/env python3
"""Decides one property of gcem by generated-input search.

  check.py <property> [quick|thorough]     run the check (seed: $VERIF_SEED)
  check.py --setup                         build the engine
  check.py --replay <file>                 re-run a saved failing case

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Everything is rebuilt from /repo's working tree, outside /repo.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(BUILD, "replays")
NCPU = os.cpu_count() or 4
TYPES = {'f': 'float', 'd': 'double', 'e': 'long double', 'b': 'bool', 'c': 'char', 'a': 'signed char', 'h': 'unsigned char', 's': 'short',
         't': 'unsigned short', 'i': 'int', 'j': 'unsigned int', 'l': 'long', 'm': 'unsigned long', 'x': 'long long', 'y': 'unsigned long long'}
UB = ["-fsanitize=undefined,float-cast-overflow", "-fsanitize-trap=all", "-fno-sanitize=float-divide-by-zero"]
# builds of the code under test: name -> compiler command
VARIANTS = {
    "gcc-c++11":      ["g++", "-std=c++11", "-O2"],
    "clang-c++17":    ["clang++", "-std=c++17", "-O2"],
    "gcc-c++20-O0":   ["g++", "-std=c++20", "-O0"],
    "clang-c++11-O0": ["clang++", "-std=c++11", "-O0"],
    "gcc-c++14-O3":   ["g++", "-std=c++14", "-O3"],
    "gcc-c++17":      ["g++", "-std=c++17", "-O2"],
    "clang-c++20":    ["clang++", "-std=c++20", "-O1"],
    "clang-ubsan":    ["clang++", "-std=c++17", "-O1"] + UB,
    "gcc-ubsan":      ["g++", "-std=c++11", "-O1"] + UB[:2],
}


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ engine
def engine():
    """Build (once) and return the path of the engine."""
    src = sorted(glob.glob(os.path.join(VERIF, "engine", "*")))
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    exe = os.path.join(d, "engine")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, "engine-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        objs = []

        def cc(f):
            o = os.path.join(d, os.path.basename(f)[:-4] + ".o")
            objs.append(o)
            return run(["g++", "-std=gnu++17", "-O2", "-w", "-c", f, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(cc, [f for f in src if f.endswith(".cpp")]):
                if r.returncode:
                    raise Inconclusive("engine does not build: " + r.stderr[:2000])
        r = run(["g++"] + sorted(objs) + ["-o", exe + ".tmp", "-lquadmath", "-ldl"])
        if r.returncode:
            raise Inconclusive("engine does not link: " + r.stderr[:2000])
        os.rename(exe + ".tmp", exe)
    return exe


# ------------------------------------------------------------------ dictionary of numeric constants of the code under test
NUM = re.compile(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?|0x[0-9a-fA-F]+)[uUlLfF]*(?![\w.])")


def dictionary(path):
    from collections import Counter
    c = Counter()
    for f in sorted(glob.glob(os.path.join(INC, "**", "*.hpp"), recursive=True)):
        if "gauss_legendre" in f:
            continue
        t = open(f, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        for m in NUM.finditer(t):
            s = m.group(1)
            try:
                v = float(int(s, 16)) if s.startswith("0x") else float(s)
            except ValueError:
                continue
            if v == v and abs(v) < 1e4930:
                c[s] += 1
    with open(path, "w") as f:
        for s in sorted(c):
            f.write(s + "\n")
    return len(c)


# ------------------------------------------------------------------ shims
def shim_sources(entries, d, tag, parts):
    by = {}
    for fn, codes in entries:
        by.setdefault(fn, []).append(codes)
    groups = [[] for _ in range(parts)]
    load = [0] * parts
    heavy = lambda fn: 12 if fn.startswith("incomplete_beta") else 6 if fn.startswith("incomplete") else 2
    for fn, cs in sorted(by.items(), key=lambda kv: -len(kv[1]) * heavy(kv[0])):
        k = load.index(min(load))
        groups[k].append((fn, cs))
        load[k] += len(cs) * heavy(fn) + 3
    out = []
    for k, g in enumerate(groups):
        if not g:
            continue
        p = os.path.join(d, "%s_%d.cpp" % (tag, k))
        with open(p, "w") as f:
            f.write('#include "%s/shim/shim.hpp"\n' % VERIF)
            for fn, cs in g:
                f.write("SHIM%d(%s)\n" % (len(cs[0]), fn))
            f.write('extern "C" const ShimEntry* shim_table(int* n) {\n')
            for fn, cs in g:
                for c in cs:
                    f.write("    S_%s<%s>::add();\n" % (fn, ", ".join(TYPES[x] for x in c)))
            f.write("    *n = g_n; return g_tab;\n}\n")
        out.append(p)
    return out


def control_ok(cmd, d):
    """Does the toolchain itself work with these flags (independently of the code under test)?"""
    p = os.path.join(d, "control.cpp")
    with open(p, "w") as f:
        f.write("#include <limits>\n#include <type_traits>\n#include <cstddef>\ntemplate<class T> constexpr T f(T x) { return x < T(1) ? x : f(x - T(1)); }\n"
                "constexpr double v = f(10.5);\nextern \"C\" double g(double x) { return f(x) + v; }\n")
    return run(cmd + ["-w", "-fPIC", "-shared", p, "-o", os.path.join(d, "control.so")]).returncode == 0


def build_libs(eng, props, variants, d, parts=None, extra=()):
    """Compile the shims of the entry points that the specs of `props` call. Returns (lib args, compile failures)."""
    entries = []
    for p in props:
        r = run([eng, "--prop", p, "--needs"] + list(extra))
        if r.returncode:
            raise Inconclusive("engine --needs failed")
        entries += [tuple(l.split()) for l in r.stdout.splitlines() if l.strip()]
    entries = sorted(set(entries))
    if parts is None:
        parts = max(1, min(8, len(entries) // 60 + 1))
    src = shim_sources(entries, d, "shim", parts)
    jobs = [(v, s) for v in variants for s in src]

    def cc(j):
        v, s = j
        o = os.path.join(d, v.replace("+", "p") + "_" + os.path.basename(s)[:-4] + ".so")
        cmd = VARIANTS[v] + ["-w", "-fPIC", "-shared", "-fno-lto", "-I", INC, s, "-o", o]
        r = run(cmd)
        if r.returncode and "error:" not in r.stderr:   # e.g. the compiler was killed: try once more
            r = run(cmd)
        return v, s, o, r, cmd
    libs, bad = {}, []
    with ThreadPoolExecutor(NCPU) as ex:
        for v, s, o, r, cmd in ex.map(cc, jobs):
            if r.returncode:
                bad.append((v, s, r, cmd))
            else:
                libs.setdefault(v, []).append(o)
    if bad:
        v, s, r, cmd = bad[0]
        if not control_ok(VARIANTS[v], d):
            raise Inconclusive("the toolchain does not work: " + " ".join(VARIANTS[v]))
        if "error:" not in r.stderr:
            raise Inconclusive("compiler failure without diagnostics: " + r.stderr[-500:])
    return ["%s=%s" % (v, ",".join(libs[v])) for v in variants if v in libs], bad, entries


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.t0 = prop, tier, seed, time.time()
        self.violations = []           # (key, description, replay dict)
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []

    def violation(self, key, what, replay):
        self.violations.append((key, what, replay))

    def finish(self):
        known = known_findings(self.prop)
        new, old = [], []
        for key, what, replay in self.violations:
            (old if any(k["match"] == key for k in known) else new).append((key, what, replay))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(EVID, self.prop + ".json"))
        if new:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (key, what, replay) in enumerate(new[:6]):
                p = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, i))
                json.dump(dict(replay, property=self.prop, key=key, what=what), open(p, "w"), indent=1)
                print("  " + what[:700])
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()
            return 1
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d %.1fs" %
              (self.prop, self.tier, self.seed, self.cov["evaluations"], self.cov["distinct_nontrivial"], time.time() - self.t0))
        return 0


def known_findings(prop):
    """Lines 'known: property=<id> match=<key> <what>' of KNOWN_FINDINGS.txt ('fixed:' lines suppress nothing)."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


def run_engine(rep, eng, props, libs, d, cases, sweep, extra=(), workers=NCPU):
    dict_f = os.path.join(d, "dict.txt")
    if not os.path.exists(dict_f):
        rep.cov["dictionary_constants"] = dictionary(dict_f)
    out = os.path.join(d, "out.json")
    cmd = [eng, "--seed", str(rep.seed), "--cases", str(cases), "--sweep", str(sweep), "--dict", dict_f, "--workers", str(min(16, workers)), "--out", out]
    cmd += ["--budget", "14400" if rep.tier == "thorough" else "420"]
    for p in props:
        cmd += ["--prop", p]
    for l in libs:
        cmd += ["--lib", l]
    cmd += list(extra)
    r = run(cmd, cwd=d)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise Inconclusive("engine ended with status %d: %s" % (r.returncode, r.stderr[-1500:]))
    if r.stderr.strip():
        log(r.stderr[-1500:])
    o = json.load(open(out))
    os.unlink(out)
    return o


QUICK = {"C01": 24000000, "C02": 24000000, "C03": 16000000, "C04": 6000000, "C05": 20000000, "C06": 10000000, "C07": 12000000, "C08": 5000000, "C09": 4000000, "C10": 9000000,
         "C11": 8000000, "C12": 8000000, "C13": 6000000, "C14": 2500000, "C15": 2000000, "C16": 1000000, "C17": 3600000, "C18": 500000, "C19": 5000000, "C20": 1200000,
         "C23": 200000, "C24": 400000, "C25": 150000, "C27": 150000, "C28": 500000}
RULE = {
    "value": "A case is one call (function, argument types, arguments) drawn from the seeded generator: uniform, log-uniform over all exponents, integers and simple fractions, powers of 2 and 10, "
             "neighbours of domain bounds, integers and half-integers, values near every numeric constant that occurs in /repo's headers (and simple functions of it), IEEE special values, and for unary "
             "functions a stratified sweep of all 2^32 float bit patterns. Each case is evaluated in every build listed and compared with the oracle. Non-trivial: the arguments are inside the property's "
             "domain and the oracle predicts a specific outcome that is not the trivial one (a zero result, an identity). Distinct: counted over the argument bit patterns with a 2^30-bit hash filter (undercounts).",
    "rel": "A case is one tuple of arguments drawn from the seeded generators of the functions involved (uniform, log-uniform, near boundaries, near constants of the code, IEEE special values) on which the "
           "stated relation is evaluated with calls into every build listed. Non-trivial: inside the domain, and the relation is not satisfied merely because both sides are the same call or both arguments are equal. "
           "Distinct: counted over argument bit patterns with a 2^30-bit hash filter (undercounts).",
}


def engine_check(rep, variants, cases, sweep, specs_props=None, extra=(), rule="value", parts=None):
    eng = engine()
    props = specs_props or [rep.prop]
    with tempfile.TemporaryDirectory(prefix="gcemv-") as d:
        t = time.time()
        libs, bad, entries = build_libs(eng, props, variants, d, parts)
        rep.cov["entry_points"] = len(entries)
        rep.cov.setdefault("builds", {}).update({v: " ".join(VARIANTS[v]) for v in variants})
        rep.cov["compile_s"] = round(time.time() - t, 1)
        for v, s, r, cmd in bad[:2]:
            first = next((l for l in r.stderr.splitlines() if "error:" in l), "").strip()
            rep.violation("compile/" + v, "calls within the documented argument types do not compile with %s: %s" % (" ".join(VARIANTS[v]), first[:400]),
                          {"kind": "compile", "variant": v, "source": open(s).read(), "diagnostic": r.stderr[:3000]})
        if not libs:
            rep.cov.update(rule="compilation failed", samples=["(none)"])
            return
        o = run_engine(rep, eng, props, libs, d, cases, sweep, extra)
        rep.cov["evaluations"] += o["evaluations"]
        rep.cov["distinct_nontrivial"] += o["distinct_nontrivial"]
        rep.cov["in_domain"] = o["in_domain"]
        rep.cov["nontrivial"] = o["nontrivial"]
        rep.cov["rule"] = RULE[rule]
        rep.cov["samples"] += o["samples"]
        rep.cov["engine_s"] = o["seconds"]
        rep.cov["cut_short_by_time_budget"] = o["cut_short"]
        rep.cov["unconfirmed"] = o["unconfirmed"]
        agg = {}
        for s in o["per_spec"]:
            a = agg.setdefault(s["spec"], {"cases": 0, "nontrivial": 0, "max_error_units": 0, "worst": ""})
            a["cases"] += s["cases"]
            a["nontrivial"] += s["nontrivial"]
            if s["max_error_units"] >= a["max_error_units"]:
                a["max_error_units"], a["worst"] = s["max_error_units"], "<%s>(%s)" % (s["types"], s["worst"])
        rep.cov["per_function"] = agg
        for f in o["failures"]:
            key = "%s<%s>(%s)" % (f["spec"], f["types"], f["args_decimal"].replace(" ", ""))
            rep.violation(key, "%s: gcem::%s<%s>(%s) [%s]: %s" % (f["spec"], f["function"].replace("gcem::", ""), f["types"], f["args_decimal"], f["build"], f["what"]),
                          {"kind": "engine", "props": props, "spec": f["spec"], "types": f["types"], "args": f["args"], "build": f["build"], "variants": variants, "commands": {v: VARIANTS[v] for v in variants}, "extra": list(extra), "unshrunk": f["unshrunk"]})


def check(prop, tier, seed):
    rep = Report(prop, tier, seed)
    thorough = tier == "thorough"
    if prop in ("C21", "C26"):
        import programs
        programs.check(rep, thorough)
    elif prop == "C22":
        vs = ["gcc-c++11", "gcc-c++17", "clang-c++11-O0", "clang-c++20"] + (["gcc-c++20-O0", "gcc-c++14-O3", "clang-c++17"] if thorough else [])
        engine_check(rep, vs, 3000000 if thorough else 150000, 200000 if thorough else 30000, specs_props=["C%02d" % i for i in range(1, 21)], extra=["--diff"], parts=4)
    else:
        vs = ["gcc-c++11", "clang-c++17"]
        if prop == "C24":
            vs = ["clang-ubsan", "gcc-c++11"] + (["gcc-ubsan", "clang-c++17"] if thorough else [])
        elif thorough and prop != "C23":
            vs += ["gcc-c++20-O0", "clang-c++11-O0", "gcc-c++14-O3"]
        elif thorough:
            vs += ["gcc-c++20-O0"]
        n = int(QUICK[prop] * (10 if thorough else 1) * float(os.environ.get("VERIF_SCALE", "1")))   # VERIF_SCALE: for mutation runs only
        sw = 2000000 if prop < "C21" else 300000
        engine_check(rep, vs, n, sw * (20 if thorough else 1), rule="rel" if prop in ("C23", "C25", "C27", "C28") else "value")
    return rep.finish()


def replay(path):
    r = json.load(open(path))
    if r["kind"] in ("program",):
        import programs
        return programs.replay(r)
    eng = engine()
    with tempfile.TemporaryDirectory(prefix="gcemv-") as d:
        if r["kind"] == "compile":
            p = os.path.join(d, "t.cpp")
            open(p, "w").write(re.sub(r'#include ".*shim/shim.hpp"', '#include "%s/shim/shim.hpp"' % VERIF, r["source"]))
            c = run(VARIANTS[r["variant"]] + ["-w", "-fPIC", "-shared", "-I", INC, p, "-o", os.path.join(d, "t.so")])
            print("does not compile:\n" + c.stderr[:2000] if c.returncode else "compiles")
            return 1 if c.returncode else 0
        diff = any(x.startswith("--diff") for x in r.get("extra", []))
        VARIANTS.update(r.get("commands", {}))
        vs = r["variants"] if diff else [r["build"]]
        libs, bad, _ = build_libs(eng, [p for p in r["props"]], vs, d)
        cmd = [eng] + list(r.get("extra", []))
        for p in r["props"]:
            cmd += ["--prop", p]
        for l in libs:
            cmd += ["--lib", l]
        c = run(cmd + ["--replay", r["spec"], r["types"], r["build"]] + r["args"])
        print(c.stdout.strip(), c.stderr.strip())
        return 1 if c.returncode == 1 else 0


def main():
    sys.path.insert(0, VERIF)
    sys.modules["check"] = sys.modules["__main__"]
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        print(engine())
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check(prop, tier, seed)
    except Inconclusive as e:
        log("ERROR: " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
