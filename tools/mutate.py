#!/usr/bin/env python3
"""Mutation run (development only; no check uses it): mutates the headers in a scratch copy, runs the checks that own the
mutated file at a reduced scale, and lists mutants that no check catches although they pass the repository's tests.
Usage: mutate.py <n> <seed> [file-regex]"""
import json, os, random, re, shutil, subprocess, sys, time
N, SEED = int(sys.argv[1]), int(sys.argv[2])
PAT = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut%d" % SEED
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("_build", ".git"))
H = W + "/include/gcem_incl/"
OWN = {"C01": "floor ceil trunc round", "C02": "fmod", "C03": "gcd lcm", "C04": "factorial binomial_coef", "C05": "abs sgn signbit copysign neg_zero min max", "C06": "sqrt inv_sqrt hypot", "C07": "exp expm1 find_whole find_fraction", "C08": "log log1p log2 log10 mantissa find_exponent",
       "C09": "pow pow_integral is_odd is_even", "C10": "sin cos tan", "C11": "asin acos atan atan2", "C12": "sinh cosh tanh", "C13": "asinh acosh atanh", "C14": "lgamma tgamma lmgamma", "C15": "lbeta beta log_binomial_coef", "C16": "erf erf_inv",
       "C17": "incomplete_gamma gauss_legendre_50", "C18": "incomplete_gamma_inv", "C19": "incomplete_beta", "C20": "incomplete_beta_inv"}
own = {}
for k, v in OWN.items():
    for f in v.split():
        own[f] = k
files = []
for root, _, fs in os.walk(H):
    for f in fs:
        if f.endswith(".hpp") and f[:-4] in own and PAT.search(f):
            files.append(os.path.join(root, f))
files.sort()
OPS = [(r"(?<![<>=!\-])<(?![<=])(?= )", "<="), (r"(?<![>=\-])>(?![>=])(?= )", ">="), (r"(?<= )<=", "<"), (r"(?<= )>=", ">"), (r"(?<= )==", "!="), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"\*", "/"), (r"(?<![/*])/(?![/*])", "*"), (r"&&", "||"), (r"\|\|", "&&"),
       (r"GCLIM<T>::min\(\)", "GCLIM<T>::epsilon()"), (r"GCLIM<T>::epsilon\(\)", "GCLIM<T>::min()"), (r"GCLIM<T>::quiet_NaN\(\)", "T(0)"), (r"GCLIM<T>::infinity\(\)", "GCLIM<T>::max()"), (r"static_cast<TC>\(", "static_cast<T1>("), (r"common_return_t<T1,T2>", "return_t<T1>"),
       (r"common_t<T1,T2>", "T1"), (r"abs\(", "("), (r"noexcept", ""), (r"any_nan\(", "all_nan("), (r"is_posinf", "is_inf"), (r"is_neginf", "is_posinf"), (r"!", "")]
NUMS = re.compile(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\d+)(?=[LlUu]*(?![\w.]))")


def mutants(path):
    t = open(path).read()
    body = t.index("#ifndef") if "#ifndef" in t else 0
    masked = re.sub(r"/\*.*?\*/|//[^\n]*|^#[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S | re.M)
    out = []
    for pat, rep in OPS:
        for m in re.finditer(pat, masked):
            if m.start() > body:
                out.append((m.start(), m.end(), rep))
    for m in NUMS.finditer(masked):
        if m.start() > body:
            s = m.group(1)
            if "." in s and len(s) > 6:
                k = random.randint(2, min(len(s) - 1, 15))
                if s[k].isdigit():
                    out.append((m.start(), m.end(), s[:k] + str((int(s[k]) + random.randint(1, 9)) % 10) + s[k + 1:]))
            elif "." in s or "e" in s.lower():
                out.append((m.start(), m.end(), "(%s*%s)" % (s, random.choice(["1.1", "0.9", "2", "0.5"]))))
            else:
                out.append((m.start(), m.end(), str(max(0, int(s) + random.choice([-1, 1])))))
    return t, out


random.seed(SEED)
pool = []
for f in files:
    t, ms = mutants(f)
    random.shuffle(ms)
    pool += [(f, x) for x in ms[:max(12, len(ms) // 6) if "gauss" not in f else 6]]
random.shuffle(pool)
caught = same = 0
surv = []
t0 = time.time()
for n, (f, (a, b, rep)) in enumerate(pool[:N]):
    orig = open(f).read()
    mut = orig[:a] + rep + orig[b:]
    ln = orig[:a].count("\n") + 1
    open(f, "w").write(mut)
    desc = "%s:%d  %s  -->  %s" % (os.path.basename(f), ln, orig.split("\n")[ln - 1].strip(), mut.split("\n")[ln - 1].strip())
    try:
        name = os.path.basename(f)[:-4]
        props = [own[name]] + (["C23"] if rep in ("", "T1", "return_t<T1>", "static_cast<T1>(") else []) + ["C24", "C25"]
        env = dict(os.environ, VERIF_REPO=W, VERIF_SCALE=os.environ.get("SCALE", "0.15"))
        # does it compile at all?
        src = W + "/t.cpp"
        open(src, "w").write('#include "gcem.hpp"\n#include <cstdio>\nint main() { std::printf("%d", (int)gcem::sqrt(4.0)); }\n')
        if subprocess.run(["g++", "-std=c++11", "-fsyntax-only", "-I", W + "/include", src], capture_output=True).returncode:
            continue
        # tests
        bd = W + "/tb"
        shutil.rmtree(bd, ignore_errors=True)
        os.makedirs(bd)
        ok = True
        procs = [(x, subprocess.Popen("g++ -std=c++11 -O0 -w -include cstdint -I%s/include %s/tests/%s -o %s/%s 2>/dev/null" % (W, W, x, bd, x[:-4]), shell=True)) for x in sorted(os.listdir(W + "/tests")) if x.endswith(".cpp")]
        for x, q in procs:
            ok &= q.wait() == 0
        if ok:
            for x, _ in procs:
                q = subprocess.run([bd + "/" + x[:-4]], capture_output=True, text=True, cwd=W + "/tests", timeout=100)
                ok &= q.returncode == 0
        if not ok:
            same += 1
            continue
        hit = None
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p], env=env, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                hit = p
                break
            if r.returncode not in (0, 1):
                print("ERROR", p, r.returncode, desc, r.stderr[-300:], flush=True)
        if hit:
            caught += 1
            print("caught %s %s" % (hit, desc), flush=True)
            continue
        surv.append(desc)
        print("SURVIVED %s" % desc, flush=True)
    except subprocess.TimeoutExpired:
        print("timeout", desc)
    finally:
        open(f, "w").write(orig)
print("== %d caught, %d survived, %.0f s" % (caught, len(surv), time.time() - t0))
shutil.rmtree(W, ignore_errors=True)
