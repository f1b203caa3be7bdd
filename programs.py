"""C21 (compile-time evaluation equals run-time evaluation) and C26 (configurations):
generated programs, compiled with every compiler and language standard."""
import json, math, os, re, random, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check as ck
from check import run, INC, NCPU, TYPES, Inconclusive

LOGMAX = {'f': 88.0, 'd': 709.0, 'e': 11356.0}


def promote(c):
    return c if c in 'fde' else 'd'


def rtype(codes):
    for t in 'edf':
        if t in codes:
            return t
    return 'd'


def parse(h):
    if 'nan' in h:
        return float('nan')
    if 'inf' in h:
        return float('inf') if h[0] != '-' else -float('inf')
    try:
        v = float.fromhex(h)
        return v if v != 0 or re.match(r"-?0x0p", h) else 1e-300
    except OverflowError:
        return 1e308 if h[0] != '-' else -1e308


def literal(code, h):
    """A C++ expression of the given type whose value is exactly the hexadecimal float h."""
    t = TYPES[code]
    if code in 'fde':
        v = parse(h)
        if v != v:
            return "std::numeric_limits<%s>::quiet_NaN()" % t
        if math.isinf(v):
            return ("-" if v < 0 else "") + "std::numeric_limits<%s>::infinity()" % t
        s = dec(h)
        return s + {'e': "L", 'd': "", 'f': "f"}[code]
    n = ld_int(h)
    s = str(n) + ("ull" if code in 'my' and n > 2**63 - 1 else "ll" if abs(n) > 2**31 - 1 else "")
    if n == -2**63:
        s = "(-9223372036854775807ll-1)"
    return "static_cast<%s>(%s)" % (t, s)


def ld_frac(h):
    from fractions import Fraction
    m = re.match(r"(-?)0x([0-9a-fA-F]+)(?:\.([0-9a-fA-F]*))?p([-+]?\d+)$", h)
    sg, a, b, e = m.groups()
    b = b or ""
    v = Fraction(int(a + b, 16), 16 ** len(b)) * (Fraction(2) ** int(e))
    return -v if sg else v


def ld_int(h):
    return int(ld_frac(h))


def dec(h):
    """Decimal literal with enough digits to name the value exactly (every binary fraction has one), capped at 40 digits,
    which is enough for every type used here to round back to the same value."""
    import decimal
    neg = h.startswith('-')
    v = ld_frac(h)
    with decimal.localcontext() as c:
        c.prec = 40
        d = decimal.Decimal(v.numerator) / decimal.Decimal(v.denominator)
    s = "%s" % d
    if v == 0:
        return "-0.0" if neg else "0.0"
    if '.' not in s and 'E' not in s:
        s += ".0"
    return s


def domain(label, fn, codes, kind, hs):
    """Arguments on which compile-time evaluation is promised: moderate magnitudes with a finite result, so that no
    intermediate overflows and the compilers' default evaluation limits suffice, and the special arguments (zero, the
    small integers, infinities and NaN) whose result is NaN or infinite."""
    if kind == 0:                         # out of the property's domain
        return False
    v = [parse(h) for h in hs]
    if kind != 1:                         # NaN or infinite result: plain special arguments only
        if fn == "incomplete_gamma_inv" and math.isinf(v[0]):
            return False
        if any(x != x for x in v):
            if fn in ("min", "max", "sgn", "signbit", "copysign", "pow", "factorial", "lbeta", "beta", "log_binomial_coef", "lmgamma"):
                return False
        return all(x != x or math.isinf(x) or x in (0, 1, -1, 2, -2, 3, -3, 0.5) for x in v)
    if any(math.isinf(x) for x in v):
        if fn == "incomplete_gamma_inv" and math.isinf(v[0]):
            return False
        return all(math.isinf(x) or x in (0, 1, -1, 2, -2, 3, -3, 0.5) for x in v)
    for x, c in zip(v, codes):
        if x != x or math.isinf(x) or abs(x) > 1e8 or (x != 0 and abs(x) < 1e-8):
            return False
    t = rtype(codes)
    if fn == "fmod":
        return v[1] != 0 and abs(v[0] / v[1]) < 1e6
    if fn == "pow":
        if codes[0] not in 'fde' and codes[1] not in 'fde':
            return v[1] >= 0
        return v[0] != 0 and abs(v[1]) <= 2000 and abs(v[1] * math.log(abs(v[0]))) < 0.9 * LOGMAX[t] if v[0] != 0 else v[1] >= 0
    if fn == "incomplete_gamma_inv":
        return 0.1 <= v[0] <= 1e6 and 1e-6 <= v[1] <= 1 - 1e-6
    if fn == "incomplete_beta_inv":
        return all(0.1 <= x <= 1e4 for x in v[:2]) and 1e-6 <= v[2] <= 1 - 1e-6
    if fn in ("exp", "expm1", "sinh", "cosh"):
        return abs(v[0]) < 0.98 * LOGMAX[t]
    if fn == "tgamma":
        return abs(v[0]) < (30 if t == 'f' else 150)
    if t == 'e':                  # results between the smallest long double and exp's cut-off: gcc refuses the overflow of the reciprocal
        if fn == "erf" and 100 < abs(v[0]) < 130:
            return False
        if fn == "incomplete_gamma" and not (v[0] <= 200 and v[1] < 8000) and abs(v[1] - v[0]) > 20 * math.sqrt(abs(v[0])):
            return False
        if fn == "incomplete_beta" and v[0] > 0 and v[1] > 0 and v[0] + v[1] > 1000 and abs(v[2] - v[0] / (v[0] + v[1])) > 20 * math.sqrt(v[0] * v[1] / (v[0] + v[1] + 1)) / (v[0] + v[1]):
            return False
        if fn == "beta" and abs(v[0]) + abs(v[1]) > 1000:
            return False
    if fn == "binomial_coef":     # the recursion takes C(n,k) steps
        return v[0] <= 14
    return True


def emit(eng, props, cases, seed, d, tag):
    out = os.path.join(d, tag + ".txt")
    df = os.path.join(d, "dict.txt")
    if not os.path.exists(df):
        ck.dictionary(df)
    cmd = [eng, "--seed", str(seed), "--cases", str(cases), "--dict", df, "--emit", out]
    for p in props:
        cmd += ["--prop", p]
    r = run(cmd)
    if r.returncode:
        raise Inconclusive("engine --emit failed: " + r.stderr[-500:])
    cs = []
    seen = set()
    for l in open(out):
        f = l.split()
        label, fn, codes, kind, hs = f[0], f[1], f[2], int(f[3]), f[4:]
        if domain(label, fn, codes, kind, hs):
            k = (fn, codes, tuple(hs))
            if k not in seen:
                seen.add(k)
                cs.append((label, fn, codes, hs))
    return cs


UNARY = ["abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "ceil", "cos", "cosh", "erf", "erf_inv", "exp", "expm1", "floor", "inv_sqrt", "lgamma", "log", "log10", "log1p", "log2", "round", "sgn", "signbit", "sin", "sinh", "sqrt", "tan", "tanh", "tgamma", "trunc"]
MARKS = [0.1, 0.25, 0.5, 1 / 3, 0.75, 0.9, 1, 1.5, 2, 2.1, 2.5, 3, math.e, math.pi / 4, math.pi / 2, math.pi, 2 * math.pi, 5, 7, 10, 12, 20, 50, 64, 100, 255, 256, 1000, 1e4, 32768, 1e5, 65536, 1e6, 2.0**23, 2.0**24, 1e8, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01]


def stress(rnd, n):
    """Arguments chosen to make the evaluation long or unusual: extreme magnitudes, the neighbours of round numbers, and parameters
    of the iterated functions that need many terms (large shape parameters near the mean, deep tails, long Euclid chains)."""
    import struct
    f32 = lambda x: struct.unpack("f", struct.pack("f", x))[0]
    logu = lambda a, b: math.exp(rnd.uniform(math.log(a), math.log(b)))
    num = lambda c, x: float(f32(x) if c == 'f' else x).hex()
    fib = [1, 2]
    while fib[-1] + fib[-2] < 2**62:
        fib.append(fib[-1] + fib[-2])

    def scalar():
        k = rnd.random()
        if k < 0.45:
            return logu(1e-8, 1e8)
        x = rnd.choice(MARKS)
        if k < 0.75:
            for _ in range(rnd.randint(0, 3)):
                x = math.nextafter(x, rnd.choice([0, math.inf])) if rnd.random() < 0.6 else x * (1 + rnd.choice([-1, 1]) * 2.0**-rnd.randint(20, 50))
            return x
        if k < 0.9:
            return x * rnd.randint(1, 40)
        return logu(1e-3, 1e3)
    out = []
    for i in range(n):
        c = rnd.choice("ddfe")
        k = rnd.random()
        if k < 0.45:
            fn = rnd.choice(UNARY)
            x = scalar()
            if fn in ("acos", "asin", "atanh", "erf_inv") and x > 1 and rnd.random() < 0.9:
                x = 1 / x
            if fn in ("sin", "cos", "tan") and x > 1e6:
                x = math.fmod(x, 1e4)
            if fn not in ("acosh", "inv_sqrt", "sqrt", "log", "log2", "log10") and rnd.random() < 0.4:
                x = -x
            a = [num(c, x)]
            cs = c
        elif k < 0.57:
            fn, cs = "incomplete_gamma", c + c
            p = logu(1e-3, 1e7) if rnd.random() < 0.7 else logu(0.5, 200)
            z = max(1e-8, p + rnd.uniform(-1, 1) * rnd.choice([1, 3, 7]) * math.sqrt(p)) if rnd.random() < 0.7 else logu(1e-8, 1e8)
            a = [num(c, p), num(c, z)]
        elif k < 0.72:
            fn, cs = "incomplete_beta", c * 3
            p, q = [(logu(1e-3, 1e8), logu(1e-3, 1e8)), (logu(0.5, 1e6), logu(0.5, 1e6)), (logu(1e4, 1e8), logu(1e4, 1e8))][rnd.randrange(3)]
            if rnd.random() < 0.4:
                q = p * rnd.choice([1, 1, 2, 0.5])
            m = p / (p + q)
            sd = math.sqrt(m * (1 - m) / (p + q + 1))
            z = m + rnd.uniform(-1, 1) * rnd.choice([1, 3, 6]) * sd if rnd.random() < 0.8 else rnd.random()
            z = min(max(z, 1e-8), 1 - 1e-7)
            a = [num(c, p), num(c, q), num(c, z)]
        elif k < 0.78:
            fn, cs = "incomplete_gamma_inv", c + c
            a = [num(c, logu(0.101, 9.9e5)), num(c, rnd.choice([rnd.uniform(0.0011, 0.9989), 0.0011, 0.9989, logu(1.1e-6, 0.5), 1 - logu(1.1e-6, 0.5), 0.5]))]
        elif k < 0.84:
            fn, cs = "incomplete_beta_inv", c * 3
            a = [num(c, logu(0.101, 9999)), num(c, logu(0.101, 9999)), num(c, rnd.choice([rnd.uniform(0.0011, 0.9989), 0.0011, 0.9989, logu(1.1e-6, 0.5), 1 - logu(1.1e-6, 0.5), 0.5]))]
        elif k < 0.88:
            fn = rnd.choice(["beta", "lbeta", "log_binomial_coef", "atan2", "hypot", "fmod"])
            cs = c + c
            a = [num(c, scalar()), num(c, scalar())]
        elif k < 0.93:
            fn = "pow"
            if rnd.random() < 0.5:
                cs = c + "i"
                e = int(logu(1, 2**31 - 1)) * rnd.choice([1, -1])
                x = (math.exp(rnd.uniform(-1, 1) * 80 / abs(e))) * rnd.choice([1, -1])
                a = [num(c, x), float(e).hex()]
            else:
                cs = c + c
                a = [num(c, scalar()), num(c, rnd.uniform(-40, 40) if rnd.random() < 0.7 else scalar())]
        elif k < 0.97:
            fn, cs = rnd.choice(["gcd", "lcm"]), rnd.choice(["ll", "lm", "mm"])
            j = rnd.randint(20, len(fib) - 2) if fn == "gcd" else rnd.randint(5, 40)
            cs = cs if all(x in TYPES for x in cs) else "ii"
            if cs == "ii":
                j = min(j, 40 if fn == "gcd" else 18)
            u, v = fib[j], fib[j + 1]
            a = [hexint(u), hexint(v)]
            if rnd.random() < 0.5:
                a.reverse()
        else:
            fn, cs = "lmgamma", c + "i"
            m = rnd.randint(1, 150)
            a = [num(c, (m - 1) / 2 + logu(0.01, 1e6)), float(m).hex()]
        if domain("stress", fn, cs, 1, a):
            out.append(("stress", fn, cs, a))
    return out


def hexint(n):
    return "0x%xp+0" % n if n >= 0 else "-0x%xp+0" % -n


HEAD = r'''
#include <limits>
#include "gcem.hpp"
#include <cstdio>
#include <cstring>
template <class T> static bool same(T a, T b) { if (a != a) return b != b; if (b != b) return false; return a == b && (a != T(0) || !(1 / static_cast<long double>(a) < 0) == !(1 / static_cast<long double>(b) < 0)); }
template <class T> static void cmp(int i, T c, T r, int& bad) { if (!same(c, r)) { bad++; std::printf("DIFF %d %.21Lg %.21Lg\n", i, static_cast<long double>(c), static_cast<long double>(r)); } }
template <class T> T vol(T x) { volatile T v = x; return v; }
'''


def c21_source(cases):
    """One program: every case is a constexpr variable, recomputed at run time from volatile arguments."""
    lines = HEAD.strip().split("\n")
    base = len(lines)
    for i, (label, fn, codes, hs) in enumerate(cases):
        lines.append("constexpr auto c%d = gcem::%s(%s);" % (i, fn, ", ".join(literal(c, h) for c, h in zip(codes, hs))))
    for k in range(0, len(cases), 100):
        lines.append("static void part%d(int& bad) {" % (k // 100))
        for i in range(k, min(k + 100, len(cases))):
            label, fn, codes, hs = cases[i]
            args = ", ".join("vol<%s>(%s)" % (TYPES[c], literal(c, h)) for c, h in zip(codes, hs))
            lines.append("    cmp(%d, c%d, gcem::%s(%s), bad);" % (i, i, fn, args))
        lines.append("}")
    lines.append("int main() { int bad = 0;")
    for k in range(0, len(cases), 100):
        lines.append("    part%d(bad);" % (k // 100))
    lines.append("    return bad ? 3 : 0; }")
    return "\n".join(lines) + "\n", base


def c21_one(cases, cmd, d, tag):
    """Returns (list of failing case indices with messages, error or None)."""
    src, base = c21_source(cases)
    p = os.path.join(d, tag + ".cpp")
    open(p, "w").write(src)
    exe = os.path.join(d, tag + ".exe")
    r = run(cmd + ["-w", "-I", INC, p, "-o", exe])
    if r.returncode:
        bad = {}
        for m in re.finditer(r"\.cpp:(\d+):\d+: error: ([^\n]*)", r.stderr):
            i = int(m.group(1)) - base - 1
            if 0 <= i < len(cases):
                bad.setdefault(i, "is not a constant expression: " + m.group(2))
        for m in re.finditer(r"\.cpp:(\d+):\d+:\s+in [^\n]*constexpr[^\n]* expansion", r.stderr):
            i = int(m.group(1)) - base - 1
            if 0 <= i < len(cases):
                bad.setdefault(i, "is not a constant expression")
        if not bad:
            if "error:" not in r.stderr:
                return [], "compiler failure: " + r.stderr[-400:]
            m = re.search(r"([^\n]*error:[^\n]*)", r.stderr)
            bad[-1] = "does not compile: " + m.group(1)
        os.unlink(p)
        return sorted(bad.items()), None
    os.unlink(p)
    try:
        q = run([exe], timeout=300)
    except subprocess.TimeoutExpired:
        return [], "generated program timed out"
    os.unlink(exe)
    bad = []
    for l in q.stdout.splitlines():
        if l.startswith("DIFF"):
            _, i, c, rr = l.split()
            bad.append((int(i), "is %s at compile time but %s at run time" % (c, rr)))
    if q.returncode not in (0, 3):
        return [], "generated program ended with %d" % q.returncode
    return bad, None


C21_BUILDS = {"gcc-c++11": ["g++", "-std=c++11", "-O1"], "clang-c++11": ["clang++", "-std=c++11", "-O1"], "gcc-c++17": ["g++", "-std=c++17", "-O2"], "clang-c++20": ["clang++", "-std=c++20", "-O1"],
              "gcc-c++14": ["g++", "-std=c++14", "-O0"], "gcc-c++20": ["g++", "-std=c++20", "-O0"], "clang-c++14": ["clang++", "-std=c++14", "-O0"], "clang-c++17": ["clang++", "-std=c++17", "-O2"]}


def text(case):
    label, fn, codes, hs = case
    return "gcem::%s(%s)" % (fn, ", ".join(literal(c, h) for c, h in zip(codes, hs)))


def c21(rep, thorough):
    eng = ck.engine()
    builds = list(C21_BUILDS)[:8 if thorough else 4]
    with tempfile.TemporaryDirectory(prefix="gcemv-") as d:
        cs = emit(eng, ["C%02d" % i for i in range(1, 21)], 6000 if thorough else 600, rep.seed, d, "emit")
        rnd = random.Random(rep.seed)
        by = {}
        for c in cs:
            by.setdefault((c[0], c[2]), []).append(c)
        pick = []
        per = 80 if thorough else 5
        for k in sorted(by):
            l = by[k]
            rnd.shuffle(l)
            m = per * (3 if set(k[1]) <= set('fde') and len(set(k[1])) == 1 else 1)
            pick += l[:m]
        pick += stress(rnd, 20000 if thorough else 2400)
        rnd.shuffle(pick)
        size = 400
        chunks = [pick[i:i + size] for i in range(0, len(pick), size)]
        jobs = []
        for ci, ch in enumerate(chunks):
            for b in builds:
                jobs.append((ci, ch, b))

        def go(j):
            ci, ch, b = j
            return j, c21_one(ch, C21_BUILDS[b], d, "p%d_%s" % (ci, b.replace("+", "p")))
        nprog = 0
        errs = []
        fails = {}
        with ThreadPoolExecutor(NCPU) as ex:
            for (ci, ch, b), (bad, err) in ex.map(go, jobs):
                nprog += 1
                if err:
                    errs.append(err)
                for i, msg in bad[:4]:
                    fails.setdefault((ch[i][0] if i >= 0 else "program", b), []).append((ch[i] if i >= 0 else ch[0], msg, b))
        for key in sorted(fails, key=str)[:8]:
            case, msg, b = fails[key][0]
            okk = 0
            for t in range(3):     # confirm alone, three times
                bad, err = c21_one([case], C21_BUILDS[b], d, "confirm")
                okk += bool(bad) and not err
            if okk == 3:
                case, msg = shrink(case, C21_BUILDS[b], d, bad[0][1])
                rep.violation("%s/%s" % (text(case).replace(" ", ""), b), "%s %s (%s)" % (text(case), msg, " ".join(C21_BUILDS[b])), {"kind": "program", "mode": "c21", "case": list(case), "build": C21_BUILDS[b]})
            else:
                errs.append("unconfirmed: %s %s" % (text(case), msg))
        if errs and not rep.violations:
            if not ck.control_ok(["g++", "-std=c++11"], d) or not ck.control_ok(["clang++", "-std=c++17"], d):
                raise Inconclusive("toolchain: " + errs[0])
            ck.log("note:", *errs[:3])
        nt = [c for c in pick if any(parse(h) not in (0.0, 1.0) for h in c[3])]
        rep.cov.update(evaluations=len(pick) * len(builds), distinct_nontrivial=len(nt), programs=nprog, builds={b: " ".join(C21_BUILDS[b]) for b in builds}, function_signatures=len(by), harness_notes=errs[:5],
                       rule="A case is one call with literal arguments, generated as for the value properties and restricted to arguments of magnitude 0 or 1e-8..1e8 (or NaN) with a finite result, and a second generator of arguments that make the evaluation long or unusual (extreme magnitudes, neighbours of round numbers, large parameters near the mean, deep tails, Fibonacci pairs). Programs of 400 cases declare each "
                            "call as a constexpr variable and recompute it at run time from volatile arguments; the two results must be identical bit for bit (any NaN equals any NaN). Each program is compiled with every compiler and standard listed, "
                            "with default limits. Non-trivial: some argument is neither 0 nor 1. Distinct: different function, types or arguments.",
                       samples=[text(c) for c in pick[:12]])


def shrink(case, cmd, d, msg):
    label, fn, codes, hs = case
    t0 = time.time()
    for k in range(len(hs)):
        for cand in ("0x0p+0", "0x1p+0", "0x1p+1", "0x1p-1"):
            if time.time() - t0 > 40 or hs[k] == cand:
                break
            h2 = list(hs)
            h2[k] = cand
            if not domain(label, fn, codes, 1, h2):
                continue
            bad, err = c21_one([(label, fn, codes, h2)], cmd, d, "shrink")
            if bad and not err:
                hs, msg = h2, bad[0][1]
                break
    return (label, fn, codes, hs), msg


# ------------------------------------------------------------------ C26
def c26(rep, thorough):
    import configs
    configs.check(rep, thorough)


def check(rep, thorough):
    (c21 if rep.prop == "C21" else c26)(rep, thorough)


def replay(r):
    if r["mode"] == "c26":
        import configs
        return configs.replay(r)
    with tempfile.TemporaryDirectory(prefix="gcemv-") as d:
        case = tuple(r["case"])
        bad, err = c21_one([case], r["build"], d, "replay")
        print(text(case), bad[0][1] if bad else err or "holds")
        return 1 if bad else 0
