"""C26: the headers work, and give the same results, in every user configuration.

Generated configurations: compiler x standard x flags x what is included, defined, declared and opened before the
library's header x contexts in which the calls appear x number of translation units.  Oracle: the generated program
compiles, links, prints exactly what the plain program with the same calls, compiler, standard and optimisation level
prints, finds its own macros and names untouched, and no macro of another family has appeared."""
import json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check as ck
import programs as P
from check import run, INC, NCPU, TYPES, REPO

STDS = ["c++11", "c++14", "c++17", "c++20", "c++23", "gnu++11", "gnu++17"]
HEADERS = ["cmath", "math.h", "cstdlib", "stdlib.h", "algorithm", "limits", "type_traits", "complex", "numeric", "vector", "string", "iostream", "random", "functional", "cstdint", "climits", "cfloat", "utility", "valarray", "ctgmath"]
FLAGS = ["-fno-exceptions", "-fno-rtti", "-pedantic-errors", "-Wall", "-Wextra", "-fPIC", "-fno-builtin", "-funsigned-char", "-fvisibility=hidden", "-fwrapv", "-fno-strict-aliasing", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-inline", "-g", "-fshort-enums",
         "-D_USE_MATH_DEFINES", "-fstack-protector-strong", "-fno-threadsafe-statics", "-D_GNU_SOURCE", "-fmath-errno", "-fno-math-errno"]
# flags and macros that change no result (unlike -funsigned-char, which changes an argument type)
NEUTRAL = ["-fno-exceptions", "-fno-rtti", "-Wall", "-Wextra", "-fno-builtin", "-fwrapv", "-fno-strict-aliasing", "-fno-inline", "-fno-threadsafe-statics", "-fmath-errno", "-fno-math-errno", "-fstack-protector-strong", "-ftrapping-math", "-fno-common",
           "-DNDEBUG", "-DDEBUG", "-D_DEBUG", "-DRELEASE", "-DNOMINMAX", "-D_USE_MATH_DEFINES", "-D_GNU_SOURCE", "-D_GLIBCXX_ASSERTIONS", "-D_FORTIFY_SOURCE=2", "-D_REENTRANT", "-DWIN32_LEAN_AND_MEAN", "-D_FILE_OFFSET_BITS=64", "-D__STDC_LIMIT_MACROS", "-DUSE_LONG_DOUBLE",
           "-DTRUE=1", "-DFALSE=0"]
MACROS = {"min": "#define min(a,b) (((a)<(b))?(a):(b))", "max": "#define max(a,b) (((a)>(b))?(a):(b))", "abs": "#define abs(x) ((x)<0?-(x):(x))",
          "round": "#define round(x) ((x)>=0?(long)((x)+0.5):(long)((x)-0.5))", "signbit": "#define signbit(x) ((x)<0)"}
FUNCS = ["abs", "acos", "acosh", "asin", "asinh", "atan", "atan2", "atanh", "beta", "binomial_coef", "ceil", "copysign", "cos", "cosh", "erf", "erf_inv", "exp", "expm1", "factorial", "floor", "fmod", "gcd", "hypot", "incomplete_beta",
         "incomplete_beta_inv", "incomplete_gamma", "incomplete_gamma_inv", "inv_sqrt", "lbeta", "lcm", "lgamma", "lmgamma", "log", "log10", "log1p", "log2", "log_binomial_coef", "max", "min", "pow", "round", "sgn", "signbit", "sin", "sinh",
         "sqrt", "tan", "tanh", "tgamma", "trunc"]
# names of the user's own that must not clash with the library
USER = ["namespace internal { struct user_tag {}; inline int abs_check(int) { return 7; } }", "namespace user_ns { template<class T> T sqrt(T) { return T(-1); } template<class T> T gcd(T, T) { return T(-2); } }",
        "struct gcem_user { int min_, max_; };", "static const int llint_user = 3;", "namespace user_ns2 { typedef int uint_t; typedef short llint_t; template<class T> struct return_t {}; }",
        "template<class T> struct GCLIM_user {};", "enum user_enum { user_gauss_legendre_50 = 4 };"]
GLOBALS = ["template<class T> T inv_sqrt(T) { return T(-3); }", "template<class T> T sgn(T) { return T(-4); }", "template<class A, class B> A lcm(A, B) { return A(-5); }", "template<class T> T factorial(T) { return T(-6); }", "template<class T> bool is_nan(T) { return true; }",
           "template<class T> bool is_odd(T) { return true; }", "template<class T> T find_exponent(T, int) { return T(-8); }", "typedef unsigned char uint_t;", "template<class T> struct return_t { typedef char type; };",
           "template<class A, class B> A beta(A, B) { return A(-9); }", "template<class A, class B> A binomial_coef(A, B) { return A(-9); }", "template<class T> T mantissa(T) { return T(-10); }",
           "template<class T> T find_whole(T) { return T(-10); }", "template<class T> T find_fraction(T) { return T(-10); }", "template<class A, class B> A pow_integral(A, B) { return A(-9); }"]


class Config:
    pass


def make(rnd, cases):
    c = Config()
    c.cc = rnd.choice(["g++", "clang++"])
    c.std = rnd.choice(STDS)
    c.opt = rnd.choice(["-O0", "-O1", "-O2", "-O3", "-Os"])
    c.flags = sorted(rnd.sample(FLAGS, rnd.randint(0, 6)))
    c.before = rnd.sample(HEADERS, rnd.randint(0, 6))
    c.after = rnd.sample(HEADERS, rnd.randint(0, 4))
    c.macros = rnd.sample(sorted(MACROS), rnd.choice([0, 0, 1, 2, 5]))
    if c.macros:                      # standard headers themselves do not survive these macros: all of them come first
        c.before = c.before + ["cstddef", "limits", "type_traits"] + HEADERS
    c.user = rnd.sample(USER, rnd.randint(0, 4))
    c.globs = rnd.sample(GLOBALS, rnd.choice([0, 0, 2, 5]))
    c.using = rnd.choice(["", "", "using namespace std;", "namespace outer { using namespace std; }"]) if any(h not in ("math.h", "stdlib.h") for h in c.before) else ""
    if "using namespace std" in c.using:
        c.globs = []                  # the user's own names would clash with std's, not the library's
    c.usermac = {"USER_MACRO_%d" % rnd.randint(0, 99): str(rnd.randint(0, 10**6)), "MYLIB_PI": "3"}
    c.incl = rnd.choice(['"gcem.hpp"', '<gcem.hpp>', '"%s/gcem.hpp"' % INC])
    c.twice = rnd.random() < 0.5
    c.tus = rnd.choice([1, 1, 2, 3])
    c.style = rnd.choice(["qualified", "using-directive", "using-declaration", "alias", "template"])
    c.cases = cases
    return c


def plain(c):
    b = Config()
    b.__dict__.update(c.__dict__)
    b.flags, b.before, b.after, b.macros, b.user, b.globs, b.using, b.usermac, b.incl, b.twice, b.tus, b.style = [], [], [], [], [], [], "", {}, '"gcem.hpp"', False, 1, "qualified"
    return b


OUT = r'''
template <class T> struct fmt_ { static void p(T v) { std::printf("%.21Lg\n", static_cast<long double>(v)); } };
template <class T> static void out_(T v) { fmt_<T>::p(v); }
template <class T> static T vol_(T x) { volatile T v = x; return v; }
'''


def tu_source(c, k):
    """Translation unit k: part_k() prints the results of every case, at run time and (when cheap) in constant expressions."""
    L = []
    for n, v in sorted(c.usermac.items()):
        L.append("#define %s %s" % (n, v))
    for h in c.before:
        L.append("#include <%s>" % h)
    L += c.globs + c.user
    L.append(c.using)
    for m in c.macros:
        L += ["#undef " + m, MACROS[m]]
    L.append("#include " + c.incl)
    if c.twice:
        L.append("#include " + c.incl)
    for h in c.after:
        L.append("#include <%s>" % h)
    if c.twice:
        L.append("#include " + c.incl)
    L += ["#include <cstdio>", "#include <limits>"]
    for n, v in sorted(c.usermac.items()):
        L.append("#ifndef %s\n#error user macro lost\n#endif\nstatic_assert(%s == %s, \"user macro\");" % (n, n, v))
    for m in c.macros:
        L.append("#undef " + m)
    L.append(OUT)
    q = "gcem::"
    if c.style == "alias":
        L.append("namespace gm = gcem;")
        q = "gm::"
    if c.style == "template":
        L.append("template <class F, class... A> static void call_(F f, A... a) { out_(f(vol_(a)...)); }")
    for i, (label, fn, codes, hs) in enumerate(c.cases):
        args = [P.literal(x, h) for x, h in zip(codes, hs)]
        va = ", ".join("vol_<%s>(%s)" % (TYPES[x], a) for x, a in zip(codes, args))
        # constant-expression contexts, chosen by the case itself
        ctx = i % 6
        call = "gcem::%s(%s)" % (fn, ", ".join(args))
        name = "k%d" % i
        if ctx == 0:
            L.append("constexpr auto %s = %s;" % (name, call))
        elif ctx == 1:
            L.append("static_assert(%s >= 0 || true, \"constant\"); constexpr auto %s = %s;" % (call, name, call))
        elif ctx == 2:
            L.append("struct s%d { static constexpr bool v = (%s >= 0); }; template <bool B> struct t%d { enum : int { v = B ? 1 : 0 }; }; constexpr int %s = t%d<s%d::v>::v;" % (i, call, i, name, i, i))
        elif ctx == 3:
            L.append("constexpr auto f%d(%s) noexcept -> decltype(%s) { return gcem::%s(%s); } constexpr auto %s = f%d(%s);" % (
                i, ", ".join("%s p%d" % (TYPES[x], j) for j, x in enumerate(codes)), call, fn, ", ".join("p%d" % j for j in range(len(codes))), name, i, ", ".join(args)))
        elif ctx == 4:
            L.append("enum e%d { v%d = (%s < 1) ? 1 : 2 }; static int a%d[v%d]; constexpr int %s = sizeof(a%d) / sizeof(int);" % (i, i, call, i, i, name, i))
        else:
            L.append("template <class T> constexpr T g%d(T) { return static_cast<T>(%s); } constexpr long double %s = g%d(0.0L);" % (i, call, name, i))
        if c.style == "using-directive" and "using namespace std" not in c.using:
            body = "using namespace gcem; out_(gcem::%s(%s));" % (fn, va)
        elif c.style == "using-declaration":
            body = "using gcem::%s; out_(%s(%s));" % (fn, fn, va)
        elif c.style == "template":
            body = "struct fn_ { decltype(%s) operator()(%s) const { return gcem::%s(%s); } }; call_(fn_(), %s);" % (
                call, ", ".join("%s p%d" % (TYPES[x], j) for j, x in enumerate(codes)), fn, ", ".join("p%d" % j for j in range(len(codes))), ", ".join(args))
        else:
            body = "out_(%s%s(%s));" % (q, fn, va)
        L.append("static void c%d() { %s out_(%s); }" % (i, body, name))
    L.append("void part_%d(); void part_%d() { %s }" % (k, k, " ".join("c%d();" % i for i in range(len(c.cases)))))
    if k == 0:
        L.append(" ".join("void part_%d();" % j for j in range(1, c.tus)))
        L.append("int main() { %s return 0; }" % " std::printf(\"--\\n\"); ".join("part_%d();" % j for j in range(c.tus)))
    return "\n".join(L) + "\n"


def build_run(c, d, tag):
    """(compiler diagnostic or None, output, harness error)"""
    objs = []
    for k in range(c.tus):
        p = os.path.join(d, "%s_%d.cpp" % (tag, k))
        open(p, "w").write(tu_source(c, k))
        o = p[:-4] + ".o"
        r = run([c.cc, "-std=" + c.std, c.opt] + c.flags + ["-I", INC, "-c", p, "-o", o])
        if r.returncode:
            if "error:" not in r.stderr:
                return None, None, "compiler failure: " + r.stderr[-300:]
            return next(l for l in r.stderr.splitlines() if "error:" in l), None, None
        objs.append(o)
    exe = os.path.join(d, tag + ".exe")
    r = run([c.cc] + objs + ["-o", exe])
    if r.returncode:
        return "link: " + r.stderr[-600:], None, None
    try:
        q = run([exe], timeout=120)
    except subprocess.TimeoutExpired:
        return None, None, "generated program timed out"
    for f in objs + [exe]:
        os.unlink(f)
    if q.returncode:
        return None, None, "generated program ended with %d" % q.returncode
    return None, q.stdout, None


def describe(c):
    return "%s -std=%s %s %s; before: %s%s%s%s; include %s%s; style %s; %d translation units" % (
        c.cc, c.std, c.opt, " ".join(c.flags), " ".join(c.before) or "-", "; macros " + " ".join(c.macros) if c.macros else "", "; own names %d" % (len(c.user) + len(c.globs)) if c.user or c.globs else "", "; " + c.using if c.using else "",
        c.incl, " x3" if c.twice else "", c.style, c.tus)


def judge(c, d, tag):
    """None if the property holds, ('what', message), or ('harness', message)."""
    diag, out, err = build_run(plain(c), d, tag + "b")
    if err:
        return "harness", err
    if diag:
        return "what", "plain program: " + diag
    base = out
    diag, out, err = build_run(c, d, tag)
    if err:
        return "harness", err
    if diag:
        return "what", diag
    parts = out.split("--\n")
    for p in parts:
        if p != base:
            a, b = base.splitlines(), p.splitlines()
            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), -1)
            return "what", "gcem::%s gives %s in the plain program but %s here" % (P.text(c.cases[j // 2])[6:], a[j], b[j])
    return None


def shrink(c, d):
    """Drop parts of the configuration one at a time while it still fails."""
    def fails(x):
        r = judge(x, d, "shr")
        return r and r[0] == "what"
    t0 = time.time()
    for attr, empty in (("cases", None), ("tus", 1), ("style", "qualified"), ("twice", False), ("after", []), ("using", ""), ("globs", []), ("user", []), ("macros", []), ("flags", []), ("before", []), ("usermac", {}), ("incl", '"gcem.hpp"')):
        if time.time() - t0 > 90:
            break
        if attr == "cases":
            while len(c.cases) > 1 and time.time() - t0 < 60:
                h = len(c.cases) // 2
                for half in (c.cases[:h], c.cases[h:]):
                    x = Config()
                    x.__dict__.update(c.__dict__)
                    x.cases = half
                    if fails(x):
                        c = x
                        break
                else:
                    break
            continue
        if getattr(c, attr) == empty or (attr == "before" and c.macros):
            continue
        x = Config()
        x.__dict__.update(c.__dict__)
        setattr(x, attr, empty)
        if fails(x):
            c = x
    return c


def macro_leak(cc, std, before, d, tag):
    """Macros that the library's header defines: only its own family; the five it documents as removed may disappear."""
    a = os.path.join(d, tag + "a.cpp")
    b = os.path.join(d, tag + "b.cpp")
    pre = "".join("#include <%s>\n" % h for h in before) + "#include <cstddef>\n#include <limits>\n#include <type_traits>\n"
    pre += "".join("#define USER_%d %d\n" % (i, i) for i in range(5))
    open(a, "w").write(pre)
    open(b, "w").write(pre + '#include "gcem.hpp"\n')
    res = []
    for f in (a, b):
        r = run([cc, "-std=" + std, "-I", INC, "-dM", "-E", f])
        if r.returncode:
            return None, r.stderr[-300:]
        res.append(dict((l.split(" ", 2)[1], l) for l in r.stdout.splitlines() if l.startswith("#define ")))
    new = [m for m in res[1] if m not in res[0] and not re.match(r"(GCEM_|_?gcem|_GCEM)", m, re.I)]
    # macros of system headers that the library may newly include are not its own
    src = set()
    for root, _, fs in os.walk(INC):
        for f in fs:
            src |= set(re.findall(r"#\s*define\s+(\w+)", open(os.path.join(root, f), errors="replace").read()))
    new = [m for m in new if re.split(r"\W", m)[0] in src]
    lost = [m for m in res[0] if m not in res[1] and re.split(r"\W", m)[0] not in MACROS]
    chg = [m for m in res[0] if m in res[1] and res[0][m] != res[1][m] and m not in ("__COUNTER__",)]
    return new + lost + chg, None


def cmake_user(d):
    """Install with CMake into a scratch prefix, build a user project with find_package against it."""
    os.makedirs(d, exist_ok=True)
    b, pre, u = os.path.join(d, "cb"), os.path.join(d, "prefix"), os.path.join(d, "user")
    src = os.path.join(d, "src")          # CMake runs on a copy: nothing is ever written in the repository
    os.makedirs(src)
    for n in ("include", "cmake_files", "tests"):
        if os.path.isdir(os.path.join(REPO, n)):
            shutil.copytree(os.path.join(REPO, n), os.path.join(src, n))
    shutil.copy(os.path.join(REPO, "CMakeLists.txt"), src)
    for cmd in (["cmake", "-S", src, "-B", b, "-DCMAKE_INSTALL_PREFIX=" + pre], ["cmake", "--build", b], ["cmake", "--install", b]):
        r = run(cmd)
        if r.returncode:
            return None if "gcem" not in r.stderr and "CMakeLists" not in r.stderr else " ".join(cmd[:2]) + ": " + (r.stderr + r.stdout)[-500:]
    shutil.rmtree(src)
    shutil.rmtree(b)
    os.makedirs(u)
    open(os.path.join(u, "CMakeLists.txt"), "w").write("cmake_minimum_required(VERSION 3.5)\nproject(u CXX)\nset(CMAKE_CXX_STANDARD 11)\nfind_package(gcem REQUIRED)\nadd_executable(u a.cpp b.cpp)\ntarget_link_libraries(u gcem)\n")
    calls = "".join("    s += double(gcem::%s);\n" % e for e in ("sqrt(2.0)", "incomplete_gamma(2.0, 1.0)", "incomplete_beta_inv(2.0, 3.0, 0.4)", "pow(2, 10)", "erf(0.5)", "lgamma(3.5)", "gcd(12, 18)", "tan(0.4)"))
    for n, m in (("a", "double other();\nint main() { double s = 0;\n%s    return s == other() && s > 0 ? 0 : 1; }\n"), ("b", "double other();\ndouble other() { double s = 0;\n%s    return s; }\n")):
        open(os.path.join(u, n + ".cpp"), "w").write('#include "gcem.hpp"\n' + m % calls)
    for cmd in (["cmake", "-S", u, "-B", u + "/b", "-DCMAKE_PREFIX_PATH=" + pre], ["cmake", "--build", u + "/b"], [u + "/b/u"]):
        r = run(cmd)
        if r.returncode:
            return "user project: %s: %s" % (" ".join(cmd[:2]).replace(d, ""), (r.stderr + r.stdout)[-500:])
    return None


CAPS = {"GCEM_ERF_MAX_ITER": 60, "GCEM_ERF_INV_MAX_ITER": 60, "GCEM_EXP_MAX_ITER_SMALL": 25, "GCEM_LOG_MAX_ITER_SMALL": 25, "GCEM_LOG_MAX_ITER_BIG": 255, "GCEM_INCML_BETA_MAX_ITER": 205, "GCEM_INCML_BETA_INV_MAX_ITER": 35,
        "GCEM_INCML_GAMMA_MAX_ITER": 55, "GCEM_INCML_GAMMA_INV_MAX_ITER": 35, "GCEM_SQRT_MAX_ITER": 100, "GCEM_INV_SQRT_MAX_ITER": 100, "GCEM_TAN_MAX_ITER": 35, "GCEM_TANH_MAX_ITER": 35}


CONSTANTS = ["GCEM_LOG_2", "GCEM_LOG_10", "GCEM_PI", "GCEM_LOG_PI", "GCEM_LOG_2PI", "GCEM_LOG_SQRT_2PI", "GCEM_SQRT_2", "GCEM_HALF_PI", "GCEM_SQRT_PI", "GCEM_SQRT_HALF_PI", "GCEM_E"]
CALLS = ["sqrt(2.5)", "incomplete_gamma(2.0, 1.0)", "incomplete_gamma_inv(2.0, 0.3)", "incomplete_beta(2.0, 3.0, 0.4)", "incomplete_beta_inv(2.0, 3.0, 0.4)", "erf(0.5)", "erf(3.0)", "erf_inv(0.4)", "lgamma(3.5)", "tgamma(2.5)", "tan(0.4)",
         "tanh(0.4)", "log(3.7)", "log10(3.7)", "log2(3.7)", "exp(1.3)", "pow(2.5, 1.5)", "inv_sqrt(2.5)", "lmgamma(3.5, 2)", "asin(0.3)", "acos(0.3)", "atan(2.0)", "sin(2.0)", "cos(2.0)", "cosh(2.0)", "factorial(5)"]


def settings(cc, std, defs, how, d, tag):
    """The user's own values of the documented settings (on the command line, before the header, or in a configuration header
    that is included first) are the ones in force afterwards, in silence, and the library still works with them."""
    src = os.path.join(d, tag + ".cpp")
    lines = "".join("#define %s %s\n" % kv for kv in sorted(defs.items()))
    cl = ["-D%s=%s" % kv for kv in sorted(defs.items())] if how == "command line" else []
    L = '#include "gcem.hpp"\n' + ('#include "gcem.hpp"\n' if how == "twice" else "")
    if how == "header":
        open(os.path.join(d, tag + "_cfg.hpp"), "w").write("#ifndef CFG_\n#define CFG_\n" + lines + "#endif\n")
        L = '#include "%s_cfg.hpp"\n' % tag + L + '#include "%s_cfg.hpp"\n' % tag
    elif how != "command line":
        L = lines + L
    L += "#include <cstdio>\n#define S_(x) #x\n#define S(x) S_(x)\nint main() {\n"
    for k in sorted(defs):
        L += '  std::printf("%s=%%s\\n", S(%s));\n' % (k, k)
    for e in CALLS:
        L += '  { volatile bool ok = gcem::%s > -1e3; constexpr bool okc = gcem::%s > -1e3; if (!ok || !okc) std::printf("bad value: %s\\n"); }\n' % (e, e, e)
    open(src, "w").write(L + "  return 0; }\n")
    exe = src[:-4] + ".exe"
    # larger settings need deeper constant evaluation: the user raises the compiler's limits with them
    lim = ["-fconstexpr-depth=20000"] + (["-fconstexpr-steps=100000000"] if "clang" in cc else ["-fconstexpr-ops-limit=1000000000"])
    r = run([cc, "-std=" + std, "-O1", "-Wall", "-I", INC, "-I", d] + lim + cl + [src, "-o", exe])
    note = [l for l in r.stderr.splitlines() if "redefined" in l]
    if r.returncode:
        if "error:" not in r.stderr:
            return None, r.stderr[-300:]
        return next(l for l in r.stderr.splitlines() if "error:" in l), None
    if note:
        return re.sub(r"^\S*?:\d+:\d+: ", "", note[0]), None
    q = run([exe], timeout=120)
    os.unlink(exe)
    if q.returncode:
        return None, "generated program ended with %d" % q.returncode
    want = ["%s=%s" % kv for kv in sorted(defs.items())]
    got = q.stdout.splitlines()
    for a in got:
        if a not in want:
            return "user's setting replaced: the user defined %s, the library left %s" % ([w for w in want if w.split("=")[0] == a.split("=")[0]][:1], a), None
    return None, None


def make_settings(rnd):
    defs = {k: "%d" % (v * rnd.choice([1, 2, 3]) + rnd.randint(0, 7)) for k, v in CAPS.items()}
    defs["GCEM_INCML_BETA_TOL"] = rnd.choice(["1E-16", "1e-15L", "1E-17"])
    for k in CONSTANTS:
        defs[k] = {"GCEM_LOG_2": "0.693147180559945309417232121458176568L", "GCEM_LOG_10": "2.30258509299404568401799145468436421L", "GCEM_PI": "3.14159265358979323846264338327950288L", "GCEM_LOG_PI": "1.14472988584940017414342735135305871L",
                   "GCEM_LOG_2PI": "1.83787706640934548356065947281123527L", "GCEM_LOG_SQRT_2PI": "0.918938533204672741780329736405617639L", "GCEM_SQRT_2": "1.41421356237309504880168872420969808L", "GCEM_HALF_PI": "1.57079632679489661923132169163975144L",
                   "GCEM_SQRT_PI": "1.77245385090551602729816748334114518L", "GCEM_SQRT_HALF_PI": "1.25331413731550025120788264240552263L", "GCEM_E": "2.71828182845904523536028747135266250L"}[k]
    return {k: defs[k] for k in sorted(defs) if rnd.random() < rnd.choice([0.3, 0.7, 1.0])}


def small(cs):
    """Cases cheap enough to appear in several constant expressions of one program."""
    return [c for c in cs if not c[1].startswith("incomplete") and c[1] not in ("binomial_coef", "lmgamma") and all(P.parse(h) == P.parse(h) and abs(P.parse(h)) <= 1e4 for h in c[3])]


def check(rep, thorough):
    rnd = random.Random(rep.seed * 1000003 + 17)
    eng = ck.engine()
    # the convergence settings: raised caps must leave every value property intact
    vs = []
    for i in range(6 if thorough else 2):
        caps = {k: v * rnd.choice([2, 3, 4]) for k, v in CAPS.items() if rnd.random() < 0.7 or i == 0}
        n = "caps-%d" % i
        ck.VARIANTS[n] = [["g++", "-std=c++11", "-O2"], ["clang++", "-std=c++17", "-O2"]][i % 2] + ["-D%s=%d" % kv for kv in sorted(caps.items())]
        vs.append(n)
    ck.engine_check(rep, vs, 300000 if thorough else 40000, 20000, specs_props=["C%02d" % i for i in range(6, 21)], parts=8)
    caps_rule = rep.cov["rule"]
    # the user's flags and macros that have no business changing a value: bit-identical results
    for cc, std in (("g++", "c++17"), ("clang++", "c++14"))[:2 if thorough else 1]:
        base = [cc, "-std=" + std, "-O1"]
        ck.VARIANTS["plain-" + cc] = base
        names = ["plain-" + cc]
        for i in range(4 if thorough else 2):
            n = "user-%s-%d" % (cc, i)
            ck.VARIANTS[n] = base + sorted(rnd.sample(NEUTRAL, len(NEUTRAL) if i == 0 else len(NEUTRAL) // 2))
            names.append(n)
        ck.engine_check(rep, names, 200000 if thorough else 40000, 10000, specs_props=["C%02d" % i for i in range(1, 21)], extra=["--diff-exact"], parts=8)
    n = 400 if thorough else 48
    with tempfile.TemporaryDirectory(prefix="gcemv-") as d:
        cs = P.emit(eng, ["C%02d" % i for i in range(1, 21)], 800, rep.seed, d, "emit")
        lo = small(cs)
        hi = [c for c in cs if c[1].startswith("incomplete") and set(c[2]) <= set("fd")]
        cfgs = []
        for i in range(n):
            by = {}
            for c in rnd.sample(lo, min(len(lo), 2000)):
                by.setdefault(c[1], c)
            cases = list(by.values())
            rnd.shuffle(cases)
            cfgs.append(make(rnd, cases[:rnd.randint(20, 40)] + rnd.sample(hi, min(2, len(hi)))))
        errs, fails = [], []
        with ThreadPoolExecutor(NCPU) as ex:
            for c, r in zip(cfgs, ex.map(lambda ic: judge(ic[1], d, "g%d" % ic[0]), list(enumerate(cfgs)))):
                if r and r[0] == "harness":
                    errs.append(r[1])
                elif r:
                    fails.append((c, r[1]))
        for c, msg in fails[:3]:
            if all((judge(c, d, "cf%d" % t) or ("",))[0] == "what" for t in range(3)):
                s = shrink(c, d)
                m = (judge(s, d, "fin") or ("", msg))[1]
                m = re.sub(re.escape(d) + r"/\S*?:\d+:\d+: ", "", m)
                rep.violation("config/%s/%s" % (s.cc, re.sub(r"\W+", "_", m)[:80]), "%s [%s; calls %s]" % (m, describe(s), ", ".join(P.text(x) for x in s.cases[:3])),
                              {"kind": "program", "mode": "c26", "config": s.__dict__})
            else:
                errs.append("unconfirmed: " + msg)
        leaks = 0
        for i in range(60 if thorough else 16):
            cc, std, before = rnd.choice(["g++", "clang++"]), rnd.choice(STDS), rnd.sample(HEADERS, rnd.randint(0, 5))
            bad, err = macro_leak(cc, std, before, d, "leak")
            leaks += 1
            if err:
                errs.append(err)
            elif bad:
                rep.violation("macros/%s" % ",".join(sorted(bad)[:3]), "including the library defines, removes or changes macros that are not its own: %s (%s -std=%s after %s)" % (" ".join(sorted(bad)[:5]), cc, std, " ".join(before)),
                              {"kind": "program", "mode": "c26", "leak": [cc, std, before]})
                break
        nset = 0
        sets = [(rnd.choice(["g++", "clang++"]), rnd.choice(STDS), make_settings(rnd), rnd.choice(["command line", "before", "header", "twice"])) for _ in range(120 if thorough else 20)]
        sets[0] = sets[0][:2] + ({k: str(v + 3) for k, v in CAPS.items()}, "command line")
        with ThreadPoolExecutor(NCPU) as ex:
            for st, (bad, err) in zip(sets, ex.map(lambda iv: settings(*iv[1], d, "set%d" % iv[0]), list(enumerate(sets)))):
                nset += 1
                if err:
                    errs.append(err)
                elif bad and not any(v[0].startswith("settings") for v in rep.violations):
                    defs = dict(st[2])
                    for k in sorted(defs):                       # shrink: drop every setting that is not needed
                        rest = {a: b for a, b in defs.items() if a != k}
                        if rest and settings(st[0], st[1], rest, st[3], d, "sh")[0]:
                            defs = rest
                    bad = settings(st[0], st[1], defs, st[3], d, "sh")[0] or bad
                    rep.violation("settings/%s" % ",".join(sorted(defs)[:3]), "%s (%s -std=%s, defined %s: %s)" % (bad, st[0], st[1], st[3], " ".join("%s=%s" % kv for kv in sorted(defs.items()))),
                                  {"kind": "program", "mode": "c26", "settings": [st[0], st[1], defs, st[3]]})
        msg = cmake_user(os.path.join(d, "cm"))
        if msg:
            rep.violation("cmake", "installed package is unusable: " + msg, {"kind": "program", "mode": "c26", "cmake": True})
    if errs and not rep.violations:
        with tempfile.TemporaryDirectory(prefix="gcemv-") as d:
            if not ck.control_ok(["g++", "-std=c++11"], d) or not ck.control_ok(["clang++", "-std=c++17"], d):
                raise ck.Inconclusive("toolchain: " + errs[0])
        ck.log("note:", *errs[:3])
    nt = len(set(describe(c) for c in cfgs if c.flags or c.before or c.macros or c.tus > 1))
    rep.cov["cap_cases"] = rep.cov["evaluations"]
    rep.cov["setting_checks"] = nset
    rep.cov["evaluations"] += len(cfgs) + leaks + nset + 1
    rep.cov["distinct_nontrivial"] += nt
    rep.cov["configurations"] = len(cfgs)
    rep.cov["distinct_nontrivial_configurations"] = nt
    rep.cov["macro_checks"] = leaks
    rep.cov["harness_notes"] = errs[:5]
    rep.cov["rule"] = ("Configurations: a generated program (compiler, standard, flags, headers included before and after, function-like macros and user declarations preceding the header, repeated inclusion, calling style, constant-expression "
                       "contexts, 1-3 translation units) must compile, link and print what the plain program with the same compiler, standard and optimisation level prints; non-trivial: it differs from the plain program in flags, "
                       "headers, macros or number of units. Convergence settings: user values must stay in force silently. Neutral flags and macros (-DNDEBUG, -fwrapv, ...): every value function is called with generated arguments in a plain build and in builds "
                       "with random subsets of them, and the results must be identical bit for bit. Raised convergence caps: " + caps_rule)
    rep.cov["samples"] = [describe(c) for c in cfgs[:8]] + rep.cov["samples"][:6]


def replay(r):
    with tempfile.TemporaryDirectory(prefix="gcemv-") as d:
        if r.get("cmake"):
            m = cmake_user(os.path.join(d, "cm"))
            print(m or "holds")
            return 1 if m else 0
        if "settings" in r:
            bad, err = settings(*r["settings"], d, "set")
            print(bad or err or "holds")
            return 1 if bad else 0
        if "leak" in r:
            bad, err = macro_leak(*r["leak"], d, "leak")
            print(bad or err or "holds")
            return 1 if bad else 0
        c = Config()
        c.__dict__.update(r["config"])
        c.cases = [tuple(x) for x in c.cases]
        m = judge(c, d, "replay")
        print(describe(c), "->", m[1] if m else "holds")
        return 1 if m and m[0] == "what" else 0
