// C23 (types), C24 (totality and special values), C25 (symmetry, range,
// monotonicity), C27 (inverse pairs), C28 (functional identities).
#include "spec_util.hpp"
#include <algorithm>
using std::string;
static const Spec* value_spec(const string& label) { static std::map<string, const Spec*> m; auto it = m.find(label); if (it != m.end()) return it->second; for (auto& s : specs()) if (s.label == label && s.prop < "C21") { m[label] = &s; return &s; } return 0; }
static Args mk(LD a) { Args r; r.n = 1; r.v[0] = a; r.v[1] = r.v[2] = r.v[3] = 0; return r; }
static Args mk(LD a, LD b) { Args r = mk(a); r.n = 2; r.v[1] = b; return r; }
static Args mk(LD a, LD b, LD c) { Args r = mk(a, b); r.n = 3; r.v[2] = c; return r; }
static bool same(LD a, LD b) { return (a != a && b != b) || (a == b); }
static string show(LD v) { return hexld(v); }

// ------------------------------------------------------------------ C23
enum RetRule { R_RETURN, R_COMMON_RETURN, R_COMMON, R_SAME, R_INT, R_BOOL, R_FIRST, R_FIRST_RETURN };
static char expected_ret(RetRule k, const string& c) {
    switch (k) { case R_RETURN: return promote(c[0]); case R_COMMON_RETURN: return promote(common_of(c)); case R_COMMON: return common_of(c); case R_SAME: case R_FIRST: return c[0]; case R_INT: return 'i'; case R_BOOL: return 'b'; case R_FIRST_RETURN: return promote(c[0]); } return 0; }
static LD any_arg(Rng& r, char t) {
    const TypeInfo& ti = type_info(t);
    if (!ti.is_float) { if (t == 'b') return r.below(2); return r.below(3) ? to_type(t, (LD)r.range(-30, 90)) : gen_int(r, t, ti.ilo, ti.ihi); }
    switch (r.below(8)) { case 0: return special_value(r, t); case 1: return gen_any(r, t); case 2: return gen_real(r, t, 0, 1); case 3: return gen_real(r, t, 0, 400); case 4: return (LD)r.range(-40, 80) / 2; default: return gen_real(r, t, -25, 25); } }
static const char* UN_RETURN[] = {"floor", "ceil", "trunc", "round", "sqrt", "inv_sqrt", "exp", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "lgamma", "tgamma", "erf", "erf_inv"};
static const char* BI_RETURN[] = {"hypot", "atan2", "fmod", "lbeta", "beta", "log_binomial_coef", "incomplete_gamma", "incomplete_gamma_inv"};
static const char* BI_COMMON[] = {"min", "max", "gcd", "lcm", "pow", "binomial_coef"};
static const char* TRI_RETURN[] = {"incomplete_beta", "incomplete_beta_inv"};
static VS uni(const string& a) { VS v; for (char x : a) v.push_back(string(1, x)); return v; }
static VS prod(const string& a, const string& b) { VS v; for (char x : a) for (char y : b) v.push_back(string() + x + y); return v; }
static void c23(const char* fn, const VS& sigs, RetRule rule, bool val, double share) {
    Spec s; s.prop = "C23"; s.fn = fn; s.label = string("types.") + fn; s.sigs = sigs; s.share = share; s.no_sweep = true; string f = fn;
    s.gen = [f](Rng& r, const string& c, Args& a) { a.n = (int)c.size(); for (int k = 0; k < a.n; k++) a.v[k] = any_arg(r, c[k]);
        if (f.find("incomplete_") == 0) { if (is_float_id(c[a.n - 1]) && r.below(3)) a.v[a.n - 1] = gen_real(r, c[a.n - 1], 0, f == "incomplete_gamma" ? 30 : 1); for (int k = 0; k + 1 < a.n; k++) if (r.below(4)) a.v[k] = fabsl(a.v[k]); } };
    s.relation = [f, rule, val](const string& c, const Args& a, const CallFn& call, bool& nt, Q&) -> string {
        char er = expected_ret(rule, c), gr = g_lib_ret(f, c);
        if (gr != er) return string("result type is ") + (gr ? type_info(gr).cname : "?") + ", expected " + type_info(er).cname;
        if (!g_lib_nx(f, c)) return "call is not noexcept";
        if (!val) { nt = false; return ""; }
        // one computation type for all arguments
        char w = rule == R_FIRST_RETURN ? promote(c[0]) : rule == R_COMMON || rule == R_SAME ? common_of(c) : promote(common_of(c)); string wc = c; Args b = a; bool differs = false;
        for (size_t k = 0; k < c.size(); k++) { if (rule == R_FIRST_RETURN && k > 0) continue; if (c[k] != w) differs = true; wc[k] = w; b.v[k] = to_type(w, a.v[k]); }
        nt = differs; if (!differs) return "";
        for (size_t k = 0; k < c.size(); k++) if (f == "lmgamma" && a.v[1] > 200) return "SKIP";
        LD g = call(f.c_str(), c, a), h = call(f.c_str(), wc, b);
        return same(g, h) ? "" : "gives " + show(g) + ", but " + show(h) + " when the arguments are first converted to " + type_info(w).cname; };
    s.needs = [f, rule](const string& c) { VS v{f + " " + c}; char w = rule == R_FIRST_RETURN ? promote(c[0]) : promote(common_of(c)); string wc = c; for (size_t k = 0; k < c.size(); k++) if (!(rule == R_FIRST_RETURN && k > 0)) wc[k] = w; if (rule == R_RETURN || rule == R_COMMON_RETURN || rule == R_FIRST_RETURN) v.push_back(f + " " + wc); return v; };
    add(s);
}
// ------------------------------------------------------------------ C24
static LD extreme(Rng& r, char t) {
    const TypeInfo& ti = type_info(t);
    if (!ti.is_float) { switch (r.below(4)) { case 0: return to_type(t, (LD)r.range(-3, 3)); case 1: return r.coin() ? ti.ilo : ti.ihi; default: return gen_int(r, t, ti.ilo, ti.ihi); } }
    switch (r.below(10)) { case 0: case 1: return special_value(r, t); case 2: case 3: return gen_any(r, t); case 4: return next_in(t, (LD)r.range(-6, 6), (int)r.range(-2, 2)); case 5: return (r.coin() ? 1 : -1) * to_type(t, ldexpl(1 + r.unit(), (int)r.range(20, ti.maxexp - 1))); case 6: { LD b[] = {0x1p31L, 0x1p32L, 0x1p63L, 0x1p64L, 0x1p53L, 0x1p24L, 1e10L, 1e18L, 170, 171, 709, 88, 11356, 1000, 500, 20, 21}; LD v = next_in(t, to_type(t, b[r.below(17)]), (int)r.range(-2, 2)); return r.coin() ? v : -v; } case 7: return gen_real(r, t, -2, 2); case 8: return gen_real(r, t, -1000, 1000); default: return (r.coin() ? 1 : -1) * to_type(t, ldexpl(1 + r.unit(), (int)r.range(ti.minexp - ti.digits, ti.minexp + 30))); } }
static void c24(const char* fn, const char* label, const VS& sigs, double share, bool nanprop = true) {
    Spec s; s.prop = "C24"; s.fn = fn; s.label = string("total.") + label; s.sigs = sigs; s.share = share; string f = fn, l = label; s.no_sweep = false;
    s.gen = [f, l](Rng& r, const string& c, Args& a) { a.n = (int)c.size(); const Spec* v = value_spec(l); if (v && r.below(4) == 0 && std::find(v->sigs.begin(), v->sigs.end(), c) != v->sigs.end()) { v->gen(r, c, a); int k = (int)r.below(a.n); if (r.below(3)) a.v[k] = extreme(r, c[k]); } else for (int k = 0; k < a.n; k++) a.v[k] = extreme(r, c[k]); };
    s.relation = [f, l, nanprop](const string& c, const Args& a, const CallFn& call, bool& nt, Q&) -> string {
        bool nan = false; for (int k = 0; k < a.n; k++) nan |= a.v[k] != a.v[k];
        Expect e = skip(); const Spec* v = value_spec(l); if (v && v->oracle && std::find(v->sigs.begin(), v->sigs.end(), c) != v->sigs.end()) e = v->oracle(c, a);
        if (nan && nanprop && e.kind == SKIP) e = nan_();
        if (e.kind == SKIP && (f == "gcd" || f == "lcm" || (f == "lmgamma" && a.v[1] > 200))) return "SKIP"; LD g = call(f.c_str(), c, a); nt = e.kind != SKIP; double ne; return compare(e, g, &ne); };
    add(s);
}
static VS real_entries(const string& c) { VS v; string t(1, c[0]); for (auto f : UN_RETURN) v.push_back(string(f) + " " + t); for (auto f : {"abs", "factorial"}) v.push_back(string(f) + " " + t); for (auto f : BI_RETURN) v.push_back(string(f) + " " + t + t); for (auto f : {"min", "max", "pow"}) v.push_back(string(f) + " " + t + t); for (auto f : {"pow", "lmgamma"}) v.push_back(string(f) + " " + t + "i"); for (auto f : TRI_RETURN) v.push_back(string(f) + " " + t + t + t); return v; }
// ------------------------------------------------------------------ helpers for C25, C27, C28
struct Gen1 { string label; };
static LD from_spec(Rng& r, const string& label, char t) { Args a; a.n = 1; for (auto& v : a.v) v = 0; value_spec(label)->gen(r, string(1, t), a); return to_type(t, a.v[0]); }
static LD neighbour(Rng& r, char t, LD x) { switch (r.below(5)) { case 0: return next_in(t, x, (int)r.range(1, 4)); case 1: return to_type(t, x + fabsl(x) * ldexpl(r.unit(), -(int)r.range(0, 60))); case 2: return to_type(t, x + ldexpl(r.unit(), -(int)r.range(0, 50))); case 3: return to_type(t, x * (1 + r.unit())); default: return to_type(t, x + 10 * r.unit()); } }
static Expect ora(const string& label, const string& c, const Args& a) { const Spec* v = value_spec(label); return v->oracle(c, a); }
static Q lg_eps(char t, Q x) { return (epsq(t) + (t == 'e' ? 1e-16Q : 0)) * (1 + (x + 0.5Q) * logq(x + 5.25Q)); }   // error of log-gamma
static bool fin(LD x) { return std::isfinite(x); }

static void parity(const char* fn, bool odd) {
    Spec s; s.prop = "C25"; s.fn = fn; s.label = string(odd ? "odd." : "even.") + fn; s.sigs = VS{"f", "d", "e"}; s.needs = real_entries; s.share = 1; string f = fn;
    s.gen = [f](Rng& r, const string& c, Args& a) { a = mk(from_spec(r, f, c[0])); };
    s.relation = [f, odd](const string& c, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { if (a.v[0] != a.v[0]) return "SKIP"; Expect e = ora(f, c, a); if (e.kind == SKIP || subn(c[0], a.v[0])) return "SKIP"; LD g = call(f.c_str(), c, a), h = call(f.c_str(), c, mk(-a.v[0])); LD w = odd ? -h : h; nt = a.v[0] != 0; if (same(g, w)) return ""; if (fin(g) && fin(w)) { ne = qabs((Q)g - (Q)w) / (f == "atanh" ? qmax(e.unit, epsq(c[0]) * qabs((Q)g)) : epsq(c[0]) * qmax(qabs((Q)g), (Q)type_info(c[0]).minn)); if (ne <= 4) return ""; } return "f(x) = " + show(g) + " but f(-x) = " + show(h); };
    add(s);
}
static void range(const char* fn, std::function<string(char, LD, LD)> chk) {   // chk(type, x, result) -> message
    Spec s; s.prop = "C25"; s.fn = fn; s.label = string("range.") + fn; s.sigs = VS{"f", "d", "e"}; s.needs = real_entries; s.share = 1; string f = fn;
    s.gen = [f](Rng& r, const string& c, Args& a) { a = mk(r.below(8) ? from_spec(r, f, c[0]) : gen_any(r, c[0])); };
    s.relation = [f, chk](const string& c, const Args& a, const CallFn& call, bool& nt, Q&) -> string { LD x = a.v[0]; if (x != x) return "SKIP"; Expect e = ora(f, c, a); if (e.kind == ISNAN || e.kind == SKIP) return "SKIP"; LD g = call(f.c_str(), c, a); nt = fin(x); if (g != g) return "result is NaN"; return chk(c[0], x, g); };
    add(s);
}
// monotone: for x < y, f(x) <= f(y) up to `k` error units of the value property (0: exactly)
static void mono(const char* fn, int dir, LD lo, LD hi, double k) {
    Spec s; s.prop = "C25"; s.fn = fn; s.label = string("mono.") + fn; s.sigs = VS{"ff", "dd", "ee"}; s.needs = real_entries; s.share = 1; string f = fn;
    s.gen = [f, lo](Rng& r, const string& c, Args& a) { char t = c[0]; LD x = from_spec(r, f, t), y = r.below(4) ? neighbour(r, t, x) : from_spec(r, f, t); if (x > y) std::swap(x, y); a = mk(x, y); };
    s.relation = [f, dir, lo, hi, k](const string& c, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { LD x = a.v[0], y = a.v[1]; if (!(x <= y) || x < lo || y > hi || !fin(x) || !fin(y)) return "SKIP"; string c1(1, c[0]); Expect ex = ora(f, c1, mk(x)), ey = ora(f, c1, mk(y)); if (ex.kind == SKIP || ey.kind == SKIP || ex.kind == ISNAN || ey.kind == ISNAN) return "SKIP";
        LD g = call(f.c_str(), c1, mk(x)), h = call(f.c_str(), c1, mk(y)); nt = x < y; if (g != g || h != h) return "result is NaN"; if (dir > 0 ? g <= h : h <= g) return ""; if (!fin(g) || !fin(h)) { if (ex.inf_ok || ey.inf_ok) return ""; return "not monotone: " + show(g) + " at x, " + show(h) + " at y"; }
        Q d = qabs((Q)g - (Q)h), u = qmax(ex.unit, ey.unit) + (Q)ex.sub + (Q)ey.sub; ne = u > 0 ? d / u : (Q)1e30; if (k > 0 && d <= qmax(ex.tol, ey.tol)) return ""; return "not monotone: " + show(g) + " at x, " + show(h) + " at y"; };
    add(s);
}
// a relation over reals: rel(type, args, call, nt, ne): "" or message, in terms of |diff| <= K*unit
typedef std::function<string(char t, const Args& a, const CallFn& call, bool& nt, Q& ne)> Rel;
static void rel(const char* prop, const char* label, int n, std::function<void(Rng&, char, Args&)> g, Rel f, double share = 1) {
    Spec s; s.prop = prop; s.fn = label; s.label = label; s.sigs = VS{string(n, 'f'), string(n, 'd'), string(n, 'e')}; s.needs = real_entries; s.share = share; s.no_sweep = n != 1;
    s.gen = [g, n](Rng& r, const string& c, Args& a) { for (auto& v : a.v) v = 0; a.n = n; g(r, c[0], a); a.n = n; for (int k = 0; k < n; k++) a.v[k] = to_type(c[0], a.v[k]); };
    s.relation = [f, n](const string& c, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { for (int k = 0; k < n; k++) if (!fin(a.v[k]) || subn(c[0], a.v[k])) return "SKIP"; return f(c[0], a, call, nt, ne); };
    add(s);
}
static string near(Q got, Q want, Q unit, Q K, Q& ne) { if (got != got) return "result is NaN, expected " + qstr(want); Q d = qabs(got - want); if (d == 0) { return ""; } ne = unit > 0 ? d / unit : (Q)1e30; return ne <= K ? "" : "gives " + qstr(got) + ", expected " + qstr(want) + " (" + qstr(ne) + " units)"; }
static LD C1(const CallFn& call, const char* f, char t, LD x) { return call(f, string(1, t), mk(x)); }
static LD C2(const CallFn& call, const char* f, char t, LD x, LD y) { return call(f, string(2, t), mk(x, y)); }
static LD C3(const CallFn& call, const char* f, char t, LD x, LD y, LD z) { return call(f, string(3, t), mk(x, y, z)); }
static Q unit_of(const string& label, char t, const Args& a) { Expect e = ora(label, string(a.n, t), a); if (e.kind != VAL) return -1; return e.unit + (Q)e.sub; }

static int reg() {
    const string ALL = "fdebcahstijlmxy", NB = "fdeahstijlmxy", SOME = "fdesijly";
    for (auto f : UN_RETURN) c23(f, uni(ALL), R_RETURN, true, 0.3);
    c23("abs", uni(NB), R_SAME, false, 0.02); c23("sgn", uni(NB), R_INT, false, 0.02); c23("signbit", uni("fde"), R_BOOL, false, 0.02); c23("factorial", uni(NB), R_SAME, false, 0.02); c23("copysign", prod("fde", "fde"), R_FIRST, false, 0.05);
    for (auto f : BI_RETURN) c23(f, prod(SOME, SOME), R_COMMON_RETURN, true, 1);
    for (auto f : BI_COMMON) c23(f, prod(NB, NB), R_COMMON, false, 0.1);
    { Spec s; s.prop = "C23"; s.fn = "pow"; s.label = "types.pow.mixed"; s.share = 0.5; s.no_sweep = true; s.needs = [](const string& c) { return VS{"pow " + c, "pow " + string(2, common_of(c))}; }; s.sigs = VS{"fd", "df", "fe", "ef", "de", "ed", "if", "id", "ie", "lf", "ld", "le", "jd", "yd", "sf", "sd"};
      s.gen = [](Rng& r, const string& c, Args& a) { a = mk(any_arg(r, c[0]), any_arg(r, c[1])); if (r.coin()) a.v[0] = fabsl(a.v[0]); };
      s.relation = [](const string& c, const Args& a, const CallFn& call, bool& nt, Q&) -> string { char w = common_of(c); LD g = call("pow", c, a), h = call("pow", string(2, w), mk(to_type(w, a.v[0]), to_type(w, a.v[1]))); nt = true; return same(g, h) ? "" : "gives " + show(g) + ", but " + show(h) + " when the arguments are first converted to " + type_info(w).cname; }; add(s); }
    c23("lmgamma", prod(SOME, "ijlmsy"), R_FIRST_RETURN, true, 0.5);
    { VS v; for (char a : string("fdeil")) for (char b : string("fdeil")) for (char c : string("fdeil")) v.push_back(string() + a + b + c); for (auto f : TRI_RETURN) c23(f, v, R_COMMON_RETURN, true, 1); }

    // ---- C24
    VS r1 = {"f", "d", "e", "i", "l", "y"}, r2 = {"ff", "dd", "ee", "ii", "di"};
    for (auto f : UN_RETURN) c24(f, f, r1, 1);
    c24("factorial", "factorial.real", VS{"f", "d", "e"}, 1);
    for (auto f : BI_RETURN) c24(f, f, r2, 1);
    c24("pow", "pow.real", VS{"ff", "dd", "ee"}, 1, false); c24("pow", "pow.intexp", VS{"fi", "di", "ei", "dl", "fl", "dy"}, 1, false);
    c24("lmgamma", "lmgamma", VS{"fi", "di", "ei"}, 0.5);
    for (auto f : TRI_RETURN) c24(f, f, VS{"fff", "ddd", "eee"}, 1);
    c24("gcd", "gcd", VS{"ff", "dd", "ii", "ll", "ij", "jj", "yy", "ss"}, 0.5, false); c24("lcm", "lcm", VS{"ff", "dd", "ii", "ll", "ij", "jj", "yy", "ss"}, 0.5, false);
    c24("sgn", "sgn", VS{"f", "d", "e", "i", "l", "y"}, 0.3, false); c24("signbit", "signbit", VS{"f", "d", "e"}, 0.2, false); c24("min", "min", VS{"ff", "dd", "ee", "ii", "di"}, 0.3, false); c24("max", "max", VS{"ff", "dd", "ee", "ii", "di"}, 0.3, false); c24("copysign", "copysign", VS{"ff", "dd", "ee"}, 0.3, false); c24("abs", "abs", VS{"f", "d", "e"}, 0.3, true);

    // ---- C25 parity
    for (auto f : {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf", "erf_inv", "trunc", "round"}) parity(f, true);
    for (auto f : {"cos", "cosh", "abs"}) parity(f, false);
    rel("C25", "floor=-ceil(-x)", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "floor", t); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) { return near(C1(call, "floor", t, a.v[0]), -(Q)C1(call, "ceil", t, -a.v[0]), 0, 0, ne); });
    rel("C25", "hypot.symmetric", 2, [](Rng& r, char t, Args& a) { value_spec("hypot")->gen(r, string(2, t), a); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD g = C2(call, "hypot", t, a.v[0], a.v[1]), h = C2(call, "hypot", t, a.v[1], a.v[0]), m = C2(call, "hypot", t, -a.v[0], a.v[1]), n = C2(call, "hypot", t, a.v[0], -a.v[1]); if (same(g, h) && same(g, m) && same(g, n)) return ""; if (std::isinf(g) || std::isinf(h) || std::isinf(m) || std::isinf(n)) { Expect e = ora("hypot", string(2, t), a); return e.inf_ok || e.kind == PINF ? "" : "infinite for one order or sign only"; } Q e1, e2, e3; Q u = epsq(t) * qabs((Q)g); string s1 = near(h, g, u, 4, e1); if (s1.empty()) s1 = near(m, g, u, 4, e2); if (s1.empty()) s1 = near(n, g, u, 4, e3); return s1.empty() ? "" : "hypot depends on the order or sign of its arguments: " + s1; });
    for (const char* f : {"beta", "lbeta", "min", "max"}) { string fs = f; rel("C25", (new string(fs + ".symmetric"))->c_str(), 2, [fs](Rng& r, char t, Args& a) { value_spec(fs)->gen(r, string(2, t), a); }, [fs](char t, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { Expect e = ora(fs, string(2, t), a); if (e.kind == SKIP) return "SKIP"; LD g = C2(call, fs.c_str(), t, a.v[0], a.v[1]), h = C2(call, fs.c_str(), t, a.v[1], a.v[0]); nt = a.v[0] != a.v[1]; if (same(g, h)) return ""; return near(h, g, e.unit, 3, ne); }); }
    rel("C25", "atan2.signs", 2, [](Rng& r, char t, Args& a) { value_spec("atan2")->gen(r, "dd"[0] == t ? string(2, t) : string(2, t), a); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { if (a.v[0] == 0 || a.v[1] == 0) return "SKIP"; LD g = C2(call, "atan2", t, a.v[0], a.v[1]), h = C2(call, "atan2", t, -a.v[0], a.v[1]); string m = near(h, -(Q)g, epsq(t) * qabs((Q)g), 4, ne); if (!m.empty()) return "atan2(-y,x) " + m; LD k = C2(call, "atan2", t, a.v[0], -a.v[1]); Q w = (a.v[0] > 0 ? PIq : -PIq) - (Q)g; Q e2; m = near(k, w, epsq(t) * 4 * (t == 'e' ? 32 : 1), 4, e2); return m.empty() ? "" : "atan2(y,-x) " + m; });
    rel("C25", "incomplete_beta.reflection", 3, [](Rng& r, char t, Args& a) { value_spec("incomplete_beta")->gen(r, string(3, t), a); if (r.coin()) a.v[2] = floorl(a.v[2] * 4096) / 4096; }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD w = to_type(t, 1 - a.v[2]); if (w + a.v[2] != 1 || to_type(t, 1 - w) != a.v[2]) return "SKIP"; Args b = mk(a.v[1], a.v[0], w); Q u1 = unit_of("incomplete_beta", t, a), u2 = unit_of("incomplete_beta", t, b); if (u1 < 0 || u2 < 0) return "SKIP"; LD g = C3(call, "incomplete_beta", t, a.v[0], a.v[1], a.v[2]), h = C3(call, "incomplete_beta", t, a.v[1], a.v[0], w); return near((Q)g + (Q)h, 1, u1 + u2 + epsq(t), 16, ne); });
    rel("C25", "log_binomial_coef.symmetric", 2, [](Rng& r, char, Args& a) { a.v[0] = r.range(0, r.coin() ? 40 : 2000); a.v[1] = r.range(0, (int)a.v[0]); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { if (a.v[1] > a.v[0] || a.v[1] < 0) return "SKIP"; Q u = unit_of("log_binomial_coef", t, a); if (u < 0) return "SKIP"; return near(C2(call, "log_binomial_coef", t, a.v[0], a.v[1]), C2(call, "log_binomial_coef", t, a.v[0], a.v[0] - a.v[1]), u, 8, ne); });
    // ranges
    auto within = [](LD lo, LD hi, LD rel) { return [=](char t, LD, LD g) -> string { LD e = rel * type_info(t).eps; return g >= lo - e * std::max((LD)1, fabsl(lo)) && (std::isinf(hi) || g <= hi + e * std::max((LD)1, fabsl(hi))) ? "" : "result " + hexld(g) + " is outside the range of the function"; }; };
    LD PI = M_PIq; LD INFL = INFINITY;
    range("sin", [](char t, LD x, LD g) -> string { LD e = 4 * type_info(t).eps * std::max((LD)1, fabsl(x)); return fabsl(g) <= 1 + e ? "" : "|sin| > 1: " + hexld(g); });
    range("cos", [](char t, LD x, LD g) -> string { LD e = 4 * type_info(t).eps * std::max((LD)1, fabsl(x)); return fabsl(g) <= 1 + e ? "" : "|cos| > 1: " + hexld(g); });
    range("tanh", within(-1, 1, 2)); range("erf", within(-1, 1, 2)); range("atan", within(-PI / 2, PI / 2, 2)); range("asin", within(-PI / 2, PI / 2, 2)); range("acos", within(0, PI, 4));
    range("exp", within(0, INFL, 0)); range("cosh", within(1, INFL, 8)); range("sqrt", within(0, INFL, 0)); range("acosh", within(0, INFL, 4)); range("expm1", within(-1, INFL, 16));
    range("floor", [](char, LD x, LD g) -> string { return std::isinf(x) ? "" : g <= x && floorl(g) == g ? "" : "floor exceeds its argument or is not integral: " + hexld(g); });
    range("ceil", [](char, LD x, LD g) -> string { return std::isinf(x) ? "" : g >= x && floorl(g) == g ? "" : "ceil is below its argument or is not integral: " + hexld(g); });
    range("round", [](char, LD x, LD g) -> string { return std::isinf(x) ? "" : fabsl(g - x) <= 0.5L && floorl(g) == g ? "" : "round is further than 1/2 from its argument or is not integral: " + hexld(g); });
    range("trunc", [](char, LD x, LD g) -> string { return std::isinf(x) ? "" : fabsl(g) <= fabsl(x) && fabsl(x) - fabsl(g) < 1 && floorl(g) == g ? "" : "trunc is not the integral part: " + hexld(g); });
    for (const char* f : {"incomplete_gamma", "incomplete_beta"}) { string fs = f; int n = fs == "incomplete_gamma" ? 2 : 3; rel("C25", (new string("range." + fs))->c_str(), n, [fs, n](Rng& r, char t, Args& a) { value_spec(fs)->gen(r, string(n, t), a); }, [fs, n](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { Q u = unit_of(fs, t, a); if (u < 0) return "SKIP"; LD g = call(fs.c_str(), string(n, t), a); if (g != g) return "result is NaN"; if (g < 0) { ne = -(Q)g / u; } else if (g > 1) ne = ((Q)g - 1) / u; return ne <= 16 ? "" : "not in [0,1]: " + show(g); }); }
    // monotonicity
    LD I = INFINITY;
    for (auto f : {"floor", "ceil", "trunc", "round"}) mono(f, 1, -I, I, 0);
    mono("sqrt", 1, 0, I, 4); mono("inv_sqrt", -1, 0, I, 4); for (auto f : {"exp", "expm1", "log", "log2", "log10", "log1p", "atan", "asin", "sinh", "tanh", "asinh", "acosh", "atanh", "erf", "erf_inv"}) mono(f, 1, -I, I, 8);
    mono("acos", -1, -1, 1, 8); mono("cosh", 1, 0, I, 8); mono("lgamma", 1, 2, I, 4); mono("tgamma", 1, 2, I, 4);
    rel("C25", "mono.incomplete_gamma", 3, [](Rng& r, char t, Args& a) { Args b; value_spec("incomplete_gamma")->gen(r, string(2, t), b); a.v[0] = b.v[0]; a.v[1] = b.v[1]; a.v[2] = r.below(4) ? neighbour(r, t, b.v[1]) : b.v[1] + sqrtl(fabsl(b.v[0])) * r.unit(); if (a.v[1] > a.v[2]) std::swap(a.v[1], a.v[2]); }, [](char t, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { if (!(a.v[1] < a.v[2])) return "SKIP"; Q u1 = unit_of("incomplete_gamma", t, mk(a.v[0], a.v[1])), u2 = unit_of("incomplete_gamma", t, mk(a.v[0], a.v[2])); if (u1 < 0 || u2 < 0) return "SKIP"; LD g = C2(call, "incomplete_gamma", t, a.v[0], a.v[1]), h = C2(call, "incomplete_gamma", t, a.v[0], a.v[2]); nt = g != h; if (g <= h) return ""; return near(h, g, u1 + u2, 8, ne); });
    rel("C25", "mono.incomplete_beta", 4, [](Rng& r, char t, Args& a) { Args b; value_spec("incomplete_beta")->gen(r, string(3, t), b); for (int k = 0; k < 3; k++) a.v[k] = b.v[k]; a.v[3] = r.below(4) ? neighbour(r, t, b.v[2]) : r.unit(); if (a.v[2] > a.v[3]) std::swap(a.v[2], a.v[3]); }, [](char t, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { if (!(a.v[2] < a.v[3])) return "SKIP"; Q u1 = unit_of("incomplete_beta", t, mk(a.v[0], a.v[1], a.v[2])), u2 = unit_of("incomplete_beta", t, mk(a.v[0], a.v[1], a.v[3])); if (u1 < 0 || u2 < 0) return "SKIP"; LD g = C3(call, "incomplete_beta", t, a.v[0], a.v[1], a.v[2]), h = C3(call, "incomplete_beta", t, a.v[0], a.v[1], a.v[3]); nt = g != h; if (g <= h) return ""; return near(h, g, u1 + u2, 8, ne); });

    // ---- C27 inverse pairs:  outer(inner(x)) == x, error = outer's own units plus inner's error times the slope
    auto inv = [](const char* inner, const char* outer, LD lo, LD hi, std::function<Q(Q, Q)> slope, Q K) { string i = inner, o = outer; rel("C27", (new string(o + "(" + i + "(x))"))->c_str(), 1, [i, lo, hi](Rng& r, char t, Args& a) { a.v[0] = r.below(4) ? from_spec(r, i, t) : gen_real(r, t, std::max(lo, -type_info(t).maxv), std::min(hi, type_info(t).maxv)); },
        [=](char t, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { LD x = a.v[0]; if (x < lo || x > hi || fabsl(x) > type_info(t).maxv / 16) return "SKIP"; Q ui = unit_of(i, t, a); if (ui < 0) return "SKIP"; LD y = C1(call, i.c_str(), t, x); if (!fin(y) || subn(t, y)) return y != y ? "inner result is NaN" : "SKIP"; Q uo = unit_of(o, t, mk(y)); if (uo < 0) return "SKIP"; LD z = C1(call, o.c_str(), t, y); Q u = uo + (ui + epsq(t) * qabs((Q)y)) * slope(x, y); if (u > 0.05Q * qmax(1, qabs((Q)x))) return "SKIP"; nt = x != 0; return near(z, x, u, K, ne); }); };
    inv("sin", "asin", -1.5L, 1.5L, [](Q x, Q) { return 1 / cosq(x); }, 8); inv("asin", "sin", -0.9999L, 0.9999L, [](Q, Q y) { return cosq(y); }, 16); inv("cos", "acos", 0.1L, 3.1L, [](Q x, Q) { return 1 / qabs(sinq(x)); }, 32); inv("acos", "cos", -0.9999L, 0.9999L, [](Q, Q y) { return qabs(sinq(y)); }, 128);
    inv("tan", "atan", -1.57L, 1.57L, [](Q, Q y) { return 1 / (1 + y * y); }, 64); inv("atan", "tan", -1000, 1000, [](Q x, Q) { return 1 + x * x; }, 64);
    inv("exp", "log", -11000, 11000, [](Q, Q y) { return 1 / y; }, 16); inv("log", "exp", 0, INFL, [](Q x, Q) { return x; }, 32); inv("expm1", "log1p", -30, 11000, [](Q, Q y) { return 1 / (1 + y); }, 16); inv("log1p", "expm1", -0.9999L, INFL, [](Q x, Q) { return 1 + x; }, 32);
    inv("sinh", "asinh", -11000, 11000, [](Q, Q y) { return 1 / hypotq(1, y); }, 16); inv("asinh", "sinh", -INFL, INFL, [](Q x, Q) { return hypotq(1, x); }, 32); inv("cosh", "acosh", 0.5L, 11000, [](Q x, Q) { return 1 / sinhq(x); }, 16); inv("acosh", "cosh", 1.1L, INFL, [](Q, Q y) { return sinhq(y); }, 32); inv("tanh", "atanh", -4, 4, [](Q, Q y) { return 1 / (1 - y * y); }, 8); inv("atanh", "tanh", -0.999L, 0.999L, [](Q x, Q) { return 1 - x * x; }, 8);
    inv("erf", "erf_inv", -2, 2, [](Q x, Q) { return sqrtq(PIq) / 2 * expq(x * x); }, 8); inv("erf_inv", "erf", -0.999L, 0.999L, [](Q, Q y) { return 2 / sqrtq(PIq) * expq(-y * y); }, 8);
    rel("C27", "sqrt(x)^2=x", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "sqrt", t); }, [](char t, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { Q x = a.v[0]; if (x <= 0 || x > (Q)type_info(t).maxv / 16) return "SKIP"; Q y = C1(call, "sqrt", t, a.v[0]); nt = x != 1; return near(y * y, x, epsq(t) * x, t == 'e' ? 128 : 32, ne); });
    rel("C27", "inv_sqrt(x)^2=1/x", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "inv_sqrt", t); }, [](char t, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { Q x = a.v[0]; if (x <= 0 || qabs(x) > (Q)type_info(t).maxv / 16) return "SKIP"; Q y = C1(call, "inv_sqrt", t, a.v[0]); nt = x != 1; return near(y * y * x, 1, epsq(t), 16, ne); });
    rel("C27", "incomplete_gamma(a,incomplete_gamma_inv(a,p))", 2, [](Rng& r, char t, Args& a) { value_spec("incomplete_gamma_inv")->gen(r, string(2, t), a); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD p = a.v[1]; if (a.v[0] < 0.1L || a.v[0] > 1e8L || p < 1e-6L || p > 1 - 1e-6L || 512 * lg_eps(t, a.v[0]) > 1 - p) return "SKIP"; LD x = C2(call, "incomplete_gamma_inv", t, a.v[0], p); if (!(x >= 0) || std::isinf(x)) return "inverse is " + show(x); if (x == 0) return "SKIP"; LD q = C2(call, "incomplete_gamma", t, a.v[0], x); Q u = unit_of("incomplete_gamma", t, mk(a.v[0], x)); if (u < 0) return "SKIP"; Q sl = expq(((Q)a.v[0] - 1) * logq(x) - (Q)x - lgammaq(a.v[0])); return near(q, p, u + epsq(t) * (qabs((Q)p) + sl * (Q)x), 16, ne); }, 0.5);
    rel("C27", "incomplete_beta(a,b,incomplete_beta_inv(a,b,p))", 3, [](Rng& r, char t, Args& a) { value_spec("incomplete_beta_inv")->gen(r, string(3, t), a); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD p = a.v[2]; if (a.v[0] < 0.25L || a.v[0] > 1e4L || a.v[1] < 0.25L || a.v[1] > 1e4L || p < 0.001L || p > 0.999L) return "SKIP"; LD x = C3(call, "incomplete_beta_inv", t, a.v[0], a.v[1], p); if (!(x >= 0) || x > 1) return "inverse is " + show(x); if (x == 0 || x == 1) return "SKIP"; LD q = C3(call, "incomplete_beta", t, a.v[0], a.v[1], x); Q u = unit_of("incomplete_beta", t, mk(a.v[0], a.v[1], x)); if (u < 0) return "SKIP"; Q A = a.v[0], B = a.v[1]; Q sl = expq((A - 1) * logq(x) + (B - 1) * logq(1 - (Q)x) + lgammaq(A + B) - lgammaq(A) - lgammaq(B)); return near(q, p, u + epsq(t) * (qabs((Q)p) + sl), 16, ne); }, 0.5);

    // ---- C28 functional identities
    auto two = [](LD lo, LD hi) { return [=](Rng& r, char t, Args& a) { a.v[0] = gen_real(r, t, lo, hi); a.v[1] = gen_real(r, t, lo, hi); }; };
    rel("C28", "sin^2+cos^2=1", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "sin", t); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = a.v[0]; if (fabsl(x) > 1e6L) return "SKIP"; Q s = C1(call, "sin", t, x), c = C1(call, "cos", t, x); return near(s * s + c * c, 1, epsq(t) * qmax(1, qabs((Q)x)), 8, ne); });
    rel("C28", "tan*cos=sin", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "tan", t); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = a.v[0]; if (fabsl(x) > 1e6L) return "SKIP"; Q u = unit_of("tan", t, a); if (u < 0) return "SKIP"; Q s = C1(call, "sin", t, x), c = C1(call, "cos", t, x), n = C1(call, "tan", t, x); Q ux = epsq(t) * qmax(1, qabs((Q)x)); return near(n * c, s, u * qabs(c) + qabs(n) * ux + ux, 8, ne); });
    rel("C28", "double angle", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "sin", t); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = a.v[0]; if (fabsl(x) > 5e5L) return "SKIP"; Q s = C1(call, "sin", t, x), c = C1(call, "cos", t, x), s2 = C1(call, "sin", t, 2 * x); Q u = epsq(t) * qmax(fabsl(x) < 0.3L ? qabs((Q)x) : (Q)1, fabsl(x) < 0.3L ? 0 : qabs((Q)x)); return near(s2, 2 * s * c, u + 8 * (Q)type_info(t).minn, 16, ne); });
    rel("C28", "exp(x+y)=exp(x)exp(y)", 2, [](Rng& r, char t, Args& a) { LD L = logl(type_info(t).maxv) * 0.49L; a.v[0] = gen_real(r, t, -L, L); a.v[1] = gen_real(r, t, -L, L); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD L = logl(type_info(t).maxv) * 0.49L; if (fabsl(a.v[0]) > L || fabsl(a.v[1]) > L) return "SKIP"; LD z = to_type(t, a.v[0] + a.v[1]); Q w = (Q)C1(call, "exp", t, a.v[0]) * (Q)C1(call, "exp", t, a.v[1]) * expq((Q)z - (Q)a.v[0] - (Q)a.v[1]); return near(C1(call, "exp", t, z), w, epsq(t) * w * (1 + (t == 'e' ? fabsl(a.v[0]) + fabsl(a.v[1]) : 0)) + 8 * (Q)type_info(t).minn, 48, ne); });
    rel("C28", "log(xy)=log(x)+log(y)", 2, [](Rng& r, char t, Args& a) { int M = type_info(t).maxexp / 2 - 2; a.v[0] = fabsl(gen_mag(r, t, -M, M)); a.v[1] = fabsl(gen_mag(r, t, -M, M)); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { if (a.v[0] <= 0 || a.v[1] <= 0) return "SKIP"; LD z = to_type(t, a.v[0] * a.v[1]); if (!fin(z) || z < type_info(t).minn * 4) return "SKIP"; Q lx = C1(call, "log", t, a.v[0]), ly = C1(call, "log", t, a.v[1]), lz = C1(call, "log", t, z); return near(lz, lx + ly, epsq(t) * (1 + qabs(lx) + qabs(ly) + qabs(lz)), 16, ne); });
    rel("C28", "log bases", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "log", t); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { if (a.v[0] <= 0) return "SKIP"; Q l = C1(call, "log", t, a.v[0]), l2 = C1(call, "log2", t, a.v[0]), l10 = C1(call, "log10", t, a.v[0]); Q e2 = 0; string m = near(l2 * M_LN2q, l, epsq(t) * qabs(l), 16, ne); if (!m.empty()) return "log2*ln2 " + m; m = near(l10 * M_LN10q, l, epsq(t) * qabs(l), 16, e2); return m.empty() ? "" : "log10*ln10 " + m; });
    rel("C28", "cosh+sinh=exp", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "cosh", t); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD L = logl(type_info(t).maxv) - 1; if (fabsl(a.v[0]) > L) return "SKIP"; Q c = C1(call, "cosh", t, a.v[0]), s = C1(call, "sinh", t, a.v[0]), e = C1(call, "exp", t, a.v[0]); return near(c + s, e, epsq(t) * c * (1 + (t == 'e' ? fabsl(a.v[0]) : 0)), 40, ne); });
    rel("C28", "tanh=sinh/cosh", 1, [](Rng& r, char t, Args& a) { a.v[0] = from_spec(r, "tanh", t); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD L = logl(type_info(t).maxv) - 1; if (fabsl(a.v[0]) > L) return "SKIP"; Q c = C1(call, "cosh", t, a.v[0]), s = C1(call, "sinh", t, a.v[0]), h = C1(call, "tanh", t, a.v[0]); return near(h * c, s, epsq(t) * c * (1 + (t == 'e' ? fabsl(a.v[0]) : 0)), 40, ne); });
    rel("C28", "pow(x,a+b)", 3, [](Rng& r, char t, Args& a) { a.v[0] = gen_real(r, t, 0.01L, 100); LD L = logl(type_info(t).maxv) / (1 + fabsl(logl(fabsl(a.v[0]) + 1e-3L))) * 0.45L; if (L > 50) L = 50; a.v[1] = floorl(gen_real(r, t, -L, L) * 16) / 16; a.v[2] = floorl(gen_real(r, t, -L, L) * 16) / 16; }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { if (a.v[0] <= 0) return "SKIP"; LD z = to_type(t, a.v[1] + a.v[2]); if (z != a.v[1] + a.v[2]) return "SKIP"; Q x = C2(call, "pow", t, a.v[0], a.v[1]), y = C2(call, "pow", t, a.v[0], a.v[2]), w = C2(call, "pow", t, a.v[0], z); Q l = qabs(logq(a.v[0])) * (qabs((Q)a.v[1]) + qabs((Q)a.v[2])); if (qinf(x) || qinf(y) || qinf(w) || x * y > (Q)type_info(t).maxv / 16 || qmin(qmin(x, y), x * y) < 64 * (Q)type_info(t).minn) return "SKIP"; return near(w, x * y, epsq(t) * (1 + l) * x * y, 32, ne); });
    rel("C28", "pow(x,n)=exp(n log x)", 2, [](Rng& r, char t, Args& a) { a.v[0] = fabsl(gen_real(r, t, 0.01L, 100)); a.v[1] = r.range(-60, 60); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { if (a.v[0] <= 0 || a.v[1] != floorl(a.v[1]) || fabsl(a.v[1]) > 60) return "SKIP"; Q r = C2(call, "pow", t, a.v[0], a.v[1]); Q w = call("pow", string(1, t) + "i", a); Q l = qabs(logq(a.v[0]) * (Q)a.v[1]); if (qinf(r) || qinf(w) || w < 64 * (Q)type_info(t).minn || r < 64 * (Q)type_info(t).minn) return "SKIP"; return near(r, w, epsq(t) * (1 + l + qabs((Q)a.v[1])) * w, 16, ne); });
    rel("C28", "tgamma(x+1)=x tgamma(x)", 1, [](Rng& r, char t, Args& a) { a.v[0] = floorl(gen_real(r, t, 0, t == 'f' ? 33 : 168) * 1024) / 1024; }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = a.v[0]; if (x <= 0 || to_type(t, x + 1) - 1 != x) return "SKIP"; Q u1 = unit_of("tgamma", t, mk(x)), u2 = unit_of("tgamma", t, mk(x + 1)); if (u1 < 0 || u2 < 0) return "SKIP"; return near(C1(call, "tgamma", t, x + 1), (Q)x * (Q)C1(call, "tgamma", t, x), (Q)x * u1 + u2, 8, ne); });
    rel("C28", "exp(lgamma)=tgamma", 1, [](Rng& r, char t, Args& a) { a.v[0] = gen_real(r, t, 0.01L, t == 'f' ? 33 : 168); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = a.v[0]; if (x <= 0) return "SKIP"; Q u1 = unit_of("lgamma", t, mk(x)), u2 = unit_of("tgamma", t, mk(x)); if (u1 < 0 || u2 < 0) return "SKIP"; Q w = expq(C1(call, "lgamma", t, x)); return near(C1(call, "tgamma", t, x), w, u2 + w * u1, 8, ne); });
    rel("C28", "factorial=tgamma(n+1)", 1, [](Rng& r, char t, Args& a) { a.v[0] = r.range(0, t == 'f' ? 33 : 169); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = a.v[0]; if (x < 0 || x != floorl(x) || x > (t == 'f' ? 33 : 169)) return "SKIP"; Q u1 = unit_of("factorial.real", t, mk(x)), u2 = unit_of("tgamma", t, mk(x + 1)); if (u1 < 0 || u2 < 0) return "SKIP"; return near(C1(call, "factorial", t, x), C1(call, "tgamma", t, x + 1), u1 + u2, 8, ne); }, 0.2);
    rel("C28", "beta=tgamma*tgamma/tgamma", 2, two(0.05L, 80), [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD s = to_type(t, a.v[0] + a.v[1]); if (s != a.v[0] + a.v[1] || a.v[0] <= 0 || a.v[1] <= 0) return "SKIP"; Q ub = unit_of("beta", t, a), ul = unit_of("lbeta", t, a), u0 = unit_of("lgamma", t, mk(a.v[0])), u1 = unit_of("lgamma", t, mk(a.v[1])), u2 = unit_of("lgamma", t, mk(s)); if (ub < 0 || ul < 0 || u0 < 0 || u1 < 0 || u2 < 0) return "SKIP"; Q lb = C2(call, "lbeta", t, a.v[0], a.v[1]); string m = near(lb, (Q)C1(call, "lgamma", t, a.v[0]) + (Q)C1(call, "lgamma", t, a.v[1]) - (Q)C1(call, "lgamma", t, s), ul + u0 + u1 + u2, 8, ne); if (!m.empty()) return "lbeta " + m; Q e2 = 0; Q w = expq(lb); m = near(C2(call, "beta", t, a.v[0], a.v[1]), w, ub + w * ul, 8, e2); return m.empty() ? "" : "beta " + m; });
    rel("C28", "lmgamma recurrence", 2, [](Rng& r, char t, Args& a) { a.v[1] = r.range(2, 12); a.v[0] = a.v[1] / 2 + floorl(gen_real(r, t, 0.1L, 50) * 64) / 64; }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { int p = (int)a.v[1]; LD x = a.v[0]; if (p < 2 || p > 40 || p != a.v[1] || x - (LD)(p - 1) / 2 < 0.05L || x > 1e4L) return "SKIP"; LD y = to_type(t, x - 0.5L); if (y != x - 0.5L) return "SKIP"; string c = string(1, t) + "i"; Expect e1 = ora("lmgamma", c, mk(x, p)), e2 = ora("lmgamma", c, mk(y, p - 1)), e3 = ora("lgamma", string(1, t), mk(x)); if (e1.kind != VAL || e2.kind != VAL || e3.kind != VAL) return "SKIP"; Q w = (Q)(p - 1) / 2 * logq(PIq) + (Q)C1(call, "lgamma", t, x) + (Q)call("lmgamma", c, mk(y, p - 1)); return near(call("lmgamma", c, a), w, e1.unit + e2.unit + e3.unit + e3.sub, 8, ne); }, 0.3);
    rel("C28", "log_binomial_coef Pascal", 2, [](Rng& r, char, Args& a) { a.v[0] = r.range(2, r.coin() ? 40 : 300); a.v[1] = r.range(1, (int)a.v[0] - 1); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD n = a.v[0], k = a.v[1]; if (n != floorl(n) || k != floorl(k) || k < 1 || k >= n || n > 300) return "SKIP"; Q u = unit_of("log_binomial_coef", t, a); if (u < 0 || u > 0.01Q) return "SKIP"; Q w = logq(expq(C2(call, "log_binomial_coef", t, n - 1, k)) + expq(C2(call, "log_binomial_coef", t, n - 1, k - 1))); return near(C2(call, "log_binomial_coef", t, n, k), w, 2 * u, 8, ne); }, 0.3);
    rel("C28", "incomplete_gamma recurrence", 2, [](Rng& r, char t, Args& a) { value_spec("incomplete_gamma")->gen(r, string(2, t), a); a.v[0] = floorl(a.v[0] * 256) / 256; }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD A = a.v[0], z = a.v[1]; if (A < 0.05L || z <= 0 || to_type(t, A + 1) - 1 != A) return "SKIP"; Q u1 = unit_of("incomplete_gamma", t, a), u2 = unit_of("incomplete_gamma", t, mk(A + 1, z)); if (u1 < 0 || u2 < 0) return "SKIP"; Q term = expq((Q)A * logq(z) - (Q)z - lgammaq((Q)A + 1)); return near(C2(call, "incomplete_gamma", t, A + 1, z), (Q)C2(call, "incomplete_gamma", t, A, z) - term, u1 + u2, 16, ne); });
    rel("C28", "erf=incomplete_gamma(1/2,x^2)", 1, [](Rng& r, char t, Args& a) { a.v[0] = floorl(gen_real(r, t, 0, 4) * 1024) / 1024; }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = fabsl(a.v[0]); LD q = to_type(t, x * x); if (q != x * x || x == 0 || x > 10) return "SKIP"; Q u1 = unit_of("erf", t, mk(x)), u2 = unit_of("incomplete_gamma", t, mk(0.5L, q)); if (u1 < 0 || u2 < 0) return "SKIP"; return near(C1(call, "erf", t, x), C2(call, "incomplete_gamma", t, 0.5L, q), u1 + u2, 16, ne); }, 0.5);
    rel("C28", "trunc+fmod", 2, [](Rng& r, char t, Args& a) { value_spec("fmod")->gen(r, string(2, t), a); }, [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD x = a.v[0]; if (fabsl(x) > ldexpl(1, type_info(t).digits - 2)) return "SKIP"; LD f = C2(call, "fmod", t, x, 1), n = C1(call, "trunc", t, x); return near((Q)n + (Q)f, x, 0, 0, ne); });
    rel("C28", "hypot via sqrt", 2, two(-1e4L, 1e4L), [](char t, const Args& a, const CallFn& call, bool&, Q& ne) -> string { LD s = to_type(t, a.v[0] * a.v[0] + a.v[1] * a.v[1]); if (s < type_info(t).minn * 1e6L || !fin(s)) return "SKIP"; Q w = C1(call, "sqrt", t, s); return near(C2(call, "hypot", t, a.v[0], a.v[1]), w, epsq(t) * w, t == 'e' ? 64 : 16, ne); });
    { Spec s; s.prop = "C28"; s.fn = "gcd"; s.label = "gcd*lcm=|ab|"; s.needs = [](const string& c) { return VS{"gcd " + c, "lcm " + c}; }; s.sigs = VS{"ii", "ll", "jj", "yy", "xx", "il"}; s.share = 1; s.no_sweep = true;
      s.gen = [](Rng& r, const string& c, Args& a) { value_spec("lcm")->gen(r, c, a); };
      s.relation = [](const string& c, const Args& a, const CallFn& call, bool& nt, Q& ne) -> string { Expect e = ora("lcm", c, a), e2 = ora("gcd", c, a); if (e.kind != VAL || e2.kind != VAL) return "SKIP"; LD g = call("gcd", c, a), l = call("lcm", c, a); nt = g > 1; return near((Q)g * (Q)l, qabs((Q)a.v[0] * (Q)a.v[1]), 0, 0, ne); }; add(s); }
    { Spec s; s.prop = "C28"; s.fn = "binomial_coef"; s.label = "binomial Pascal"; s.sigs = VS{"ii", "ll", "jj", "yy", "dd", "ee"}; s.share = 0.1; s.no_sweep = true;
      s.gen = [](Rng& r, const string&, Args& a) { a = mk(r.range(1, 18), 0); a.v[1] = r.range(1, (int)a.v[0]); };
      s.relation = [](const string& c, const Args& a, const CallFn& call, bool&, Q& ne) -> string { if (a.v[0] < 1 || a.v[0] > 20 || a.v[1] < 1 || a.v[1] > a.v[0] || a.v[0] != floorl(a.v[0]) || a.v[1] != floorl(a.v[1])) return "SKIP"; return near(call("binomial_coef", c, a), (Q)call("binomial_coef", c, mk(a.v[0] - 1, a.v[1])) + (Q)call("binomial_coef", c, mk(a.v[0] - 1, a.v[1] - 1)), 0, 0, ne); }; add(s); }
    return 0;
}
static int r_ = reg();
