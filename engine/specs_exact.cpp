// Exactly specified functions: rounding, fmod, gcd/lcm, factorial/binomial, comparisons and signs.
#include "spec_util.hpp"
typedef __int128 I;
static const char* ALLT = "fdeacehstijlmxy";
static bool isint(LD v) { return v == v && !std::isinf(v) && floorl(v) == v; }
// C++ conversion of a value held by type `from` to type `to`
LD cxx_conv(char to, LD v) {
    if (to == 'f') return (float)v;
    if (to == 'd') return (double)v;
    if (to == 'e') return v;
    if (to == 'b') return v != 0;
    I x = (I)v; int bits = type_info(to).ilo < 0 ? type_info(to).digits + 1 : type_info(to).digits;
    I m = (I)1 << bits; x %= m; if (x < 0) x += m; if (type_info(to).ilo < 0 && x >= m / 2) x -= m;
    return (LD)x;
}
static LD near_int(Rng& r, char id) {
    const TypeInfo& t = type_info(id); int d = t.digits;
    LD k = ldexpl(1 + r.unit(), (int)r.range(-3, d + 4)); if (r.coin()) k = floorl(k); else if (r.coin()) k = floorl(k) + 0.5L; else if (r.below(3) == 0) k = floorl(k) + 0.25L;
    if (r.coin()) k = -k;
    return next_in(id, to_type(id, k), (int)r.range(-2, 2));
}
static LD ground(Rng& r, char id) {
    const TypeInfo& t = type_info(id);
    switch (r.below(8)) {
        case 0: return gen_any(r, id);
        case 1: { LD p = ldexpl(1, (int)r.range(0, 70)); if (r.coin()) p -= (LD)r.below(3) / 2; LD v = next_in(id, to_type(id, p), (int)r.range(-3, 3)); return r.coin() ? v : -v; }
        case 2: { LD v = t.denorm * (LD)(1 + r.below(1000)); if (r.coin()) v = t.minn * r.unit(); return to_type(id, r.coin() ? v : -v); }
        case 3: { LD v = next_in(id, (LD)r.range(-40, 40) / 2, (int)r.range(-2, 2)); return v; }
        case 4: return gen_real(r, id, -1000, 1000);
        case 5: { LD lim[] = {8388608.L, 16777216.L, 2147483648.L, 4294967296.L, 4503599627370496.L, 9007199254740992.L, 9223372036854775808.L, 18446744073709551616.L}; LD v = lim[r.below(8)] * (r.coin() ? 1 : 1 + (r.unit() - 0.5L) * 2e-3L); return (r.coin() ? 1 : -1) * next_in(id, to_type(id, v), (int)r.range(-6, 6)); }
        default: return near_int(r, id);
    }
}
static Spec rnd(const char* fn, Q (*f)(Q)) {
    Spec s = unary("C01", fn, 1, ground, [f](char, Q x) { if (qinf(x)) return x > 0 ? pinf() : ninf(); Q v = f(x); Expect e = exactly(v); if (x == 0) e.sign = signbitq(x) ? 2 : 1; e.nontrivial = v != x; return e; });
    return s;
}
static VS pairs(const std::string& A, const std::string& B) { VS v; for (char a : A) for (char b : B) v.push_back(std::string() + a + b); return v; }

// integers with planted common factors, within the argument types
static void gen_gcd(Rng& r, const std::string& c, Args& a) {
    a.n = 2; LD lim[2]; for (int k = 0; k < 2; k++) { const TypeInfo& t = type_info(c[k]); lim[k] = t.is_float ? ldexpl(1, std::min(t.digits, 62)) : t.ihi; }
    for (int tries = 0; tries < 20; tries++) {
        switch (r.below(6)) {
            case 0: a.v[0] = gen_int(r, c[0], -lim[0], lim[0]); a.v[1] = gen_int(r, c[1], -lim[1], lim[1]); break;
            case 1: a.v[0] = r.range(-12, 40); a.v[1] = r.range(-12, 40); break;
            case 2: { LD m = std::min(lim[0], lim[1]); LD g = floorl(exp2l(log2l(m) * r.unit())); a.v[0] = g * floorl(m / g * r.unit()); a.v[1] = g * floorl(m / g * r.unit()); break; }
            case 3: { LD g = 1, h = 1; int e = (int)r.range(1, 20); for (int i = 0; i < e; i++) { LD p = (LD[]){2, 3, 5, 7, 11, 13}[r.below(6)]; if (r.below(3)) g *= p; if (r.below(3)) h *= p; } a.v[0] = g; a.v[1] = h; break; }
            case 4: { LD x = 1, y = 1, m = std::min(lim[0], lim[1]); while (x + y <= m) { LD z = x + y; x = y; y = z; if (r.below(20) == 0) break; } a.v[0] = x; a.v[1] = y; break; }  // Fibonacci: worst case for Euclid
            default: a.v[0] = gen_int(r, c[0], -lim[0], lim[0]); a.v[1] = r.coin() ? 0 : a.v[0]; break;
        }
        if (r.below(4) == 0) a.v[r.below(2)] *= -1;
        bool ok = true; for (int k = 0; k < 2; k++) { const TypeInfo& t = type_info(c[k]); if (!t.is_float && t.ilo == 0 && a.v[k] < 0) a.v[k] = -a.v[k]; if (fabsl(a.v[k]) > lim[k]) ok = false; }
        if (ok) break;
    }
    for (int k = 0; k < 2; k++) a.v[k] = to_type(c[k], a.v[k] + 0.0L);
}
static I iabs(I x) { return x < 0 ? -x : x; }
static I igcd(I a, I b) { while (b) { I t = a % b; a = b; b = t; } return a; }
static bool int_domain(const std::string& c, const Args& a) { for (int k = 0; k < 2; k++) { const TypeInfo& t = type_info(c[k]); if (!isint(a.v[k])) return false; if (t.is_float ? fabsl(a.v[k]) > ldexpl(1, std::min(t.digits, 62)) : (t.ilo < 0 && a.v[k] == t.ilo)) return false; } return true; }

static int reg() {
    add(rnd("floor", floorq)); add(rnd("ceil", ceilq)); add(rnd("trunc", truncq)); add(rnd("round", roundq));

    // ---- C02 fmod
    { Spec s; s.prop = "C02"; s.fn = s.label = "fmod"; s.share = 2; s.sigs = VS{"ff", "dd", "ee", "fd", "df", "de", "ef", "di", "id", "ii", "li", "fi", "if", "ej", "sd"}; s.weight = {4, 6, 4, .5, .5, .5, .5, .5, .5, 1, .5, .5, .5, .5, .5};
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 2; char id = rtype(c); int d = type_info(id).digits;
        switch (r.below(6)) {
            case 0: { LD m = ldexpl(1, (int)r.range(1, d - 1)); a.v[0] = floorl(m * r.unit()); a.v[1] = 1 + floorl(ldexpl(1, (int)r.range(0, d - 1)) * r.unit()); break; }
            case 1: { LD y = gen_real(r, 'd', 1e-3L, 1e3L); a.v[1] = y; a.v[0] = to_type(id, y) * (LD)r.range(0, 1000); if (r.coin()) a.v[0] = next_in(id, to_type(id, a.v[0]), (int)r.range(-2, 2)); break; }  // near multiples
            case 2: { a.v[1] = gen_mag(r, id, -60, 60); a.v[0] = a.v[1] * ldexpl(r.unit() * 2, (int)r.range(-10, d - 8)); break; }
            case 3: a.v[0] = gen_real(r, id, -1e4L, 1e4L); a.v[1] = gen_real(r, id, -100, 100); break;
            case 4: a.v[0] = r.range(-200, 200) / (LD)(1 << r.below(6)); a.v[1] = r.range(-30, 30) / (LD)(1 << r.below(6)); break;
            default: a.v[0] = gen_mag(r, id, -60, 60); a.v[1] = gen_mag(r, id, -60, 60); break; }
        if (r.coin()) a.v[0] = -a.v[0]; if (r.below(3) == 0) a.v[1] = -a.v[1];
        for (int k = 0; k < 2; k++) { if (r.below(100) == 0) a.v[k] = special_value(r, c[k]); a.v[k] = to_type(c[k], a.v[k]) + 0.0L; } };
      s.relation = [](const std::string& c, const Args& a, const CallFn& call, bool& nt, Q& ne) -> std::string {
        char id = rtype(c); Q x = to_type(id, a.v[0]), y = to_type(id, a.v[1]); int d = type_info(id).digits; nt = true;
        bool nanexp = qnan(x) || qnan(y) || qinf(x) || (y == 0 && !qnan(x));
        if (!nanexp && qinf(y)) return "SKIP";
        if (!nanexp && (subn(id, x) || subn(id, y))) return "SKIP";
        if (!nanexp && (qabs(x / y) > ldexpq(1, d - 2) || (x != 0 && qabs(x / y) < (Q)type_info(id).minn * 4))) return "SKIP";
        if (!nanexp && x != 0 && qabs(x) < (Q)type_info(id).minn * ldexpq(1, d + 4)) return "SKIP";  // rounding into subnormals
        LD g = call("fmod", c, a);
        if (nanexp) return g != g ? "" : "expected NaN, got " + hexld(g);
        if (!(g == g) || std::isinf(g)) return "expected a finite remainder, got " + hexld(g);
        Q ref = fmodq(x, y), got = g, ay = qabs(y); nt = qabs(x) >= ay;
        // exact whenever x and y are integers below 2^(digits-1) (or such integers times a common power of two)
        Q u = epsq(id) * qmax(qabs(x), 0); Q diff = qabs(got - ref);
        int ex; frexpq(x == 0 ? y : x, &ex); Q sc = 1; if (floorq(x) != x || floorq(y) != y) sc = ldexpq(1, d - 2 - ex); 
        Q xs = x * sc, ys = y * sc; bool exact = floorq(xs) == xs && floorq(ys) == ys && qabs(xs) < ldexpq(1, d - 1) && qabs(ys) < ldexpq(1, d - 1);
        if (exact) return got == ref ? "" : "exact remainder is " + qstr(ref) + ", got " + hexld(g);
        diff = qmin(diff, qmin(qabs(got - ref - ay), qabs(got - ref + ay)));  // congruent modulo y
        if (u > 0) ne = diff / u;
        if (diff > 4 * u) return "not congruent to x modulo y: expected " + qstr(ref) + ", got " + hexld(g);
        if (qabs(got) > ay + 4 * u) return "magnitude exceeds |y|: " + hexld(g);
        if ((x > 0 && got < -4 * u) || (x < 0 && got > 4 * u)) return "sign differs from x: " + hexld(g);
        return ""; };
      add(s); }

    // ---- C03 gcd, lcm
    { Spec s; s.prop = "C03"; s.fn = s.label = "gcd"; s.share = 1; s.sigs = pairs("fdeahstijlmxy", "fdeahstijlmxy");
      s.gen = gen_gcd;
      s.oracle = [](const std::string& c, const Args& a) { if (!int_domain(c, a)) return skip(); I g = igcd(iabs((I)a.v[0]), iabs((I)a.v[1])); char cc = common_of(c); if ((LD)g != to_type(cc, (LD)g)) return skip();
          if (is_float_id(cc)) for (int k = 0; k < 2; k++) if (to_type(cc, a.v[k]) != a.v[k]) return skip();
          Expect e = exactly((Q)(LD)g); e.nontrivial = g > 1; return e; };
      add(s);
      s.fn = s.label = "lcm";
      s.gen = [](Rng& r, const std::string& c, Args& a) { gen_gcd(r, c, a); LD lim = sqrtl(is_float_id(common_of(c)) ? ldexpl(1, std::min(62, type_info(common_of(c)).digits)) : type_info(common_of(c)).ihi); if (r.below(4)) for (int k = 0; k < 2; k++) while (fabsl(a.v[k]) > lim * 8) a.v[k] = truncl(a.v[k] / (LD)r.range(2, 7)); };
      s.oracle = [](const std::string& c, const Args& a) { if (!int_domain(c, a)) return skip(); I x = iabs((I)a.v[0]), y = iabs((I)a.v[1]); char cc = common_of(c);
          if (is_float_id(cc)) for (int k = 0; k < 2; k++) if (to_type(cc, a.v[k]) != a.v[k]) return skip();
          LD lim = is_float_id(cc) ? ldexpl(1, std::min(62, type_info(cc).digits)) : type_info(cc).ihi; if (x != 0 && y != 0 && (Q)(x / igcd(x, y)) * (Q)y > (Q)lim) return skip(); I v = (x == 0 || y == 0) ? 0 : x / igcd(x, y) * y;
          Expect e = exactly((Q)v); e.nontrivial = v > 1; return e; };
      add(s); }

    // ---- C04 factorial, binomial (integral types exact; enumerated)
    { Spec s; s.prop = "C04"; s.fn = s.label = "factorial"; s.share = 0.05; for (char t : std::string("ahstijlmxy")) s.sigs.push_back(std::string(1, t)); s.no_sweep = true;
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 1; int m = 0; Q f = 1; while (f * (m + 1) <= (Q)type_info(c[0]).ihi) { m++; f *= m; } a.v[0] = r.range(0, m); };
      s.oracle = [](const std::string& c, const Args& a) { Q f = 1; if (!isint(a.v[0]) || a.v[0] < 0 || a.v[0] > 40) return skip(); for (int i = 2; i <= (int)a.v[0]; i++) f *= i; if (f > (Q)type_info(c[0]).ihi) return skip(); return exactly(f); };
      add(s); }
    { Spec s; s.prop = "C04"; s.fn = s.label = "binomial_coef"; s.share = 0.15; s.sigs = pairs("fdeahstijlmxy", "fdeahstijlmxy");
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 2; (void)c; if (r.below(4) == 0) { a.v[1] = r.range(0, 3); a.v[0] = r.range(0, a.v[1] <= 2 ? 120 : 60); } else { a.v[0] = r.range(0, 20); a.v[1] = r.range(0, 21); } if (r.below(6) == 0) a.v[1] = a.v[0] - r.range(0, 2); if (r.below(64) == 0) { int kk = (int)r.range(1, 9); int top = kk == 1 ? 255 : kk == 2 ? 255 : kk == 3 ? 120 : kk == 4 ? 52 : kk == 5 ? 35 : kk == 6 ? 29 : kk == 7 ? 26 : kk == 8 ? 24 : 23; int n = (int)r.range(kk, top); a.v[0] = n; a.v[1] = r.coin() ? kk : n - kk; } if (a.v[1] < 0) a.v[1] = 0; for (int k = 0; k < 2; k++) if (!is_float_id(c[k]) && a.v[k] > type_info(c[k]).ihi) a.v[k] = r.range(0, 20); };
      s.oracle = [](const std::string& c, const Args& a) { if (!isint(a.v[0]) || !isint(a.v[1]) || a.v[0] < 0 || a.v[1] < 0) return skip(); LD n = a.v[0], k = a.v[1]; LD kk = std::min(k, n - k); if (n > 300 || (k > n && n > 20)) return skip();
          Q v = 1; if (k > n) v = 0; else for (int i = 1; i <= (int)kk; i++) { v = v * (Q)(n - kk + i) / i; if (v > 1.4e6Q) return skip(); } /* the call takes as many steps as the result */ char cc = common_of(c);
          if (!is_float_id(cc) && v > (Q)type_info(cc).ihi) return skip(); if (is_float_id(cc) && v > ldexpq(1, type_info(cc).digits)) return skip();
          Expect e = exactly(v); e.nontrivial = k > 0 && k < n; return e; };
      add(s); }

    // ---- C05 abs, min, max, sgn, signbit, copysign
    auto gany = [](Rng& r, char id) -> LD { if (!is_float_id(id)) { const TypeInfo& t = type_info(id); return gen_int(r, id, t.ilo, t.ihi); } if (r.below(16) == 0) return special_value(r, id); return r.below(3) == 0 ? ground(r, id) : gen_any(r, id); };
    std::string nb = "fdeahstijlmxy";
    for (int w = 0; w < 2; w++) { Spec s; s.prop = "C05"; s.fn = s.label = w ? "sgn" : "abs"; s.share = 0.5; for (char t : nb) s.sigs.push_back(std::string(1, t));
      s.gen = [gany](Rng& r, const std::string& c, Args& a) { a.n = 1; a.v[0] = gany(r, c[0]); };
      s.oracle = [w](const std::string& c, const Args& a) { LD x = a.v[0]; const TypeInfo& t = type_info(c[0]);
          if (w) { if (x != x) return skip(); return exactly(x > 0 ? 1 : x < 0 ? -1 : 0); }
          if (x != x) return nan_(); if (!t.is_float && t.ilo < 0 && x == t.ilo) return skip(); if (std::isinf(x)) return pinf(); Expect e = exactly((Q)fabsl(x)); e.sign = 1; e.nontrivial = x < 0; return e; };
      add(s); }
    for (int w = 0; w < 2; w++) { Spec s; s.prop = "C05"; s.fn = s.label = w ? "max" : "min"; s.share = 1; s.sigs = pairs(nb, nb);
      s.gen = [gany](Rng& r, const std::string& c, Args& a) { a.n = 2; a.v[0] = gany(r, c[0]); a.v[1] = r.below(3) == 0 ? gany(r, c[1]) : r.coin() ? to_type(c[1], a.v[0]) : next_in(c[1], to_type(c[1], a.v[0] * (r.coin() ? 1 : -1)), (int)r.range(-1, 1)); if (r.coin()) { LD x = r.range(-9, 9), y = r.range(-9, 9); a.v[0] = to_type(c[0], x); a.v[1] = to_type(c[1], y); } };
      s.oracle = [w](const std::string& c, const Args& a) { if (a.v[0] != a.v[0] || a.v[1] != a.v[1]) return skip(); char cc = common_of(c); LD x = cxx_conv(cc, a.v[0]), y = cxx_conv(cc, a.v[1]); LD v = w ? std::max(x, y) : std::min(x, y); if (std::isinf(v)) return v > 0 ? pinf() : ninf(); Expect e = exactly((Q)v); e.nontrivial = x != y; return e; };
      add(s); }
    { Spec s; s.prop = "C05"; s.fn = s.label = "signbit"; s.share = 0.3; s.sigs = VS{"f", "d", "e"};
      s.gen = [gany](Rng& r, const std::string& c, Args& a) { a.n = 1; a.v[0] = gany(r, c[0]); if (r.below(8) == 0) a.v[0] = r.coin() ? 0.0L : -0.0L; };
      s.oracle = [](const std::string&, const Args& a) { if (a.v[0] != a.v[0]) return skip(); return exactly(std::signbit(a.v[0]) ? 1 : 0); };
      add(s); }
    { Spec s; s.prop = "C05"; s.fn = s.label = "copysign"; s.share = 0.5; s.sigs = pairs("fde", "fde");
      s.gen = [gany](Rng& r, const std::string& c, Args& a) { a.n = 2; for (int k = 0; k < 2; k++) { a.v[k] = gany(r, c[k]); if (r.below(8) == 0) a.v[k] = r.coin() ? 0.0L : -0.0L; } };
      s.oracle = [](const std::string&, const Args& a) { if (a.v[0] != a.v[0] || a.v[1] != a.v[1]) return skip(); LD v = copysignl(a.v[0], a.v[1]); if (std::isinf(v)) return v > 0 ? pinf() : ninf(); Expect e = exactly((Q)v); e.sign = std::signbit(v) ? 2 : 1; e.nontrivial = std::signbit(a.v[0]) != std::signbit(a.v[1]); return e; };
      add(s); }
    (void)ALLT;
    return 0;
}
static int r_ = reg();
