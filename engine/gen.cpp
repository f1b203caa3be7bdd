#include <cstdio>
#include <cstdlib>
#include "common.hpp"
#include <limits>
#include <algorithm>

template <class T> static TypeInfo fl(char id, const char* n) {
    typedef std::numeric_limits<T> L;
    TypeInfo t; t.id = id; t.cname = n; t.is_float = true; t.digits = L::digits; t.maxexp = L::max_exponent; t.minexp = L::min_exponent;
    t.eps = L::epsilon(); t.minn = L::min(); t.maxv = L::max(); t.denorm = L::denorm_min(); t.ilo = t.ihi = 0; return t;
}
template <class T> static TypeInfo in(char id, const char* n) {
    typedef std::numeric_limits<T> L;
    TypeInfo t; t.id = id; t.cname = n; t.is_float = false; t.digits = L::digits; t.maxexp = t.minexp = 0;
    t.eps = t.minn = t.maxv = t.denorm = 0; t.ilo = (LD)L::min(); t.ihi = (LD)L::max(); return t;
}
const TypeInfo& type_info(char id) {
    static TypeInfo T[] = { fl<float>('f', "float"), fl<double>('d', "double"), fl<long double>('e', "long double"),
        in<bool>('b', "bool"), in<char>('c', "char"), in<signed char>('a', "signed char"), in<unsigned char>('h', "unsigned char"),
        in<short>('s', "short"), in<unsigned short>('t', "unsigned short"), in<int>('i', "int"), in<unsigned>('j', "unsigned int"),
        in<long>('l', "long"), in<unsigned long>('m', "unsigned long"), in<long long>('x', "long long"), in<unsigned long long>('y', "unsigned long long") };
    for (auto& t : T) if (t.id == id) return t;
    fprintf(stderr, "bad type id %c\n", id); abort();
}
LD to_type(char id, LD v) {
    if (id == 'f') return (float)v;
    if (id == 'd') return (double)v;
    if (id == 'e') return v;
    const TypeInfo& t = type_info(id);
    if (!(v == v)) return 0;
    v = truncl(v) + 0.0L; if (v < t.ilo) v = t.ilo; if (v > t.ihi) v = t.ihi; return v;
}
LD next_in(char id, LD v, int steps) {
    int n = steps < 0 ? -steps : steps;
    for (int i = 0; i < n; i++) {
        if (id == 'f') v = nextafterf((float)v, steps < 0 ? -INFINITY : INFINITY);
        else if (id == 'd') v = nextafter((double)v, steps < 0 ? -INFINITY : INFINITY);
        else if (id == 'e') v = nextafterl(v, steps < 0 ? -INFINITY : INFINITY);
        else v = to_type(id, v + (steps < 0 ? -1 : 1));
    }
    return v;
}
char promote(char id) { return is_float_id(id) ? id : 'd'; }
// std::common_type of arithmetic types (applied pairwise, as the ternary operator does)
static char common2(char a, char b) {
    if (a == b) return a;
    if (a == 'e' || b == 'e') return 'e';
    if (a == 'd' || b == 'd') return 'd';
    if (a == 'f' || b == 'f') return 'f';
    // integer promotion, then usual conversions (LP64)
    auto prom = [](char c) { return strchr("bcahst", c) ? 'i' : c; };
    a = prom(a); b = prom(b);
    if (a == b) return a;
    auto rank = [](char c) { return (c == 'i' || c == 'j') ? 1 : (c == 'l' || c == 'm') ? 2 : 3; };
    auto uns = [](char c) { return c == 'j' || c == 'm' || c == 'y'; };
    auto bits = [](char c) { return (c == 'i' || c == 'j') ? 32 : 64; };
    auto mku = [](char c) { return c == 'i' ? 'j' : c == 'l' ? 'm' : c == 'x' ? 'y' : c; };
    if (uns(a) == uns(b)) return rank(a) > rank(b) ? a : b;
    char u = uns(a) ? a : b, s = uns(a) ? b : a;
    if (rank(u) >= rank(s)) return u;
    if (bits(s) > bits(u)) return s;
    return mku(s);
}
char common_of(const std::string& c) { char r = c[0]; for (size_t i = 1; i < c.size(); i++) r = common2(r, c[i]); return r; }

std::function<char(const std::string&, const std::string&)> g_lib_ret;
std::function<bool(const std::string&, const std::string&)> g_lib_nx;
LD to_type_any(char id, LD v) { return to_type(id, v); }
std::vector<LD>& dict() { static std::vector<LD> d; return d; }
std::vector<Spec>& specs() { static std::vector<Spec> s; return s; }

std::string qstr(Q v) { char b[80]; quadmath_snprintf(b, sizeof b, "%.25Qg", v); return b; }
std::string hexld(LD v) { char b[80]; snprintf(b, sizeof b, "%La", v); return b; }

LD gen_near(Rng& r, char id, LD c) {
    c = to_type(id, c);
    switch (r.below(4)) {
        case 0: return c;
        case 1: return next_in(id, c, (int)r.range(-4, 4));
        case 2: { LD p = powl(10.0L, -(LD)r.range(1, 18)); return to_type(id, c * (1 + (r.coin() ? p : -p) * r.unit())); }
        default: { LD p = powl(10.0L, -(LD)r.range(0, 17)); return to_type(id, c + (r.coin() ? p : -p) * (r.coin() ? 1 : r.unit())); }
    }
}
static LD clampin(LD v, LD lo, LD hi) { return v < lo ? lo : v > hi ? hi : v; }
static bool inr(LD v, LD lo, LD hi) { return v >= lo && v <= hi; }

static LD dict_value(Rng& r) {
    auto& d = dict();
    static const LD pi = 3.14159265358979323846264338327950288L;
    LD c = d.empty() ? (LD)r.range(1, 50) : d[r.below(d.size())];
    if (r.below(24) == 0) { static const LD e[] = {1.1920928955078125e-7L, 2.220446049250313080847e-16L, 1.0842021724855044340e-19L}; LD x = e[r.below(3)]; if (r.coin()) x = r.coin() ? sqrtl(x) : cbrtl(x); if (r.below(4) == 0) x = 1 / x; return (r.coin() ? 1 : -1) * x * (r.coin() ? 1 : c); }
    if (r.below(4) == 0 && !d.empty()) {                  // combinations of two constants
        LD b = d[r.below(d.size())];
        switch (r.below(5)) { case 0: c = c + b; break; case 1: c = c - b; break; case 2: c = c * b; break; case 3: if (b != 0) c = c / b; break; default: if (c > 0 && fabsl(b) < 300) c = powl(c, b); }
        if (!std::isfinite(c)) c = b;
        return r.below(3) == 0 ? -c : c;
    }
    switch (r.below(14)) {
        case 0: case 1: case 2: case 3: case 4: break;
        case 5: c = c / 2; break;
        case 6: c = c * 2; break;
        case 7: c = c * c; break;
        case 8: if (c > 0) c = sqrtl(c); break;
        case 9: if (c != 0) c = 1 / c; break;
        case 10: if (c > 0) c = logl(c); break;
        case 11: if (fabsl(c) < 11000) c = expl(c); break;
        case 12: c = c * pi; break;
        case 13: c = c + (LD)r.range(-3, 3); break;
    }
    return r.below(3) == 0 ? -c : c;
}

LD gen_mag(Rng& r, char id, int e2lo, int e2hi) {
    int e = (int)r.range(e2lo, e2hi - 1);
    LD m;
    switch (r.below(6)) {
        case 0: m = 1; break;
        case 1: m = 1 + (LD)r.below(16) / 16; break;
        default: m = 1 + r.unit();
    }
    LD v = ldexpl(m, e);
    if (r.coin()) v = -v;
    return to_type(id, v);
}

// Mixed-strategy real in [lo,hi] (finite bounds, lo<=hi). All values are exact in `id`.
LD gen_real(Rng& r, char id, LD lo, LD hi) {
    const TypeInfo& t = type_info(id);
    for (int tries = 0; tries < 8; tries++) {
        LD v;
        switch (r.below(12)) {
            case 0: case 1: case 2: {                     // uniform
                v = lo / 2 + (hi / 2 - lo / 2) * r.unit(); v = 2 * v - 0; 
                if (lo / 2 + hi / 2 == 0 || true) v = lo * (1 - 0) + (hi - lo) * r.unit();
                if (!std::isfinite(v)) v = 2 * (lo / 2 + (hi / 2 - lo / 2) * r.unit());
                break; }
            case 3: case 4: case 5: {                     // log-uniform in magnitude, within range
                LD amax = std::max(fabsl(lo), fabsl(hi)), amin = (lo <= 0 && hi >= 0) ? t.minn : std::min(fabsl(lo), fabsl(hi));
                if (amin < t.minn) amin = t.minn;
                if (amax <= amin) { v = lo; break; }
                if (amin < amax * 0x1p-80L && r.below(3)) amin = amax * ldexpl(1, -(int)r.range(1, 80));
                LD l = log2l(amin), h = log2l(amax);
                v = exp2l(l + (h - l) * r.unit());
                if (lo < 0 && (hi <= 0 || r.coin())) v = -v;
                break; }
            case 6: {                                     // small integers and simple fractions
                LD den = (LD[]){1, 1, 2, 4, 8, 10, 16, 100, 3}[r.below(9)];
                LD span = std::min((LD)2000, (hi - lo) * den + 1);
                LD base = inr(0, lo, hi) ? 0 : (lo > 0 ? ceill(lo * den) : floorl(hi * den));
                LD k = floorl(span * r.unit() * (r.coin() ? 1 : 0.02L));
                if (inr(0, lo, hi)) { if (lo < 0 && r.coin()) k = -k; } else if (lo < 0) k = -k;
                v = (base + k) / den; break; }
            case 7: case 8: v = gen_near(r, id, dict_value(r)); break;
            case 9: v = gen_near(r, id, r.coin() ? lo : hi); break;
            case 10: {                                    // powers of 2 and of 10 and neighbours
                if (r.coin()) v = ldexpl(1, (int)r.range(t.minexp, t.maxexp - 1));
                else v = powl(10.0L, (LD)r.range((int)(t.minexp * 0.3), (int)(t.maxexp * 0.3)));
                if (r.coin()) v = powl(10.0L, (LD)r.range(-12, 12)) * (LD)r.range(1, 9);
                if (r.coin()) v = -v;
                v = next_in(id, to_type(id, v), (int)r.range(-3, 3)); break; }
            default: {                                    // near an integer or half-integer in range
                LD w = floorl(lo + (hi - lo) * r.unit()); if (r.coin()) w += 0.5L;
                v = gen_near(r, id, w); }
        }
        v = to_type(id, v);
        if (inr(v, lo, hi)) return v;
    }
    LD v = to_type(id, lo + (hi - lo) * r.unit());
    if (!std::isfinite(v)) v = to_type(id, 2 * (lo / 2 + (hi / 2 - lo / 2) * r.unit()));
    if (v < lo) v = next_in(id, v, 1);
    if (v > hi) v = next_in(id, v, -1);
    return clampin(v, lo, hi);
}

LD gen_any(Rng& r, char id) {
    const TypeInfo& t = type_info(id);
    switch (r.below(8)) {
        case 0: { LD v = to_type(id, dict_value(r)); return std::isfinite(v) ? next_in(id, v, (int)r.range(-2, 2)) : t.maxv; }
        case 1: return gen_real(r, id, -100, 100);
        case 2: return gen_mag(r, id, -70, 70);
        default: {
            int e = (int)r.range(t.minexp - 1, t.maxexp - 1);
            LD m = r.below(4) == 0 ? 1 : 1 + r.unit();
            LD v = to_type(id, ldexpl(m, e));
            if (!std::isfinite(v)) v = t.maxv;
            return r.coin() ? -v : v; }
    }
}

LD gen_int(Rng& r, char id, LD lo, LD hi) {
    const TypeInfo& t = type_info(id);
    if (!t.is_float) { lo = std::max(lo, t.ilo); hi = std::min(hi, t.ihi); }
    if (hi <= lo) return lo;
    LD v;
    switch (r.below(8)) {
        case 0: v = floorl(dict_value(r)); break;
        case 1: v = (r.coin() ? lo : hi) + (LD)r.range(-3, 3); break;
        case 2: v = (LD)r.range(-20, 40); break;
        case 3: { LD h = std::max(fabsl(lo), fabsl(hi)); v = floorl(exp2l(log2l(h + 1) * r.unit())); if (r.coin()) v = -v; break; }
        case 4: v = ldexpl(1, (int)r.below(64)) + (LD)r.range(-2, 2); if (r.coin()) v = -v; break;
        default: v = floorl(lo + (hi - lo + 1) * r.unit());
    }
    if (v < lo || v > hi) v = floorl(lo + (hi - lo + 1) * r.unit());
    if (v > hi) v = hi; if (v < lo) v = lo;
    return to_type(id, v);
}
