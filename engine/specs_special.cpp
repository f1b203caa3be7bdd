// Special functions (C14-C20): gamma, beta, erf families and the incomplete
// integrals and their inverses. Oracles: libquadmath (lgammaq, tgammaq, erfq,
// erfcq) and Boost.Math in 64-bit-mantissa long double.
#include "spec_util.hpp"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/multiprecision/float128.hpp>
namespace bm = boost::math;
typedef bm::policies::policy<bm::policies::domain_error<bm::policies::errno_on_error>, bm::policies::pole_error<bm::policies::errno_on_error>,
    bm::policies::overflow_error<bm::policies::errno_on_error>, bm::policies::evaluation_error<bm::policies::errno_on_error>,
    bm::policies::rounding_error<bm::policies::errno_on_error>> Pol;
static LD mixr(Rng& r, char id, LD lo, LD hi) { return gen_real(r, id, lo, hi); }
// error unit of the library's log-gamma: terms of size (x+1/2) log(x+5.24) and x+5.24 cancel; the
// series itself is good to about 1e-15
static Q lg_unit(char id, Q x) { return (epsq(id) + (id == 'e' ? 1e-16Q : 0)) * (1 + (x + 0.5Q) * logq(x + 5.25Q)); }
static LD gpos(Rng& r, char id, LD hi) {
    switch (r.below(6)) { case 0: return mixr(r, id, 0, 3); case 1: return mixr(r, id, 0, hi); case 2: return to_type(id, (LD)r.range(1, 40) / 2); case 3: return to_type(id, fabsl(gen_mag(r, id, -20, 6))); default: return mixr(r, id, 0, std::min(hi, (LD)30)); }
}
// a positive parameter, mostly moderate, log-uniform between 10^lo and 10^hi otherwise
static LD gpar(Rng& r, char id, LD lo, LD hi) {
    LD v;
    switch (r.below(7)) { case 0: v = mixr(r, id, 0, 10); break; case 1: v = mixr(r, id, 1, 1000); break; case 2: v = (LD)r.range(1, 60) / 2; break; case 3: v = mixr(r, id, 0, 2); break;
        case 4: { static const LD b[] = {1, 10, 30, 40, 50, 70, 90, 100, 300, 500, 800, 1000}; v = gen_near(r, id, b[r.below(12)]); break; } default: v = powl(10, lo + (hi - lo) * r.unit()); }
    return to_type(id, fabsl(v));
}
// a probability, with both tails down to 1e-9
static LD gprob(Rng& r, char id) {
    switch (r.below(6)) { case 0: return mixr(r, id, 0, 1); case 1: return to_type(id, powl(10, -9 * r.unit())); case 2: return to_type(id, 1 - powl(10, -9 * r.unit())); default: return to_type(id, 0.001L + 0.998L * r.unit()); }
}
// below 2.1 the continued fraction of erf amplifies rounding by about exp(2x^2)
static Q erf_amp(Q x) { return qabs(x) <= 2.1001Q ? 1 + expq(2 * x * x) : 1; }
// error unit of the incomplete gamma function, whose exact value is v
static Q ig_unit(char id, Q a, Q z, Q v) {
    Q e = epsq(id) + (id == 'e' ? 1e-16Q : 0);
    if (z > 3 * a + 30) return e * v;      // the value is one up to rounding
    Q lt = a * qabs(logq(z)) + z + qabs(lgammaq(a)), amp = a < 10 && z - a < 3.0001Q ? 1 + expq(z - a) / qmin(a, 1) : 1;
    return e * v * (lt + amp) + 1e-21Q;
}
// References, in long double first and in binary128 for suspected failures.
typedef boost::multiprecision::float128 F128;
static Q ig_ref(Q a, Q z) {
    if (g_precise) return bm::gamma_p(F128(a), F128(z), Pol()).backend().value();
    return bm::gamma_p((LD)a, (LD)z, Pol());
}
// (Boost is inaccurate next to one: for a = b = 1/2 it takes the arcsine of sqrt(z))
template <class R> static R ib_ref_in(R a, R b, R z, R c) { R v = bm::ibeta(a, b, z, Pol()); if (v > 0.5 && z > 0.9) v = 1 - bm::ibeta(b, a, c, Pol()); return v; }
static Q ib_ref(Q a, Q b, Q z) {
    if (g_precise) return ib_ref_in(F128(a), F128(b), F128(z), F128(1 - z)).backend().value();
    return ib_ref_in((LD)a, (LD)b, (LD)z, (LD)(1 - z));
}
// error unit of the incomplete beta function, whose exact value is v
static Q ib_unit(char id, Q a, Q b, Q z, Q v) {
    Q lt = a * qabs(logq(z)) + b * qabs(logq(1 - z)) + (lg_unit(id, a) + lg_unit(id, b) + lg_unit(id, a + b)) / epsq(id);
    return (epsq(id) + (id == 'e' ? 1e-16Q : 0)) * ((z < (a + 1) / (a + b + 2) ? v : 1) * (1 + lt)) / qmin(1, qmin(a, b)) + 1e-15Q * v;
}
static Q erf_inv_ref(Q p) {
    if (p == 0) return 0; Q a = qabs(p), x;
    // start from the double-precision normal quantile approximation, then Newton in quad
    { Q w = -logq((1 - a) * (1 + a)); if (w < 5) { w -= 2.5Q; Q c[] = {2.81022636e-08Q, 3.43273939e-07Q, -3.5233877e-06Q, -4.39150654e-06Q, 0.00021858087Q, -0.00125372503Q, -0.00417768164Q, 0.246640727Q, 1.50140941Q}; Q s = c[0]; for (int i = 1; i < 9; i++) s = c[i] + s * w; x = s * a; }
      else { x = sqrtq(w); } }
    for (int i = 0; i < 60; i++) { Q e = a > 0.5Q ? (1 - a) - erfcq(x) : erfq(x) - a; Q d = 2 / sqrtq(PIq) * expq(-x * x); Q st = e / d; Q h = 1 + x * st; if (h < 0.5Q) h = 0.5Q; if (h > 2) h = 2; st /= h; x -= st; if (qabs(st) < 1e-30Q * qabs(x)) break; }
    return p < 0 ? -x : x;
}
static int reg() {
    // ---- C14
    auto glg = [](Rng& r, char id) -> LD { switch (r.below(6)) { case 0: return mixr(r, id, 0, 3); case 1: return fabsl(gen_any(r, id)); case 2: return mixr(r, id, 0, 2000); case 3: return gen_near(r, id, (LD)r.range(0, 60) / 2); case 4: return mixr(r, id, -20, 1e5L); default: return mixr(r, id, 0, 30); } };
    add(unary("C14", "lgamma", 1, glg, [](char id, Q x) { if (subn(id, x)) return skip(); if (x <= 0) return pinf(); if (qinf(x)) return pinf(); Q v = lgammaq(x); Expect e = value(id, v, qinf(v) ? 0 : lg_unit(id, x) + epsq(id) * qabs(v), 10); if (x > 1 && x * logq(x) > (Q)type_info(id).maxv) e.inf_ok = true; return e; }));
    auto gtg = [](Rng& r, char id) -> LD { LD hi = id == 'f' ? 36 : id == 'd' ? 174 : 1800; switch (r.below(7)) { case 0: return mixr(r, id, 0, 3); case 1: return mixr(r, id, 0, hi); case 2: return mixr(r, id, -hi, 0); case 3: return gen_near(r, id, (LD)r.range(-40, 60) / 2); case 4: return gen_mag(r, id, -20, 7); case 5: return mixr(r, id, -6, 6); default: return gen_any(r, id); } };
    add(unary("C14", "tgamma", 1, gtg, [](char id, Q x) { if (subn(id, x)) return skip(); if (x == 0) return pinf(); if (qinf(x)) return x > 0 ? pinf() : nan_(); if (x < 0 && floorq(x) == x) return nan_();
        if (x > 1e5Q) return pinf(); const TypeInfo& t = type_info(id);
        if (x < -(Q)t.maxexp) return value(id, 0, 0, 0);
        Q v = tgammaq(x), u; if (x > 0) u = lg_unit(id, x) + epsq(id) * qabs(logq(qabs(v)));
        else { Q d = qabs(x - roundq(x)); u = lg_unit(id, 1) + epsq(id) * (qabs(x) + 4 + (qabs(x) + 1) / d); if (d < 64 * epsq(id) * (qabs(x) + 1)) return skip(); 
               // the product of the factors may leave the range before the quotient is complete
               if (qabs(v) > (Q)t.maxv / 4) return skip(); }
        if (u > 0.05Q) return skip();
        return value(id, v, u * qabs(v), 8); }));
    { Spec s = unary("C14", "factorial", 0.3, [](Rng& r, char id) -> LD { LD hi = id == 'f' ? 36 : id == 'd' ? 172 : 1760; return r.coin() ? to_type(id, (LD)r.range(0, (int)hi)) : mixr(r, id, 0, hi); }, [](char id, Q x) { if (x < 0 || subn(id, x)) return skip(); if (qinf(x)) return pinf(); Q v = x > 1e4Q ? (Q)INFINITY : tgammaq(x + 1); if (qinf(v)) return pinf(); Q u = lg_unit(id, x + 1) + epsq(id) * (qabs(logq(v)) + x * logq(x + 2)); if (u > 0.05Q) return skip(); return value(id, v, u * v, 8); }, false);
      s.label = "factorial.real"; add(s); }
    { Spec s; s.prop = "C14"; s.fn = s.label = "lmgamma"; s.share = 0.5; s.sigs = VS{"fi", "di", "ei", "ii", "dj", "dl", "fs", "ey", "li"};
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 2; char id = promote(c[0]); a.v[1] = r.below(4) ? r.range(1, 6) : r.range(0, 60); LD lo = (a.v[1] - 1) / 2; a.v[0] = lo + (r.below(4) ? gpos(r, id, r.coin() ? 30 : 1000) : gpar(r, id, -2, 6)); if (r.below(16) == 0) a.v[0] = lo; if (r.below(16) == 0) a.v[1] = -r.range(0, 5); a.v[0] = to_type(c[0], a.v[0]); a.v[1] = to_type(c[1], a.v[1]); if (r.below(128) == 0) a.v[0] = special_value(r, c[0]); };
      s.oracle = [](const std::string& c, const Args& a) { char id = promote(c[0]); Q x = to_type(id, a.v[0]); int p = (int)a.v[1]; if (qnan(x)) return nan_(); if (p < 1) return nan_(); if (qinf(x) || x > 1e6Q || p > 60) return skip();
        if (x <= (Q)(p - 1) / 2) { return skip(); } Q d = x - (Q)(p - 1) / 2; if (d < 1e-3Q) return skip();
        Q v = (Q)p * (p - 1) / 4 * logq(PIq), u = qabs(v) * epsq(id); for (int j = 0; j < p; j++) { Q y = x - (Q)j / 2; Q l = lgammaq(y); v += l; u += lg_unit(id, y) + epsq(id) * (qabs(l) + (x + 1) / qmin(y, 1)); } return value(id, v, u, 8); };
      add(s); }
    // ---- C15
    auto g2 = [](Rng& r, char id, LD& a, LD& b) { LD hi = r.coin() ? 50 : 1000; a = r.below(4) ? gpos(r, id, hi) : gpar(r, id, -30, 30); b = r.below(4) ? gpos(r, id, hi) : gpar(r, id, -30, 30); if (r.below(8) == 0) b = a; };
    auto lbu = [](char id, Q a, Q b) { return lg_unit(id, a) + lg_unit(id, b) + lg_unit(id, a + b) + epsq(id) * (qabs(lgammaq(a)) + qabs(lgammaq(b)) + qabs(lgammaq(a + b))); };
    auto bdom = [](char id, Q a, Q b) { return !subn(id, a) && !subn(id, b) && !qinf(a) && !qinf(b) && a >= 1e-30Q && b >= 1e-30Q && a <= 1e30Q && b <= 1e30Q; };
    add(binary("C15", "lbeta", 1, g2, [lbu, bdom](char id, Q a, Q b) { if (!bdom(id, a, b)) return skip(); Q v = lgammaq(a) + lgammaq(b) - lgammaq(a + b); return value(id, v, lbu(id, a, b), 8); }));
    add(binary("C15", "beta", 1, g2, [lbu, bdom](char id, Q a, Q b) { if (!bdom(id, a, b)) return skip(); Q l = lgammaq(a) + lgammaq(b) - lgammaq(a + b), v = expq(l); Q u = lbu(id, a, b); if (u > 0.05Q) return skip(); return value(id, v, u * v, 8); }));
    add(binary("C15", "log_binomial_coef", 1, [](Rng& r, char id, LD& n, LD& k) { LD hi = r.coin() ? 60 : 2000; n = r.coin() ? (LD)r.range(0, (int)hi) : r.below(3) ? mixr(r, id, 0, hi) : gpar(r, id, -6, 30); k = r.coin() ? floorl(n * r.unit()) : to_type(id, n * r.unit()); if (r.below(8) == 0) k = 0; if (r.below(8) == 0) k = n; },
        [](char id, Q n, Q k) { if (!(n >= 0) || !(k >= 0) || k > n || n > 1e30Q || qinf(n) || subn(id, k) || subn(id, n)) return skip(); Q a = lgammaq(n + 1), b = lgammaq(k + 1), c = lgammaq(n - k + 1); return value(id, a - b - c, lg_unit(id, n + 1) + lg_unit(id, k + 1) + lg_unit(id, n - k + 1) + epsq(id) * (qabs(a) + qabs(b) + qabs(c) + (n + 2) * logq(n + 2)), 8); }));
    // ---- C16
    auto gerf = [](Rng& r, char id) -> LD { switch (r.below(5)) { case 0: return mixr(r, id, -2.5L, 2.5L); case 1: return mixr(r, id, -7, 7); case 2: return gen_mag(r, id, -60, 2); case 3: return gen_near(r, id, r.coin() ? 2.1L : -2.1L); default: return gen_any(r, id); } };
    add(unary("C16", "erf", 1, gerf, [](char id, Q x) { Q v = erfq(x); return value(id, v, epsq(id) * qabs(v) * erf_amp(x), 8); }));
    auto gei = [](Rng& r, char id) -> LD { switch (r.below(5)) { case 0: return mixr(r, id, -1, 1); case 1: { LD v = 1 - powl(10, -12 * r.unit()) * r.unit(); return to_type(id, r.coin() ? v : -v); } case 2: return gen_mag(r, id, -60, 0); case 3: return mixr(r, id, -0.999L, 0.999L); default: return gen_near(r, id, r.coin() ? 1 : -1); } };
    add(unary("C16", "erf_inv", 1, gei, [](char id, Q p) { if (qabs(p) > 1) return nan_(); if (p == 1) return pinf(); if (p == -1) return ninf(); Q x = erf_inv_ref(p); Q d = 2 / sqrtq(PIq) * expq(-x * x); Q u = epsq(id) * (qabs(x) + qabs(p) / d * erf_amp(x)); return value(id, x, u, 8); }));
    // ---- C17 incomplete gamma
    auto g_ig = [](Rng& r, char id, LD& a, LD& z) { a = gpar(r, id, -2, r.coin() ? 3 : 8);
        switch (r.below(6)) { case 0: z = mixr(r, id, 0, 30); break; case 1: z = to_type(id, a * 3); z = gen_near(r, id, z); break; case 2: z = gen_near(r, id, a + (r.coin() ? 10 : 3)); break; case 3: z = to_type(id, a * 4 * r.unit()); break; default: z = to_type(id, a + sqrtl(a) * (r.unit() - 0.5L) * (r.coin() ? 12 : 24)); } if (r.below(64) == 0) z = fabsl(gen_any(r, id)); if (z < 0) z = -z; };
    add(binary("C17", "incomplete_gamma", 1, g_ig, [](char id, Q a, Q z) { if (a < 0) return nan_(); if (subn(id, z) || subn(id, a)) return skip(); if (z < 0) return skip(); if (z == 0) return exactly(0); if (a == 0) return exactly(1);
        if (a > 1e8Q || a < 0.01Q) return skip(); if (qinf(z)) return skip(); Q v = z > 1e6Q && z > 100 * a ? 1 : ig_ref(a, z); Q u = ig_unit(id, a, z, v); if (16 * ig_unit(id, a, z, 1) > 0.05Q) return skip(); return value(id, v, u, 16); }));
    // ---- C19 incomplete beta
    { Spec s; s.prop = "C19"; s.fn = s.label = "incomplete_beta"; s.share = 1; s.sigs = VS{"fff", "ddd", "eee", "dfd", "ffd", "iid", "did", "ied", "iii", "eff", "lif"}; s.weight = {3, 5, 3, .3, .3, .4, .3, .3, .1, .3, .2};
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 3; char id = rtype(c); if (c.find('f') != std::string::npos) id = 'f'; for (int k = 0; k < 2; k++) a.v[k] = gpar(r, id, -2, r.coin() ? 2 : 4); if (r.below(8) == 0) a.v[1] = a.v[0]; if (!is_float_id(c[0])) a.v[0] = r.range(1, 30); if (!is_float_id(c[1])) a.v[1] = r.range(1, 30); LD m = a.v[0] / (a.v[0] + a.v[1]), sd = sqrtl(m * (1 - m) / (a.v[0] + a.v[1] + 1));
        switch (r.below(5)) { case 0: a.v[2] = mixr(r, id, 0, 1); break; case 1: a.v[2] = gen_near(r, id, (a.v[0] + 1) / (a.v[0] + a.v[1] + 2)); break; case 2: a.v[2] = r.coin() ? powl(10, -8 * r.unit()) : 1 - powl(10, -6 * r.unit()); break; default: a.v[2] = m + sd * (r.unit() - 0.5L) * 10; } if (r.below(32) == 0) a.v[2] = r.below(2);
        if (a.v[2] < 0 || a.v[2] > 1 || a.v[2] != a.v[2]) a.v[2] = r.unit(); for (int k = 0; k < 3; k++) { if (r.below(200) == 0 && is_float_id(c[k])) a.v[k] = NAN; a.v[k] = to_type(c[k], a.v[k]); } };
      s.oracle = [](const std::string& c, const Args& ar) { char id = rtype(c); Q a = to_type(id, ar.v[0]), b = to_type(id, ar.v[1]), z = to_type(id, ar.v[2]); if (qnan(a) || qnan(b) || qnan(z)) return nan_(); if (a < 0.01Q || b < 0.01Q || a > 1e4Q || b > 1e4Q || z < 0 || z > 1 || subn(id, z)) return skip(); if (z == 0) return exactly(0); if (z == 1) return exactly(1);
        Q v = ib_ref(a, b, z), u = ib_unit(id, a, b, z, v); if (v < 1e-4800Q && id == 'e') return skip(); return value(id, v, u, 16); };
      add(s); }
    // ---- C18, C20 inverses: forward residual, in units of p's and x's own rounding
    // the result x may be off by 16 units in its last place; below 1024 times the smallest normal number it may be zero
    add([=] { Spec s = binary("C18", "incomplete_gamma_inv", 0.5, [](Rng& r, char id, LD& a, LD& p) { a = gpar(r, id, -2, r.coin() ? 3 : 8); p = gprob(r, id); }, [](char, Q, Q) { return skip(); });
        s.oracle = nullptr;
        s.relation = [](const std::string& c, const Args& ar, const CallFn& call, bool& nt, Q& ne) -> std::string { char id = rtype(c); Q a = to_type(id, ar.v[0]), p = to_type(id, ar.v[1]); 
            bool n = qnan(a) || qnan(p) || p > 1; if (n) { LD g = call("incomplete_gamma_inv", c, ar); return g != g ? "" : "expected NaN, got " + hexld(g); }
            if (p == 0) { LD g = call("incomplete_gamma_inv", c, ar); nt = false; return g == 0 ? "" : "expected 0, got " + hexld(g); }
            if (p == 1) { LD g = call("incomplete_gamma_inv", c, ar); nt = false; return std::isinf(g) && g > 0 ? "" : "expected +inf, got " + hexld(g); }
            if (a < 0.01Q || a > 1e8Q || p < 1e-9Q || 1 - p < 1e-9Q) return "SKIP";
            LD g = call("incomplete_gamma_inv", c, ar); 
            { // where the accuracy of the distribution function does not resolve the tail, nothing is required
              LD m = std::max((LD)a, 0.01L); Q um = ig_unit(id, a, m, 1); if (16 * um > 0.05Q || (16 * um > (1 - p) / 8 && a > 1) || 64 * epsq(id) > 1 - p) return "SKIP"; }
            if (!(g >= 0) || std::isinf(g)) return "expected a finite non-negative quantile, got " + hexld(g);
            LD h = 16 * (LD)epsq(id), mn = 1024 * type_info(id).minn; Q q = ig_ref(a, g), ql = g < mn ? 0 : ig_ref(a, (Q)g * (1 - (Q)h)), qh = ig_ref(a, qmax(mn, (Q)g * (1 + (Q)h)));
            Q u = ig_unit(id, a, a < 10 ? qmin(qmax(mn, g), a + 3) : qmax(mn, g), q); Q d = p < ql ? ql - p : p > qh ? p - qh : 0; ne = d / u;
            return ne > 16 ? "incomplete_gamma(a, result) is " + qstr(q) + ", expected " + qstr(p) + " (result " + hexld(g) + ")" : ""; };
        return s; }());
    add([=] { Spec s; s.prop = "C20"; s.fn = s.label = "incomplete_beta_inv"; s.share = 0.5; s.sigs = VS{"fff", "ddd", "eee", "dfd", "ffd", "iid", "did", "ied", "iii", "eff", "lif"}; s.weight = {3, 5, 3, .3, .3, .4, .3, .3, .1, .3, .2};
        s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 3; char id = rtype(c); if (c.find('f') != std::string::npos) id = 'f'; for (int k = 0; k < 2; k++) { a.v[k] = gpar(r, id, -1.3L, r.coin() ? 2 : 4); if (!is_float_id(c[k])) a.v[k] = r.range(1, 30); } if (r.below(8) == 0) a.v[1] = a.v[0]; a.v[2] = gprob(r, id); if (r.below(64) == 0) a.v[2] = r.below(2);
            for (int k = 0; k < 3; k++) { if (r.below(200) == 0 && is_float_id(c[k])) a.v[k] = NAN; a.v[k] = to_type(c[k], a.v[k]); } };
        s.relation = [](const std::string& c, const Args& ar, const CallFn& call, bool& nt, Q& ne) -> std::string { char id = rtype(c); Q a = to_type(id, ar.v[0]), b = to_type(id, ar.v[1]), p = to_type(id, ar.v[2]);
            if (qnan(a) || qnan(b) || qnan(p)) { LD g = call("incomplete_beta_inv", c, ar); return g != g ? "" : "expected NaN, got " + hexld(g); }
            if (a < 0.05Q || b < 0.05Q || a > 1e4Q || b > 1e4Q || p < 0 || p > 1) return "SKIP";
            LD g = call("incomplete_beta_inv", c, ar); if (p == 0 || p == 1) { nt = false; return (Q)g == p ? "" : "expected " + qstr(p) + ", got " + hexld(g); } if (p < 1e-9Q || 1 - p < 1e-9Q || 64 * epsq(id) > 1 - p) return "SKIP";
            if (!(g >= 0) || !(g <= 1)) return "expected a value in [0,1], got " + hexld(g);
            LD h = 16 * (LD)epsq(id), mn = 1024 * type_info(id).minn; Q q = ib_ref(a, b, g), ql = g < mn ? 0 : ib_ref(a, b, (Q)g * (1 - (Q)h)), qh = g == 1 ? 1 : ib_ref(a, b, qmin(1, qmax(mn, (Q)g * (1 + (Q)h))));
            Q zz = std::min(1 - (LD)epsq(id) / 2, std::max(mn, g)), u = ib_unit(id, a, b, zz, qmax(q, p)); Q d = p < ql ? ql - p : p > qh ? p - qh : 0; ne = d / u;
            return ne > 16 ? "incomplete_beta(a, b, result) is " + qstr(q) + ", expected " + qstr(p) + " (result " + hexld(g) + ")" : ""; };
        return s; }());
    return 0;
}
static int r_ = reg();
