// Elementary functions: oracles in IEEE binary128 (libquadmath).
#include "spec_util.hpp"
static LD any(Rng& r, char id) { return gen_any(r, id); }
static LD pos(Rng& r, char id) { return fabsl(gen_any(r, id)); }
static LD mixr(Rng& r, char id, LD lo, LD hi) { return gen_real(r, id, lo, hi); }
static LD logmax(char id) { return logl(type_info(id).maxv); }
static Q lext(char id, Q x) { return id == 'e' ? qabs(x) : (Q)0; } // long double: error of e^n grows with |x|
static void two(Rng& r, char id, LD& x, LD& y) { x = gen_any(r, id); y = r.coin() ? gen_any(r, id) : to_type(id, x * gen_real(r, 'e', -100, 100)); if (!std::isfinite(y)) y = 1; if (r.coin()) std::swap(x, y); }

static int reg() {
    // ---- C06 sqrt, inv_sqrt, hypot
    add(unary("C06", "sqrt", 1, pos, [](char id, Q x) { if (subn(id, x)) return skip(); if (x < 0) return nan_(); Q v = sqrtq(x); return value(id, v, epsq(id) * v, id == 'e' ? 64 : 16); }));
    add(unary("C06", "inv_sqrt", 1, pos, [](char id, Q x) { if (subn(id, x)) return skip(); if (x < 0) return nan_(); if (x == 0) return pinf(); Q v = 1 / sqrtq(x); return value(id, v, epsq(id) * v, 8); }));
    add(binary("C06", "hypot", 1, two, [](char id, Q x, Q y) { if (subn(id, x) || subn(id, y)) return skip(); Q v = hypotq(x, y); return value(id, v, epsq(id) * v, 8); }));
    // ---- C07 exp family
    auto gexp = [](Rng& r, char id) -> LD { switch (r.below(5)) { case 0: return gen_any(r, id); case 1: return mixr(r, id, -3, 3); case 2: { LD m = type_info(id).minn, h = r.unit() * 2; return to_type(id, r.coin() ? logmax(id) + 1e-2L - h : logl(m) - 1e-2L + h); } default: return mixr(r, id, -logmax(id) * 1.02L, logmax(id) * 1.01L); } };
    add(unary("C07", "exp", 1, gexp, [](char id, Q x) { Q v = expq(x); return value(id, v, epsq(id) * v * (1 + lext(id, x)), 32); }));
    add(unary("C07", "expm1", 1, gexp, [](char id, Q x) { Q v = expm1q(x); Q u = qabs(x) <= 1e-4Q ? epsq(id) * qabs(v) : epsq(id) * (qabs(v) + 1) * (1 + lext(id, x)); return value(id, v, u, 32); }));
    // ---- C08 log family
    auto glog = [](Rng& r, char id) -> LD { switch (r.below(4)) { case 0: return mixr(r, id, 0.4L, 2.1L); case 1: return mixr(r, id, 1e-3L, 1e4L); default: return pos(r, id); } };
    auto flog = [](Q (*f)(Q)) { return [f](char id, Q x) { if (subn(id, x)) return skip(); if (x < 0) return nan_(); if (x == 0) return ninf(); Q v = f(x); return value(id, v, epsq(id) * qabs(v), 16); }; };
    add(unary("C08", "log", 1, glog, flog(logq)));
    add(unary("C08", "log2", 1, glog, flog(log2q)));
    add(unary("C08", "log10", 1, glog, flog(log10q)));
    auto glog1 = [](Rng& r, char id) -> LD { switch (r.below(4)) { case 0: return mixr(r, id, -1, 2); case 1: return mixr(r, id, -1.2e-4L, 1.2e-4L); case 2: return gen_mag(r, id, -60, 0); default: { LD v = pos(r, id); return v; } } };
    add(unary("C08", "log1p", 1, glog1, [](char id, Q x) { if (x < -1) return nan_(); if (x == -1) return ninf(); Q v = log1pq(x); Q u = qabs(x) <= 1e-4Q ? epsq(id) * qabs(v) : epsq(id) * (qabs(v) + 1); return value(id, v, u, 8); }));
    // ---- C10 trig
    auto gtrig = [](Rng& r, char id) -> LD { switch (r.below(6)) { case 0: return gen_near(r, id, (LD)r.range(-80, 80) * 0.785398163397448309615660845819875721L); case 1: return mixr(r, id, -3.3L, 3.3L); case 2: return gen_mag(r, id, -60, 3); case 3: return mixr(r, id, -100, 100); default: return mixr(r, id, -1e6L, 1e6L); } };
    auto big = [](Q x) { return qabs(x) > 1e6Q; };
    add(unary("C10", "sin", 1, gtrig, [big](char id, Q x) { if (big(x)) return skip(); Q v = sinq(x); Q u = epsq(id) * (qabs(x) < 1 ? qabs(v) : qabs(x)); return value(id, v, u, 8); }));
    add(unary("C10", "cos", 1, gtrig, [big](char id, Q x) { if (big(x)) return skip(); Q v = cosq(x); Q u = epsq(id) * qmax(1, qabs(x)); return value(id, v, u, 8); }));
    add(unary("C10", "tan", 1, gtrig, [big](char id, Q x) { if (big(x)) return skip(); Q v = tanq(x); Q u = epsq(id) * (qabs(x) < 0.5Q ? qabs(v) : qabs(v) + qabs(x) * (1 + v * v)); if (16 * u > qabs(v) && qabs(v) > 1) return skip(); return value(id, v, u, 8); }));
    // ---- C11 inverse trig
    auto gunit = [](Rng& r, char id) -> LD { switch (r.below(4)) { case 0: return gen_near(r, id, r.coin() ? 1 : -1); case 1: return gen_mag(r, id, -60, 0); default: return mixr(r, id, -1, 1); } };
    auto cnd = [](Q x) { return qabs(x) == 1 ? (Q)0 : qabs(x) / sqrtq((1 - x) * (1 + x)); };
    add(unary("C11", "asin", 1, gunit, [cnd](char id, Q x) { if (qabs(x) > 1) return nan_(); Q v = asinq(x); Q u = epsq(id) * (qabs(v) + cnd(x)); return value(id, v, u, id == 'e' ? 128 : 8); }));
    add(unary("C11", "acos", 1, gunit, [cnd](char id, Q x) { if (qabs(x) > 1) return nan_(); Q v = acosq(x); Q u = epsq(id) * (qabs(v) + cnd(x)); return value(id, v, u, id == 'e' ? 256 : 8); }));
    auto gatan = [](Rng& r, char id) -> LD { switch (r.below(4)) { case 0: return mixr(r, id, -3, 3); case 1: return mixr(r, id, -1200, 1200); case 2: return mixr(r, id, -30, 30); default: return any(r, id); } };
    add(unary("C11", "atan", 1, gatan, [](char id, Q x) { Q v = atanq(x); return value(id, v, epsq(id) * qabs(v), id == 'e' ? 256 : 8); }));
    add(binary("C11", "atan2", 1, [](Rng& r, char id, LD& y, LD& x) { two(r, id, y, x); if (r.below(16) == 0) y = r.coin() ? 0.0L : -0.0L; if (r.below(16) == 0) x = r.coin() ? 0.0L : -0.0L; },
        [](char id, Q y, Q x) { if (subn(id, x) || subn(id, y) || qinf(x) || qinf(y)) return skip(); Q v = atan2q(y, x); if (y == 0 && x < 0) v = M_PIq; /* documented: y >= 0 takes +pi */ return value(id, v, epsq(id) * qabs(v), id == 'e' ? 256 : 8); }));
    // ---- C12 hyperbolic
    auto ghyp = [](Rng& r, char id) -> LD { LD L = logmax(id); switch (r.below(5)) { case 2: { LD v = to_type(id, L - r.unit()); return r.coin() ? v : -v; } case 0: return mixr(r, id, -3, 3); case 1: return gen_mag(r, id, -60, 2); default: return mixr(r, id, -L, L); } };
    auto over = [](char id, Q x) { Q L = (Q)logmax(id) - 64 * epsq(id) * (1 + lext(id, logmax(id))); return qabs(x) > L && qabs(x) < (Q)logmax(id) + 1; };
    add(unary("C12", "sinh", 1, ghyp, [over](char id, Q x) { if (over(id, x)) return skip(); Q v = sinhq(x); Q u = epsq(id) * (qabs(v) + 1) * (1 + lext(id, x)); return value(id, v, u, 32); }));
    add(unary("C12", "cosh", 1, ghyp, [over](char id, Q x) { if (over(id, x)) return skip(); Q v = coshq(x); Q u = epsq(id) * v * (1 + lext(id, x)); return value(id, v, u, 40); }));
    add(unary("C12", "tanh", 1, [](Rng& r, char id) -> LD { switch (r.below(4)) { case 0: return mixr(r, id, -3, 3); case 1: return mixr(r, id, -50, 50); case 2: return gen_mag(r, id, -60, 6); default: return any(r, id); } },
        [](char id, Q x) { Q v = tanhq(x); return value(id, v, epsq(id) * qabs(v), 8); }));
    // ---- C13 inverse hyperbolic
    add(unary("C13", "asinh", 1, any, [](char id, Q x) { Q v = asinhq(x); return value(id, v, epsq(id) * (qabs(v) + 1), 8); }));
    add(unary("C13", "acosh", 1, [](Rng& r, char id) -> LD { switch (r.below(3)) { case 0: return 1 + gen_real(r, 'f', 0, 10); case 1: { LD v = gen_near(r, id, 1); return v; } default: return pos(r, id); } },
        [](char id, Q x) { if (x < 1) return nan_(); if (x == 1) return exactly(0); Q v = acoshq(x); Q c = 1 / sqrtq((1 - 1/x) * (1 + 1/x)); return value(id, v, epsq(id) * (qabs(v) + 1 + c), 8); }));
    add(unary("C13", "atanh", 1, gunit, [](char id, Q x) { if (qabs(x) > 1) return nan_(); if (x == 1) return pinf(); if (x == -1) return ninf(); Q v = atanhq(x); return value(id, v, epsq(id) * (qabs(v) + 1), 8); }));
    return 0;
}
static int r_ = reg();
