// C09: pow
#include "spec_util.hpp"
static LD logmax(char id) { return logl(type_info(id).maxv); }
static bool isint(LD v) { return floorl(v) == v; }
static int reg() {
    { Spec s; s.prop = "C09"; s.fn = "pow"; s.label = "pow.real"; s.share = 2; s.sigs = VS{"ff", "dd", "ee", "fd", "df", "de", "ed", "fe", "id", "if", "ie", "ld", "jd"}; s.weight = {4, 6, 4, .5, .5, .5, .5, .5, .8, .5, .5, .4, .4};
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 2; char id = common_of(c); char nar = (c.find('f') != std::string::npos) ? 'f' : id; LD L = logmax(id);
        LD x; switch (r.below(5)) { case 0: x = fabsl(gen_any(r, nar)); break; case 1: x = gen_real(r, nar, 0.5L, 2); break; case 2: x = gen_real(r, nar, 0, 20); break; case 3: x = gen_real(r, nar, 0, 1000); break; default: x = fabsl(gen_mag(r, nar, -30, 30)); }
        if (!is_float_id(c[0])) { x = r.coin() ? (LD)r.range(0, 30) : floorl(x); }
        x = to_type(c[0], x); LD y; LD lx = x > 0 ? logl(x) : 1; if (lx == 0) lx = 1;
        switch (r.below(5)) { case 0: y = gen_real(r, id, -10, 10); break; case 1: y = (LD)r.range(-40, 40) / 2; break; case 2: y = gen_real(r, id, -300, 300); break; default: y = (2 * r.unit() - 1) * L * 1.03L / lx; if (r.below(3) == 0) y = roundl(y); }
        a.v[0] = x; a.v[1] = to_type(c[1], y); if (r.below(40) == 0) a.v[0] = -a.v[0]; for (int k = 0; k < 2; k++) if (r.below(120) == 0) a.v[k] = special_value(r, c[k]); a.v[0] = to_type(c[0], a.v[0]); if (std::isinf(a.v[1])) a.v[1] = 2; };
      s.oracle = [](const std::string& c, const Args& a) { char id = common_of(c); Q x = to_type(id, a.v[0]), y = to_type(id, a.v[1]);
        if (y == 0) return exactly(1); if (qnan(x) || qnan(y)) return nan_(); if (subn(id, x)) return skip(); if (x < 0) return nan_();
        if (qinf(y)) return skip(); if (x == 0) return y > 0 ? exactly(0) : pinf(); if (qinf(x)) return y > 0 ? pinf() : exactly(0);
        Q v = powq(x, y), t = qabs(y * logq(x)); return value(id, v, epsq(id) * v * (1 + t), 16); };
      add(s); }
    { Spec s; s.prop = "C09"; s.fn = "pow"; s.label = "pow.intexp"; s.share = 2; s.sigs = VS{"fi", "di", "ei", "fl", "dl", "el", "ds", "dy", "dj", "ea", "fh", "dx", "dt", "em"};
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 2; char id = common_of(c); LD L = logmax(id); LD x, y;
        switch (r.below(4)) { case 0: x = gen_any(r, c[0]); break; case 1: x = gen_real(r, c[0], -2, 2); break; case 2: x = gen_real(r, c[0], -50, 50); break; default: x = 1 + (r.coin() ? 1 : -1) * powl(10, -(LD)r.range(0, 12)) * r.unit(); if (r.below(3) == 0) x = -x; }
        if (r.below(8) == 0) x = (LD)r.range(-12, 12);
        x = to_type(c[0], x); LD ax = fabsl(x), lx = ax > 0 ? logl(ax) : 1; if (fabsl(lx) < 1e-30L) lx = 1;
        switch (r.below(5)) { case 0: y = r.range(-12, 24); break; case 1: y = gen_int(r, c[1], -1000, 1000); break; case 2: y = gen_int(r, c[1], type_info(c[1]).ilo, type_info(c[1]).ihi); if (r.coin()) { x = r.coin() ? 1 : -1; } break; default: y = roundl((2 * r.unit() - 1) * L * 1.03L / lx); }
        if (r.below(64) == 0) y = r.coin() ? type_info(c[1]).ilo : type_info(c[1]).ihi;
        a.v[0] = x; a.v[1] = to_type(c[1], y) + 0.0L; if (r.below(120) == 0) a.v[0] = special_value(r, c[0]); };
      s.oracle = [](const std::string& c, const Args& a) { char id = common_of(c); Q x = to_type(id, a.v[0]), n = (Q)a.v[1];
        if (n == 0) return exactly(1); if (qnan(x)) return nan_(); if (x == 0) return n > 0 ? exactly(0) : skip(); if (qinf(x)) { if (n < 0) return exactly(0); return (x > 0 || fmodq(n, 2) == 0) ? pinf() : ninf(); } if (subn(id, x)) return skip();
        if (qabs(x) == 1) { Expect e = exactly(x == -1 && fmodq(n, 2) != 0 ? -1 : 1); return e; }
        Q t = qabs(n) * qabs(logq(qabs(x))); if (t > 60000) { bool up = (qabs(x) > 1) == (n > 0); if (!up) { return value(id, 0, 0, 0); } return (x > 0 || fmodq(n, 2) == 0) ? pinf() : ninf(); }
        Q v = powq(qabs(x), n); if (x < 0 && fmodq(n, 2) != 0) v = -v; if (qabs(n) * epsq(id) > 0.01Q) return skip();
        // 1/x^n with x^n out of range: the reciprocal is zero or infinite
        Expect e = value(id, v, epsq(id) * qabs(v) * qabs(n), 8); if (n < 0 && qabs(v) > (Q)type_info(id).maxv / 16) e.inf_ok = true; return e; };
      add(s); }
    { Spec s; s.prop = "C09"; s.fn = "pow"; s.label = "pow.int"; s.share = 1; s.sigs = VS{"ii", "ll", "il", "li", "ij", "jj", "ji", "yy", "yi", "xi", "ss", "aa", "hh", "si", "sh", "mi", "ix", "tt", "my"};
      s.gen = [](Rng& r, const std::string& c, Args& a) { a.n = 2; char cc = common_of(c); LD m = type_info(cc).ihi; LD y = r.below(3) ? r.range(0, 12) : r.range(-6, 64); LD top = y > 0 ? floorl(powl(m, 1 / y)) + 1 : 20; LD x = r.coin() ? r.range(-12, 12) : floorl((2 * r.unit() - 1) * top); if (r.below(6) == 0) x = top - r.range(0, 2);
        if (r.below(20) == 0) { y = r.coin() ? type_info(c[1]).ilo : type_info(c[1]).ihi; x = r.range(-1, r.coin() ? 1 : 3); }
        if (x < 0 && (type_info(cc).ilo == 0 || type_info(c[0]).ilo == 0)) x = -x; a.v[0] = to_type(c[0], x) + 0.0L; a.v[1] = to_type(c[1], y) + 0.0L; };
      s.oracle = [](const std::string& c, const Args& a) { char cc = common_of(c); Q x = a.v[0], n = a.v[1]; const TypeInfo& t = type_info(cc); if (x < 0 && t.ilo == 0) return skip(); 
        if (n == 0) return exactly(1); if (n < 0) { if (x == 0) return skip(); if (x == 1) return exactly(1); if (x == -1) return exactly(fmodq(n, 2) == 0 ? 1 : -1); return exactly(0); }
        if (x == 0 || x == 1) { Expect e = exactly(x); e.nontrivial = false; return e; } if (x == -1) return exactly(fmodq(n, 2) == 0 ? 1 : -1); if (n > 70) return skip();
        Q v = 1; for (int i = 0; i < (int)n; i++) { v *= x; if (qabs(v) > 1e30Q) return skip(); } if (v > (Q)t.ihi || v < (Q)t.ilo || v < -(Q)t.ihi) return skip(); return exactly(v); };
      add(s); }
    return 0;
}
static int r_ = reg();
