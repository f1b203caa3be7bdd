#include "spec_util.hpp"
LD special_value(Rng& r, char id) {
    const TypeInfo& t = type_info(id);
    if (!t.is_float) { LD v[] = {0, 1, 2, 10, t.ihi, t.ilo, t.ihi - 1, t.ilo + 1}; return v[r.below(8)]; }
    LD v[] = {(LD)NAN, (LD)INFINITY, -(LD)INFINITY, 0.0L, -0.0L, 1, -1, t.maxv, -t.maxv, t.minn, -t.minn, t.denorm, -t.denorm, t.eps, 0.5L, 2, 1 + t.eps, 1 - t.eps / 2, -1 - t.eps, t.minn / 2};
    return v[r.below(sizeof v / sizeof *v)];
}
Spec unary(const char* prop, const char* fn, double share, G1 g, F1 f, bool ints) {
    Spec s; s.prop = prop; s.fn = fn; s.label = fn; s.share = share;
    s.sigs = VS{"f", "d", "e"}; s.weight = {3, 5, 3};
    if (ints) { s.sigs.insert(s.sigs.end(), {"s", "i", "j", "l", "y"}); s.weight.insert(s.weight.end(), {.2, .5, .2, .2, .2}); }
    s.gen = [g](Rng& r, const std::string& c, Args& a) { a.n = 1;
        if (r.below(128) == 0) { a.v[0] = special_value(r, c[0]); return; }
        if (is_float_id(c[0])) a.v[0] = g(r, c[0]);
        else a.v[0] = r.coin() ? to_type(c[0], g(r, 'd')) : r.coin() ? (LD)r.range(-30, 60) : gen_int(r, c[0], -1e18L, 1e18L);
        a.v[0] = to_type(c[0], a.v[0]); };
    s.oracle = [f](const std::string& c, const Args& a) -> Expect { char id = promote(c[0]); Q x = (Q)to_type(id, a.v[0]); if (qnan(x)) { Expect e = nan_(); return e; } return f(id, x); };
    return s;
}
Spec binary(const char* prop, const char* fn, double share, G2 g, F2 f, bool mixed) {
    Spec s; s.prop = prop; s.fn = fn; s.label = fn; s.share = share;
    s.sigs = VS{"ff", "dd", "ee"}; s.weight = {3, 5, 3};
    if (mixed) { s.sigs.insert(s.sigs.end(), {"fd", "df", "ed", "fe", "id", "di", "ii", "lf", "el", "jy"}); s.weight.insert(s.weight.end(), {.3, .3, .3, .3, .3, .3, .3, .3, .3, .2}); }
    s.gen = [g](Rng& r, const std::string& c, Args& a) { a.n = 2; char id = rtype(c); g(r, is_float_id(c[0]) && is_float_id(c[1]) ? id : 'd', a.v[0], a.v[1]);
        for (int k = 0; k < 2; k++) if (r.below(128) == 0) a.v[k] = special_value(r, c[k]);
        if (c == "ii" && r.below(3)) { a.v[0] = r.range(-20, 60); a.v[1] = r.range(-20, 60); }
        a.v[0] = to_type(c[0], a.v[0]); a.v[1] = to_type(c[1], a.v[1]); };
    s.oracle = [f](const std::string& c, const Args& a) -> Expect { char id = rtype(c), cc = common_of(c); 
        // arguments are converted to the common type first
        Q x, y; if (is_float_id(cc)) { x = (Q)to_type(id, a.v[0]); y = (Q)to_type(id, a.v[1]); } else { x = (Q)to_type(id, a.v[0]); y = (Q)to_type(id, a.v[1]); }
        if (qnan(x) || qnan(y)) return nan_(); return f(id, x, y); };
    return s;
}
