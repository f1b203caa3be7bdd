#pragma once
#include "common.hpp"
typedef std::vector<std::string> VS;
inline Q epsq(char id) { return (Q)type_info(id).eps; }
inline char rtype(const std::string& c) { return promote(common_of(c)); }
inline bool qnan(Q x) { return x != x; }
inline bool qinf(Q x) { return isinfq(x); }
inline Expect nan_() { Expect e; e.kind = ISNAN; return e; }
inline Expect pinf() { Expect e; e.kind = PINF; e.val = 1; return e; }
inline Expect ninf() { Expect e; e.kind = NINF; e.val = -1; return e; }
inline Expect skip() { Expect e; e.kind = SKIP; return e; }
inline Expect exactly(Q v) { Expect e; e.kind = VAL; e.val = v; e.tol = 0; e.unit = 0; return e; }
// Expect a value `ref` computed in result type `id`, to K*unit absolute error.
// Overflow: beyond the type's range an infinity is expected (either side accepted within
// the tolerance of the boundary).  Underflow: below the smallest normal number, an absolute error
// of one smallest normal number is allowed on top (the library flushes to zero there).
inline Expect value(char id, Q ref, Q unit, Q K) {
    const TypeInfo& t = type_info(id);
    if (qnan(ref)) return nan_();
    if (qinf(ref)) return ref > 0 ? pinf() : ninf();
    Expect e; e.val = ref; e.unit = unit; e.tol = K * unit;
    Q a = qabs(ref), M = (Q)t.maxv;
    if (a - e.tol > M) { e.kind = ref > 0 ? PINF : NINF; return e; }
    if (a + e.tol >= M) e.inf_ok = true;
    e.kind = VAL;
    if (a - e.tol < 4 * (Q)t.minn) { e.tol += 4 * (Q)t.minn; e.sub = 4 * t.minn; }
    if (ref == 0) e.nontrivial = false;
    return e;
}
typedef std::function<Expect(char id, Q x)> F1;
typedef std::function<Expect(char id, Q x, Q y)> F2;
typedef std::function<LD(Rng&, char)> G1;
typedef std::function<void(Rng&, char, LD&, LD&)> G2;
// default signatures: the three floating types, and integral arguments (promoted to double)
Spec unary(const char* prop, const char* fn, double share, G1 g, F1 f, bool ints = true);
Spec binary(const char* prop, const char* fn, double share, G2 g, F2 f, bool mixed = true);
LD special_value(Rng& r, char id);
inline void add(const Spec& s) { specs().push_back(s); }
const Q PIq = M_PIq;
inline bool subn(char id, Q x) { return x != 0 && qabs(x) < (Q)type_info(id).minn; }
