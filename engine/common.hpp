// Common definitions of the property-based testing engine.
#pragma once
#include <quadmath.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <map>

typedef __float128 Q;
typedef long double LD;

// ---------------------------------------------------------------- RNG
// Every random choice of a case is drawn from this generator, which is keyed
// by (seed, spec, type, case index): a case is a pure function of those.
struct Rng {
    uint64_t s;
    static uint64_t mix(uint64_t z) {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    Rng(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { s = mix(mix(mix(mix(a) ^ b) ^ c) ^ d); }
    uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    LD unit() { return (LD)u64() * 0x1p-64L; }            // [0,1)
    bool coin() { return u64() & 1; }
};

// ---------------------------------------------------------------- scalar types
// Itanium codes: f d e (float, double, long double), b c a h s t i j l m x y (integral)
struct TypeInfo {
    char id; const char* cname; bool is_float;
    int digits, maxexp, minexp;       // floats
    LD eps, minn, maxv, denorm;       // floats
    LD ilo, ihi;                      // integral range
};
const TypeInfo& type_info(char id);
LD to_type(char id, LD v);            // round v to the type (exact afterwards)
LD next_in(char id, LD v, int steps); // step by ulps in the type
inline bool is_float_id(char id) { return id == 'f' || id == 'd' || id == 'e'; }
// gcem's documented promotion: return_t / common_t / common_return_t
char promote(char id);
char common_of(const std::string& codes);

// ---------------------------------------------------------------- cases and expectations
const int MAXARG = 4;
struct Args { int n; LD v[MAXARG]; };

enum Kind { SKIP, VAL, ISNAN, PINF, NINF };
struct Expect {
    Kind kind;
    Q val;        // for VAL
    Q tol;        // allowed absolute error
    Q unit;       // the error unit (survey only): tol = K * unit (+ floor)
    bool inf_ok;  // overflow boundary: an infinity of the sign of val is allowed too
    bool nan_ok;
    bool nontrivial;
    int sign;     // 0: any, 1: result must be +, 2: result must be - (zeros included)
    LD sub;       // errors below this absolute size do not count in the survey (underflow)
    Expect() : kind(SKIP), val(0), tol(0), unit(0), inf_ok(false), nan_ok(false), nontrivial(true), sign(0), sub(0) {}
};
struct Ctx;  // gives access to the implementation under test for metamorphic checks
typedef std::function<LD(const char* fn, const std::string& codes, const Args&)> CallFn;

struct Spec {
    std::string prop, fn;
    std::string label;                     // unique, e.g. "exp" or "sin.range"
    std::vector<std::string> sigs;         // type signatures, e.g. "f","d","e"
    std::vector<double> weight;            // per-signature share of cases
    double share;                          // relative number of cases
    std::function<void(Rng&, const std::string& codes, Args&)> gen;
    // oracle for a value
    std::function<Expect(const std::string& codes, const Args&)> oracle;
    // or a relation evaluated with calls into the implementation (metamorphic);
    // returns "" when it holds. nontrivial is set by the relation.
    std::function<std::string(const std::string& codes, const Args&, const CallFn&, bool& nontrivial, Q& normerr)> relation;
    std::function<std::vector<std::string>(const std::string& codes)> needs;   // "fn codes" entry points used (default: fn codes)
    uint64_t max_cases; bool no_sweep;
    Spec() : share(1), max_cases(0), no_sweep(false) {}
};
std::vector<Spec>& specs();
struct AddSpec { AddSpec(const Spec& s) { specs().push_back(s); } };

// dictionary of numeric constants (from /repo's headers) used by the generators
std::vector<LD>& dict();

// ---------------------------------------------------------------- generators (gen.cpp)
// A value of type `id` in [lo,hi], from a mix of strategies.
LD gen_real(Rng&, char id, LD lo, LD hi);
LD gen_mag(Rng&, char id, int e2lo, int e2hi);             // random sign, log-uniform magnitude
LD gen_any(Rng&, char id);                                 // any finite value, both signs, all exponents
LD gen_int(Rng&, char id, LD lo, LD hi);                   // integral value representable in id
LD gen_near(Rng&, char id, LD c);                          // near c: ulps or relative perturbations

inline Q qabs(Q x) { return x < 0 ? -x : x; }
inline Q qmax(Q a, Q b) { return a > b ? a : b; }
inline Q qmin(Q a, Q b) { return a < b ? a : b; }
std::string qstr(Q v);
std::string hexld(LD v);
extern std::function<char(const std::string& fn, const std::string& codes)> g_lib_ret;  // return type of an entry (of the build being evaluated)
extern std::function<bool(const std::string& fn, const std::string& codes)> g_lib_nx;
std::string compare(const Expect& ex, LD got, double* nerr);
LD to_type_any(char id, LD v);   // like to_type, NaN/inf kept for floats
extern bool g_precise;           // set while a suspected failure is judged again: oracles use their slow, more precise form
