// Exposes gcem's public functions, instantiated for a list of argument types,
// through one C ABI table. Compiled from /repo's headers at check time.
// Everything passes through long double, which holds every float, double and
// 64-bit integer exactly.
#pragma once
#include "gcem.hpp"

struct ShimEntry {
    const char* fn; const char* codes; char ret; bool is_noexcept;
    void (*call)(const long double* a, long double* r);
};

template <class T> struct Code { static constexpr char v = '?'; };
#define SHIM_CODE(T, c) template <> struct Code<T> { static constexpr char v = c; };
SHIM_CODE(float, 'f') SHIM_CODE(double, 'd') SHIM_CODE(long double, 'e') SHIM_CODE(bool, 'b') SHIM_CODE(char, 'c')
SHIM_CODE(signed char, 'a') SHIM_CODE(unsigned char, 'h') SHIM_CODE(short, 's') SHIM_CODE(unsigned short, 't')
SHIM_CODE(int, 'i') SHIM_CODE(unsigned int, 'j') SHIM_CODE(long, 'l') SHIM_CODE(unsigned long, 'm')
SHIM_CODE(long long, 'x') SHIM_CODE(unsigned long long, 'y')

template <class... T> struct CodeStr { static constexpr char v[sizeof...(T) + 1] = {Code<T>::v..., 0}; };
template <class... T> constexpr char CodeStr<T...>::v[sizeof...(T) + 1];

template <class... T> struct TL {};
typedef TL<float, double, long double> Reals;
typedef TL<signed char, unsigned char, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long, char> Ints;
typedef TL<float, double, long double, bool, char, signed char, unsigned char, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long> All;
typedef TL<float, double, long double, signed char, unsigned char, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long> NoBool;
typedef TL<float, double, long double, short, int, unsigned int, long, unsigned long long> Some;

static ShimEntry g_tab[20000];
static int g_n = 0;
inline void shim_add(const char* fn, const char* codes, char ret, bool nx, void (*call)(const long double*, long double*)) {
    if (g_n < 20000) { ShimEntry e = {fn, codes, ret, nx, call}; g_tab[g_n++] = e; }
}

// apply F<T> / F<T,U> / ... over type lists
template <template <class...> class F, class L> struct Each;
template <template <class...> class F, class... T> struct Each<F, TL<T...>> { static void run() { int d[] = {0, (F<T>::add(), 0)...}; (void)d; } };
template <template <class...> class F, class T, class L> struct Each2b;
template <template <class...> class F, class T, class... U> struct Each2b<F, T, TL<U...>> { static void run() { int d[] = {0, (F<T, U>::add(), 0)...}; (void)d; } };
template <template <class...> class F, class L, class M> struct Each2;
template <template <class...> class F, class... T, class M> struct Each2<F, TL<T...>, M> { static void run() { int d[] = {0, (Each2b<F, T, M>::run(), 0)...}; (void)d; } };
template <template <class...> class F, class L> struct Diag2;
template <template <class...> class F, class... T> struct Diag2<F, TL<T...>> { static void run() { int d[] = {0, (F<T, T>::add(), 0)...}; (void)d; } };
template <template <class...> class F, class L> struct Diag3;
template <template <class...> class F, class... T> struct Diag3<F, TL<T...>> { static void run() { int d[] = {0, (F<T, T, T>::add(), 0)...}; (void)d; } };
template <template <class...> class F, class T, class U, class L> struct Each3c;
template <template <class...> class F, class T, class U, class... V> struct Each3c<F, T, U, TL<V...>> { static void run() { int d[] = {0, (F<T, U, V>::add(), 0)...}; (void)d; } };
template <template <class...> class F, class T, class L, class M> struct Each3b;
template <template <class...> class F, class T, class... U, class M> struct Each3b<F, T, TL<U...>, M> { static void run() { int d[] = {0, (Each3c<F, T, U, M>::run(), 0)...}; (void)d; } };
template <template <class...> class F, class L> struct Each3;
template <template <class...> class F, class... T> struct Each3<F, TL<T...>> { static void run() { int d[] = {0, (Each3b<F, T, TL<T...>, TL<T...>>::run(), 0)...}; (void)d; } };

#define SHIM1(NAME) \
    template <class T> struct S_##NAME { \
        static void call(const long double* a, long double* r) { *r = static_cast<long double>(gcem::NAME(static_cast<T>(a[0]))); } \
        static void add() { shim_add(#NAME, CodeStr<T>::v, Code<decltype(gcem::NAME(T()))>::v, noexcept(gcem::NAME(T())), &call); } };
#define SHIM2(NAME) \
    template <class T, class U> struct S_##NAME { \
        static void call(const long double* a, long double* r) { *r = static_cast<long double>(gcem::NAME(static_cast<T>(a[0]), static_cast<U>(a[1]))); } \
        static void add() { shim_add(#NAME, CodeStr<T, U>::v, Code<decltype(gcem::NAME(T(), U()))>::v, noexcept(gcem::NAME(T(), U())), &call); } };
#define SHIM3(NAME) \
    template <class T, class U, class V> struct S_##NAME { \
        static void call(const long double* a, long double* r) { *r = static_cast<long double>(gcem::NAME(static_cast<T>(a[0]), static_cast<U>(a[1]), static_cast<V>(a[2]))); } \
        static void add() { shim_add(#NAME, CodeStr<T, U, V>::v, Code<decltype(gcem::NAME(T(), U(), V()))>::v, noexcept(gcem::NAME(T(), U(), V())), &call); } };

#define REG1(NAME, L) Each<S_##NAME, L>::run();
#define REG2(NAME, L, M) Each2<S_##NAME, L, M>::run();
#define REG2D(NAME, L) Diag2<S_##NAME, L>::run();
#define REG3D(NAME, L) Diag3<S_##NAME, L>::run();
#define REG3(NAME, L) Each3<S_##NAME, L>::run();
