"""Planted bugs (development only; see plant.py)."""
O = "gcem_incl/gcem_options.hpp"
BUGS = [
 dict(id="b01-round-half", property="C01", needs="arguments whose sum with 0.5 is not representable: the number just below 0.5, odd integers near 2^(digits-1)",
      breaks="round is computed as floor(x+0.5), which rounds the predecessor of 0.5 up to 1 and moves large odd integers",
      edits=[("gcem_incl/round.hpp", """    return( abs(x - internal::floor_check(x)) >= T(0.5) ? \\
            // if 
                internal::floor_check(x) + sgn(x) : \\
            // else 
                internal::floor_check(x) );""", "    return internal::floor_check(x + T(0.5));")],
      demo="    volatile double x = 0.49999999999999994; volatile float y = 8388605.f;\n    OK(gcem::round((double)x) == 0.0);\n    OK(gcem::round((float)0.49999997f) == 0.f);\n    OK(gcem::round((float)y) == 8388605.f);"),
 dict(id="b02-trunc-int", property="C01", needs="float arguments of magnitude between 2^31 and 2^43, where the conversion to int overflows",
      breaks="the bound above which a float is returned unchanged was raised, so that larger values go through an integer conversion of a narrower type",
      edits=[("gcem_incl/floor.hpp", "    return( abs(x) >= 8388608.f ? \\", "    return( abs(x) >= 8796093022208.f ? \\")],
      demo="    volatile float x = 3000000000.f; OK(gcem::floor((float)x) == 3000000000.f); x = -5e9f; OK(gcem::floor((float)x) == -5e9f);"),
 dict(id="b03-fmod-floor", property="C02", needs="a quotient of magnitude above 2^31",
      breaks="the quotient is truncated by a conversion to int, which overflows for large quotients",
      edits=[("gcem_incl/fmod.hpp", "x - trunc(x/y)*y );", "x - T(static_cast<int>(x/y))*y );")],
      demo="    volatile double x = 8589934597.0, y = 3.0; OK(gcem::fmod((double)x,(double)y) == std::fmod((double)x,(double)y));"),
 dict(id="b04-gcd-narrow", property="C03", needs="arguments of different widths where the wider one does not fit the narrower type",
      breaks="the arguments of gcd are converted to the type of the first argument instead of the common type",
      edits=[("gcem_incl/gcd.hpp", "    return gcd_int_check( static_cast<TC>(abs(a)), static_cast<TC>(abs(b)) );", "    return gcd_int_check( static_cast<TC>(abs(a)), static_cast<TC>(static_cast<T1>(abs(b))) );")],
      demo="    volatile int a = 10; volatile long long b = 10000000000LL; OK(gcem::gcd((int)a,(long long)b) == 10); OK(gcem::gcd((int)30,(long long)b*3) == 30);"),
 dict(id="b06-factorial-table", property="C04", needs="factorial(19) in a 64-bit type", breaks="one entry of the factorial table",
      edits=[("gcem_incl/factorial.hpp", "T(121645100408832000)", "T(121645100408823000)")],
      demo="    volatile long long n = 19; OK(gcem::factorial((long long)n) == 121645100408832000LL);"),
 dict(id="b07-max-type", property="C05", needs="max of a negative integer and an unsigned or floating value of another type",
      breaks="max compares in the original types but min in the common type", edits=[("gcem_incl/max.hpp", "    return( y < x ? x : y );", "    return( y < x ? x : static_cast<common_t<T1,T2>>(static_cast<T1>(y)) );")],
      demo="    volatile int a = 1; volatile double b = 2.5; OK(gcem::max((int)a,(double)b) == 2.5);"),
 dict(id="b08-sqrt-iter", property="C06", needs="small arguments (below about 1e-6), for which Newton's method needs more than a dozen steps",
      breaks="the iteration cap of sqrt is lowered below what small arguments need", edits=[(O, "#define GCEM_SQRT_MAX_ITER 100", "#define GCEM_SQRT_MAX_ITER 14")],
      demo="    volatile double x = 1e-8; OK(std::fabs(gcem::sqrt((double)x) - 1e-4) < 1e-12);"),
 dict(id="b09-e-digits", property="C07", needs="arguments of large magnitude, for which the error of the constant is multiplied by the whole part", breaks="the constant e has double precision only",
      edits=[(O, "#define GCEM_E 2.7182818284590452353602874713526624977572L", "#define GCEM_E 2.7182818284590450907955982984276488423347L")],
      demo="    volatile double x = 650.25; OK(std::fabs(gcem::exp((double)x)/std::exp((double)x) - 1) < 2e-14);"),
 dict(id="b10-log7-digit", property="C08", needs="arguments whose leading decimal digit is 7, in long double", breaks="a digit of log(7) in the table used for arguments with leading digit 7",
      edits=[("gcem_incl/log.hpp", "1.9459101490553133051053527434431797296371L", "1.9459101490553133151053527434431797296371L")],
      demo="    volatile long double x = 7.25L; OK(std::fabs(gcem::log((long double)x)/std::log((long double)x) - 1) < 2e-18L);"),
 dict(id="b11-log1p-cut", property="C08", needs="arguments of magnitude between 1e-4 and 1e-2", breaks="the short series of log1p is used beyond its range of accuracy",
      edits=[("gcem_incl/log1p.hpp", "            abs(x) > T(1e-04) ? \\", "            abs(x) > T(1e-02) ? \\")],
      demo="    volatile double x = 0.0099; OK(std::fabs(gcem::log1p((double)x) - std::log1p((double)x)) < 1e-14);"),
 dict(id="b12-pow-neg-exp", property="C09", needs="a negative integral exponent of large magnitude with a floating base", breaks="negative exponents are handled by inverting the base first, whose rounding error is multiplied by the exponent... and the base of an integral type becomes zero",
      edits=[("gcem_incl/pow_integral.hpp", "                T1(1) / pow_integral_compute(base, - exp_term) : ", "                pow_integral_compute(T1(1) / base, static_cast<short>(- exp_term)) : ")],
      demo="    volatile double x = 0.9999; volatile int n = -40000; OK(std::fabs(gcem::pow((double)x,(int)n)/std::pow((double)x,(int)n) - 1) < 1e-10);"),
 dict(id="b13-pi-double", property="C10", needs="long double arguments beyond pi", breaks="the constant pi has double precision only, which range reduction of long double arguments notices",
      edits=[(O, "#define GCEM_PI 3.1415926535897932384626433832795028841972L", "#define GCEM_PI 3.1415926535897931159979634685441851615906L")],
      demo="    volatile long double x = 100.0L; OK(std::fabs(gcem::sin((long double)x) - std::sin((long double)x)) < 1e-16L);"),
 dict(id="b14-tan-window", property="C10", needs="arguments in (1.35,1.55] or [1.60,1.80) modulo pi", breaks="the expansion around pi/2 is used in too wide a window",
      edits=[("gcem_incl/tan.hpp", "    return( (x > T(1.55) && x < T(1.60)) ? \\", "    return( (x > T(1.35) && x < T(1.80)) ? \\")],
      demo="    volatile double x = 1.36; OK(std::fabs(gcem::tan((double)x)/std::tan((double)x) - 1) < 1e-12);"),
 dict(id="b15-atan-order", property="C11", needs="arguments between 11 and 12", breaks="one bound between two orders of the arctangent series is off, so that too few terms are used",
      edits=[("gcem_incl/atan.hpp", "            x < T(4)    ? atan_series_order(x,x,1U,9U)  :  // O(1/x^35)", "            x < T(4)    ? atan_series_order(x,x,1U,6U)  :  // O(1/x^23)")],
      demo="    volatile double x = 3.05; OK(std::fabs(gcem::atan((double)x) - std::atan((double)x)) < 1e-14);"),
 dict(id="b16-atan2-tiny", property="C11", needs="|x| between the smallest normal number and the machine epsilon", breaks="a small x counts as zero in atan2 although y is as small",
      edits=[("gcem_incl/atan2.hpp", """            GCLIM<T>::min() > abs(x) ? \\
            //""", """            GCLIM<T>::epsilon() > abs(x) ? \\
            //""")],
      demo="    volatile double y = 1e-17, x = 1e-17; OK(std::fabs(gcem::atan2((double)y,(double)x) - 0.78539816339744828) < 1e-14);"),
 dict(id="b17-tanh-iter", property="C12", needs="arguments of magnitude between about 8 and 19", breaks="the continued fraction of tanh is cut off before it has converged for larger arguments",
      edits=[(O, "#define GCEM_TANH_MAX_ITER 35", "#define GCEM_TANH_MAX_ITER 16")],
      demo="    volatile double x = 15.; OK(std::fabs(gcem::tanh((double)x) - std::tanh((double)x)) < 2e-15);"),
 dict(id="b18-lgamma-one", property="C14", needs="arguments within 1e-8 of one", breaks="arguments near one count as one, so that lgamma is zero there",
      edits=[("gcem_incl/lgamma.hpp", "            GCLIM<T>::min() > abs(x - T(1)) ? \\", "            T(1e-08) > abs(x - T(1)) ? \\")],
      demo="    volatile double x = 1 - 5e-9; OK(std::fabs(gcem::lgamma((double)x) - std::lgamma((double)x)) < 1e-13);"),
 dict(id="b19-logbinom-type", property="C15", needs="log_binomial_coef with arguments of different types", breaks="k is rounded to the type of n first",
      edits=[("gcem_incl/log_binomial_coef.hpp", "    return log_binomial_coef_compute(static_cast<TC>(n),static_cast<TC>(k));", "    return log_binomial_coef_compute(static_cast<TC>(n),static_cast<TC>(static_cast<T1>(k)));")],
      demo="    volatile int n = 10; volatile double k = 2.5; OK(std::fabs(gcem::log_binomial_coef((int)n,(double)k) - gcem::log_binomial_coef(10.0,(double)k)) < 1e-12);"),
 dict(id="b21-igamma-ub", property="C17", needs="a between 300 and 500 and z far above the mean", breaks="the quadrature of the incomplete gamma function is cut off too early in one range",
      edits=[("gcem_incl/incomplete_gamma.hpp", "            a > T(300)  ? min(z, a + 9*sqrt(a))  : ", "            a > T(300)  ? min(z, a + 6*sqrt(a))  : ")],
      demo="    volatile double a = 400, z = 600; OK(std::fabs(gcem::incomplete_gamma((double)a,(double)z) - 1) < 1e-12);"),
 dict(id="b22-igamma-inv-iter", property="C18", needs="quantiles for which the initial value is poor", breaks="the iteration cap of incomplete_gamma_inv is too small for poor initial values",
      edits=[(O, "#define GCEM_INCML_GAMMA_INV_MAX_ITER 35", "#define GCEM_INCML_GAMMA_INV_MAX_ITER 1")],
      demo="    double w = 0; for (double a = 0.3; a < 12; a += 0.2) for (double p = 0.01; p < 1; p += 0.01) { double x = gcem::incomplete_gamma_inv(a,p); double e = std::fabs(gcem::incomplete_gamma(a,x) - p); if (!(e <= w)) w = e; }\n    OK(w < 1e-12);"),
 dict(id="b23-ibeta-iter", property="C19", needs="large parameters with z near the mean, which need many terms", breaks="the iteration cap of the incomplete beta continued fraction is too small for large parameters",
      edits=[(O, "#define GCEM_INCML_BETA_MAX_ITER 205", "#define GCEM_INCML_BETA_MAX_ITER 50")],
      demo="    volatile double a = 900, b = 900, z = 0.5; OK(std::fabs(gcem::incomplete_beta((double)a,(double)b,(double)z) - 0.5) < 1e-11);"),
 dict(id="b24-ibeta-inv-iter", property="C20", needs="quantiles for which the initial value is poor", breaks="the iteration cap of incomplete_beta_inv is too small for poor initial values",
      edits=[(O, "#define GCEM_INCML_BETA_INV_MAX_ITER 35", "#define GCEM_INCML_BETA_INV_MAX_ITER 3")],
      demo="    double w = 0; for (double a = 0.5; a < 12; a += 0.4) for (double b = 0.5; b < 12; b += 0.4) for (double p = 0.01; p < 1; p += 0.07) { double x = gcem::incomplete_beta_inv(a,b,p); double e = std::fabs(gcem::incomplete_beta(a,b,x) - p); if (!(e <= w)) w = e; }\n    OK(w < 1e-11);"),
 dict(id="b25-ibeta-depth", property="C21", needs="a constant expression whose continued fraction needs more than about 250 terms", breaks="the higher iteration cap lets slowly converging calls exceed the compilers' default constexpr recursion limit",
      edits=[(O, "#define GCEM_INCML_BETA_MAX_ITER 205", "#define GCEM_INCML_BETA_MAX_ITER 800")],
      demo="    constexpr double w = gcem::incomplete_beta(1e6,1e6,0.4999); OK(w > 0);"),
 dict(id="b26-tanh-cxx14", property="C22", needs="C++14 or later and arguments of magnitude above about 5", breaks="the loop version of the continued fraction of tanh starts at half the depth of the recursive one",
      edits=[("gcem_incl/tanh.hpp", "    int depth = GCEM_TANH_MAX_ITER - 1;", "    int depth = GCEM_TANH_MAX_ITER/2 - 1;")],
      demo="    volatile double x = 17.5; OK(std::fabs(gcem::tanh((double)x) - std::tanh((double)x)) < 2e-15);"),
 dict(id="b27-hypot-noexcept", property="C23", needs="code that relies on noexcept(gcem::hypot(...))", breaks="hypot is no longer noexcept, and its return type is spelled through an expression",
      edits=[("gcem_incl/hypot.hpp", "template<typename T1, typename T2>\nconstexpr\ncommon_return_t<T1,T2>\nhypot(const T1 x, const T2 y)\nnoexcept", "template<typename T1, typename T2>\nconstexpr\nreturn_t<decltype(T1() + T2())>\nhypot(const T1 x, const T2 y)")],
      demo="    OK(noexcept(gcem::hypot(1.0,2.0)));\n    OK((std::is_same<decltype(gcem::hypot(1.0f,2.0f)),float>::value));"),
 dict(id="b28-ibeta-nan", property="C24", needs="a NaN second parameter with z at or below zero", breaks="the NaN test of the incomplete beta function comes after the zero test and leaves b out",
      edits=[("gcem_incl/incomplete_beta.hpp", "            any_nan(a, b, z) ? \\", "            any_nan(a, z) ? \\")],
      demo="    volatile double n = std::numeric_limits<double>::quiet_NaN(); double r = gcem::incomplete_beta(2.0,(double)n,0.0); OK(r != r); r = gcem::incomplete_beta(2.0,(double)n,0.3); OK(r != r);"),
 dict(id="b29-sin-neg-half-pi", property="C25", needs="the argument -pi/2, exactly", breaks="sine is not odd at pi/2",
      edits=[("gcem_incl/sin.hpp", """            GCLIM<T>::min() > abs(x + T(GCEM_HALF_PI)) ? \\
                - T(1) :""", """            GCLIM<T>::min() > abs(x + T(GCEM_HALF_PI)) ? \\
                T(1) :""")],
      demo="    volatile double x = -1.5707963267948966; OK(gcem::sin((double)x) == -1.0); volatile float y = -1.5707964f; OK(gcem::sin((float)y) < 0);"),
 dict(id="b30-options-guard", property="C26", needs="a user who sets GCEM_INCML_GAMMA_MAX_ITER before including the library", breaks="the setting is defined unconditionally",
      edits=[(O, "#ifndef GCEM_INCML_GAMMA_MAX_ITER\n    #define GCEM_INCML_GAMMA_MAX_ITER 55\n#endif", "#define GCEM_INCML_GAMMA_MAX_ITER 55")],
      sh='printf \'#include "gcem.hpp"\\n#if GCEM_INCML_GAMMA_MAX_ITER != 90\\n#error setting ignored\\n#endif\\nint main() { return 0; }\\n\' > "$T/a.cpp"\ng++ -std=c++17 -DGCEM_INCML_GAMMA_MAX_ITER=90 -I include -fsyntax-only "$T/a.cpp"'),
 dict(id="b31-undef-round", property="C26", needs="a function-like macro named round defined before the library is included", breaks="the macro is no longer removed",
      edits=[(O, "#ifdef round\n    #undef round\n#endif\n\n", "")],
      sh='printf \'#define round(x) ((int)((x)+0.5))\\n#include "gcem.hpp"\\nint main() { return gcem::round(2.5) == 3.0 ? 0 : 1; }\\n\' > "$T/a.cpp"\ng++ -std=c++17 -I include "$T/a.cpp" -o "$T/a" && "$T/a"'),
 dict(id="b32-expm1-cut", property="C27", needs="arguments of magnitude between 1e-4 and 1e-2", breaks="the short series of expm1 is used beyond its range of accuracy, so that it does not undo log1p",
      edits=[("gcem_incl/expm1.hpp", "            abs(x) > T(1e-04) ? \\", "            abs(x) > T(2e-02) ? \\")],
      demo="    volatile double x = 0.019; OK(std::fabs(gcem::expm1(gcem::log1p((double)x)) - x) < 1e-14);"),
 dict(id="b33-lmgamma-pi", property="C28", needs="orders of three and more", breaks="the power of pi in the multivariate gamma function is computed in integer arithmetic for even orders",
      edits=[("gcem_incl/lmgamma.hpp", "                T1(GCEM_LOG_PI) * (p - T1(1))/T1(2) \\", "                T1(GCEM_LOG_PI) * (p < T2(7) ? (p - T1(1))/T1(2) : T1((p - T2(1))/T2(2))) \\")],
      demo="    volatile double a = 9.5; volatile int p = 8; double s = 8*7/4.0*std::log(3.14159265358979323846); for (int j = 0; j < 8; j++) s += std::lgamma(9.5 - j/2.0); OK(std::fabs(gcem::lmgamma((double)a,(int)p) - s) < 1e-10);"),

 dict(id="c01-atanh-eps", property="C13", needs="arguments within the machine epsilon of one", breaks="the largest number below one counts as one, so that atanh is infinite there",
      edits=[("gcem_incl/atanh.hpp", "            GCLIM<T>::min() > (T(1) - abs(x)) ? \\", "            GCLIM<T>::epsilon() > (T(1) - abs(x)) ? \\")],
      demo="    volatile double x = 1 - 1.2e-16; OK(std::fabs(gcem::atanh((double)x) - std::atanh((double)x)) < 1);"),
 dict(id="c02-acosh-near-one", property="C13", needs="arguments that exceed one by less than 1e-12", breaks="arguments just above one count as one",
      edits=[("gcem_incl/acosh.hpp", "            GCLIM<T>::min() > abs(x - T(1)) ? \\", "            T(1e-13) > abs(x - T(1)) ? \\")],
      demo="    volatile double x = 1 + 5e-14; OK(gcem::acosh((double)x) > 1e-7);"),
 dict(id="c03-erf-inv-eps", property="C16", needs="the largest number below one", breaks="erf_inv is infinite at the neighbours of +-1",
      edits=[("gcem_incl/erf_inv.hpp", "            GCLIM<T>::min() > abs(T(1) + p) ? \\", "            GCLIM<T>::epsilon() > abs(T(1) + p) ? \\")],
      demo="    volatile double x = -1 + 1.2e-16; OK(gcem::erf_inv((double)x) > -6);"),
 dict(id="c05-hypot-runtime-sqrt", property="C21", needs="the same call evaluated at compile time and at run time", breaks="hypot uses the machine square root at run time, which rounds differently from the compile-time iteration",
      edits=[("gcem_incl/hypot.hpp", "    return abs(x) * sqrt( T(1) + (ydx * ydx) );", "    return abs(x) * ( __builtin_is_constant_evaluated() ? sqrt( T(1) + (ydx * ydx) ) : static_cast<T>(__builtin_sqrtl( T(1) + (ydx * ydx) )) );")],
      demo="    int n = 0;\n#define T1(x) { constexpr double c = gcem::hypot(x,1.0); volatile double v = x; if (c != gcem::hypot((double)v,1.0)) n++; }\n#define T2(x) T1(x) T1(x+0.125) T1(x+0.25) T1(x+0.375) T1(x+0.5) T1(x+0.625) T1(x+0.75) T1(x+0.875)\n    T2(1.01) T2(2.01) T2(3.01) T2(4.01) T2(5.01) T2(6.01) T2(7.01) T2(8.01) OK(n == 0);"),
 dict(id="c08-pow-type", property="C23", needs="the type of pow of two integers", breaks="pow of integers is a double",
      edits=[("gcem_incl/pow.hpp", "constexpr\ncommon_t<T1,T2>\npow(const T1 base", "constexpr\ncommon_return_t<T1,T2>\npow(const T1 base")],
      demo="    OK((std::is_same<decltype(gcem::pow(2,3)),int>::value));\n    OK((std::is_same<decltype(gcem::pow(2ll,3)),long long>::value));"),
 dict(id="c09-floor-range", property="C24", needs="a float argument of magnitude between 2^31 and 1e10", breaks="the conversion of a float to int overflows in floor",
      edits=[("gcem_incl/floor.hpp", "    return( abs(x) >= 8388608.f ? \\", "    return( abs(x) >= 4294967296.f ? \\")],
      demo="    volatile float x = 3e9f; OK(gcem::floor((float)x) == 3e9f); volatile float y = -3e9f; OK(gcem::floor((float)y) == -3e9f);"),
 dict(id="c11-asin-near-one", property="C11", needs="arguments that are below one by less than 1e-7", breaks="the test for one in asin also takes the numbers just below one",
      edits=[("gcem_incl/asin.hpp", "            GCLIM<T>::min() > abs(x -  T(1)) ? \\", "            T(1e-07) > abs(x -  T(1)) ? \\")],
      demo="    volatile double x = 1 - 5e-8; OK(std::fabs(gcem::asin((double)x) - std::asin((double)x)) < 1e-7);"),
 dict(id="c13-global-type", property="C26", needs="a user program with its own uint_t at global scope", breaks="a library type name is declared in the global namespace",
      edits=[(O, "namespace gcem\n{\n    using uint_t = unsigned int;", "using uint_t = unsigned int;\n\nnamespace gcem\n{")],
      sh='printf \'typedef unsigned char uint_t;\\n#include "gcem.hpp"\\nint main() { return gcem::atan(3.0) > 1 ? sizeof(uint_t) - 1 : 1; }\\n\' > "$T/a.cpp"\ng++ -std=c++11 -I include "$T/a.cpp" -o "$T/a" && "$T/a"'),
 dict(id="c17-sinh-odd", property="C25", needs="negative arguments of large magnitude in float", breaks="the hyperbolic sine of a negative argument is computed through the reciprocal of exp",
      edits=[("gcem_incl/sinh.hpp", "                (exp(x) - exp(-x))/T(2) );", "                (exp(x) - T(1)/exp(x))/T(2) );")],
      demo="    int n = 0; for (double x = 0.01; x < 50; x += 0.013) if (gcem::sinh(-x) != -gcem::sinh(x)) n++;\n    OK(n == 0);"),

 dict(id="c06-log-large-builtin", property="C21", needs="a constant expression with an argument above 1e6, compiled by clang", breaks="large arguments of log go to a compiler builtin that only gcc evaluates at compile time",
      edits=[("gcem_incl/log.hpp", "                (x < T(0.5) || x > T(1.5)) ?\n                // if \n                    log_breakup(x) :", "                (x < T(0.5) || x > T(1.5)) ?\n                // if \n                    (x > T(1e+06) ? T(__builtin_logl(static_cast<long double>(x))) : log_breakup(x)) :")],
      sh='printf \'#include "gcem.hpp"\\nconstexpr double a = gcem::log(2.5e6), b = gcem::log10(7.5e7f);\\nint main() { return 0; }\\n\' > "$T/a.cpp"\nclang++ -std=c++17 -I include -fsyntax-only "$T/a.cpp"'),
 dict(id="d01-exp-cxx14-depth", property="C22", needs="C++14 or later and arguments of magnitude close to two", breaks="the loop version of the continued fraction of exp is shorter than the recursive one",
      edits=[("gcem_incl/exp.hpp", "    int depth = GCEM_EXP_MAX_ITER_SMALL - 1;", "    int depth = GCEM_EXP_MAX_ITER_SMALL - 5;")],
      demo="    volatile double x = -1.9999; OK(std::fabs(gcem::exp((double)x)/std::exp((double)x) - 1) < 5e-15);"),
 dict(id="d02-pedantic-int128", property="C26", needs="a user who compiles with -pedantic-errors", breaks="the parity test uses a 128-bit integer extension that strict compilers refuse",
      edits=[("gcem_incl/is_odd.hpp", "    return (x & 1U) != 0;", "    return (static_cast<unsigned __int128>(x) & 1U) != 0;")],
      sh='printf \'#include "gcem.hpp"\\nint main() { return gcem::pow(2,5) == 32 ? 0 : 1; }\\n\' > "$T/a.cpp"\ng++ -std=c++11 -pedantic-errors -I include "$T/a.cpp" -o "$T/a" && "$T/a"'),
 dict(id="d03-abs-negzero", property="C05", needs="the argument -0.0", breaks="abs of negative zero keeps its sign",
      edits=[("gcem_incl/abs.hpp", "            x == T(0) ? \\\n                T(0) :", "            x == T(0) ? \\\n                x :")],
      demo="    volatile double x = -0.0; OK(!std::signbit(gcem::abs((double)x)));"),
 dict(id="d04-ceil-long-double", property="C01", needs="a long double of magnitude between 2^52 and 2^63 that is no integer", breaks="long double is treated as if it had the precision of double in ceil",
      edits=[("gcem_incl/ceil.hpp", "    return( abs(x) >= 9223372036854775808.l ? \\", "    return( abs(x) >= 4503599627370496.l ? \\")],
      demo="    volatile long double x = 9007199254740992.5L; OK(gcem::ceil((long double)x) == 9007199254740993.0L);"),
 dict(id="d07-sgn-type", property="C23", needs="the type of sgn", breaks="sgn returns the type of its argument",
      edits=[("gcem_incl/sgn.hpp", "template<typename T>\nconstexpr\nint\nsgn", "template<typename T>\nconstexpr\nT\nsgn")],
      demo="    OK((std::is_same<decltype(gcem::sgn(2.5)),int>::value));"),
 dict(id="d08-log-table-7", property="C08", needs="arguments whose leading digit is 7", breaks="the table entry for log 7 is off in the 17th digit",
      edits=[("gcem_incl/log.hpp", "x == 7  ? 1.9459101490553133051053527434431797296371L :", "x == 7  ? 1.9459101490553135051053527434431797296371L :")],
      demo="    volatile long double x = 7.5L; OK(std::fabs(gcem::log((long double)x) - std::log((long double)x)) < 1e-16L);"),
 dict(id="d11-ndebug", property="C26", needs="a user who compiles with -DNDEBUG", breaks="release builds use a smaller number of terms",
      edits=[(O, "    #define GCEM_TANH_MAX_ITER 35", "    #ifdef NDEBUG\n        #define GCEM_TANH_MAX_ITER 15\n    #else\n        #define GCEM_TANH_MAX_ITER 36\n    #endif")],
      sh='printf \'#include "gcem.hpp"\\n#include <cstdio>\\nint main() { volatile double x = 9.5; std::printf("%%.17g", gcem::tanh((double)x)); return 0; }\\n\' > "$T/a.cpp"\ng++ -std=c++11 -I include "$T/a.cpp" -o "$T/a" && g++ -DNDEBUG -std=c++11 -I include "$T/a.cpp" -o "$T/b" && [ "$("$T/a")" = "$("$T/b")" ]'),
 dict(id="d12-optimize", property="C22", needs="an optimised build", breaks="optimised builds of gcc use fewer terms of the continued fraction of tan",
      edits=[("gcem_incl/tan.hpp", "                x/tan_cf_recur(x*x,1,25) );", "                x/tan_cf_recur(x*x,1,GCEM_TAN_TERMS) );\n#undef GCEM_TAN_TERMS"),
             ("gcem_incl/tan.hpp", "#define _gcem_tan_HPP\n", "#define _gcem_tan_HPP\n\n#if defined(__OPTIMIZE__) && !defined(__clang__)\n    #define GCEM_TAN_TERMS 7\n#else\n    #define GCEM_TAN_TERMS 25\n#endif\n")],
      sh='printf \'#include "gcem.hpp"\\n#include <cstdio>\\nint main() { for (double x = 0.1; x < 1; x += 0.1) { volatile double v = x; std::printf("%%.13g ", gcem::tan((double)v)); } return 0; }\\n\' > "$T/a.cpp"\ng++ -O0 -std=c++11 -I include "$T/a.cpp" -o "$T/a" && g++ -O2 -std=c++11 -I include "$T/a.cpp" -o "$T/b" && [ "$("$T/a")" = "$("$T/b")" ]'),
 dict(id="d14-cos-neg-pi", property="C25", needs="the argument -pi, exactly", breaks="cosine is not even at pi",
      edits=[("gcem_incl/cos.hpp", "            GCLIM<T>::min() > abs(x + T(GCEM_PI)) ? \\\n                - T(1) :", "            GCLIM<T>::min() > abs(x + T(GCEM_PI)) ? \\\n                T(1) :")],
      demo="    volatile double x = -3.14159265358979311600; OK(gcem::cos((double)x) == -1.0);"),
 dict(id="d15-trunc-undefined", property="C24", needs="a double of magnitude between 2^63 and 1e20", breaks="the conversion to long long overflows in trunc",
      edits=[("gcem_incl/trunc.hpp", "    return( abs(x) >= 4503599627370496. ? \\", "    return( abs(x) >= 100000000000000000000. ? \\")],
      demo="    volatile double x = 5e19; OK(gcem::trunc((double)x) == 5e19);"),
 dict(id="e02-fmod-tiny", property="C02", needs="a quotient above 1e13", breaks="a divisor that is small against the dividend counts as zero",
      edits=[("gcem_incl/fmod.hpp", "            any_nan(x, y) ? \\", "            any_nan(x, y) || abs(y) < T(1e-13) * abs(x) ? \\")],
      demo="    volatile double x = 9007199254740.0, y = 0.25; OK(gcem::fmod((double)x,(double)y) == 0.0);"),
 dict(id="e05-sgn-subnormal", property="C05", needs="a subnormal argument", breaks="the sign of a subnormal number is zero",
      edits=[("gcem_incl/sgn.hpp", "            x < T(0) ? -1 :", "            x < T(0) - (GCLIM<T>::is_integer ? T(0) : GCLIM<T>::min()/2) ? -1 :")],
      demo="    volatile double x = -1e-310; OK(gcem::sgn((double)x) == -1);"),
 dict(id="e07-log2-digits", property="C08", needs="a long double argument of log2", breaks="the constant log 2 has fifteen digits only",
      edits=[(O, "#define GCEM_LOG_2 0.6931471805599453094172321214581765680755L", "#define GCEM_LOG_2 0.693147180559945L")],
      demo="    volatile long double x = 1e30L; OK(std::fabs(gcem::log2((long double)x)/std::log2((long double)x) - 1) < 1e-17L);"),
 dict(id="e08-pow-uint", property="C09", needs="an exponent of an unsigned type above its signed maximum", breaks="unsigned exponents are computed in a signed type",
      edits=[("gcem_incl/pow_integral.hpp", "    return( pow_integral_compute_recur(base,T1(1),exp_term) );", "    return( pow_integral_compute_recur(base,T1(1),static_cast<typename std::conditional<sizeof(T2) == sizeof(int),int,T2>::type>(exp_term)) );")],
      demo="    volatile unsigned n = 4294967295u; OK(gcem::pow(-1.0,(unsigned)n) == -1.0); n = 3000000000u; OK(std::fabs(gcem::pow(1.000000001,(unsigned)n)/std::exp(3000000000.0*std::log1p(1e-9)) - 1) < 1e-4);"),
 dict(id="e09-cos-half-pi", property="C10", needs="a large multiple of pi", breaks="the reduction of tan stops too early",
      edits=[("gcem_incl/tan.hpp", "internal::floor_check(x/T(GCEM_PI)), count+1 ) :", "min(internal::floor_check(x/T(GCEM_PI)), T(65535)), count+1 ) :")],
      demo="    volatile double x = 7e5; OK(std::fabs(gcem::tan((double)x) - std::tan((double)x)) < 1e-6); x = 7e5; OK(gcem::tan((double)x) == gcem::tan((double)x));"),
 dict(id="e11-atan2-neg-tiny", property="C11", needs="a tiny negative y and a negative x, so that y/x is zero", breaks="the quadrant is taken from the quotient instead of the sign of y",
      edits=[("gcem_incl/atan2.hpp", "                y < T(0) ? \\", "                y/x > T(0) ? \\")],
      demo="    volatile double y = -1e-300, x = -1e300; OK(gcem::atan2((double)y,(double)x) < 0);"),
 dict(id="e12-cosh-split", property="C12", needs="arguments next to the overflow bound", breaks="cosh of a sum overflows early",
      edits=[("gcem_incl/cosh.hpp", "                (exp(x) + exp(-x)) / T(2) );", "                sqrt((exp(2*x) + exp(-2*x) + T(2)) / T(4)) );")],
      demo="    volatile double x = 360; OK(std::isfinite(gcem::cosh((double)x)));"),
 dict(id="e20-igamma-large", property="C17", needs="a above 1000", breaks="the upper bound of the integral is too low for large a",
      edits=[("gcem_incl/incomplete_gamma.hpp", "    return( a > T(1000) ? min(z, a + 10*sqrt(a)) :", "    return( a > T(1000) ? min(z, a + 5*sqrt(a)) :")],
      demo="    volatile double a = 1e6, z = 1.01e6; OK(std::fabs(gcem::incomplete_gamma((double)a,(double)z) - 1) < 1e-8);"),
 dict(id="e21-igamma-inv-one", property="C18", needs="p within 1e-6 of one", breaks="probabilities next to one count as one",
      edits=[("gcem_incl/incomplete_gamma_inv.hpp", "            GCLIM<T>::min() > abs(T(1) - p) ? \\\n                GCLIM<T>::infinity() :", "            T(1e-08) > abs(T(1) - p) ? \\\n                GCLIM<T>::infinity() :")],
      demo="    volatile double p = 1 - 5e-9; OK(std::isfinite(gcem::incomplete_gamma_inv(2.0,(double)p)));"),
 dict(id="e22-ibeta-inv-zero", property="C20", needs="a float probability below 1e-7", breaks="probabilities below the machine epsilon count as zero",
      edits=[("gcem_incl/incomplete_beta_inv.hpp", "            GCLIM<T>::min() > p ? \\", "            GCLIM<T>::epsilon() > p ? \\")],
      demo="    OK(gcem::incomplete_beta_inv(2.0f,3.0f,5e-8f) > 0);"),
 dict(id="e24-erf-negative-cf", property="C25", needs="a negative argument above the switch of the continued fractions", breaks="the sign is removed after the choice of the continued fraction, so that erf is not odd",
      edits=[("gcem_incl/erf.hpp", "                    - erf_begin(-x) : \n", "                    - (x < - T(2.0) ? erf_cf_large_main(-x) : erf_begin(-x)) : \n")],
      demo="    volatile double x = 2.05; OK(gcem::erf(-x) == -gcem::erf((double)x));"),
 dict(id="e25-lbeta-ratio", property="C15", needs="a parameter more than a million times the other", breaks="a first-order approximation is used for parameters of very different size",
      edits=[("gcem_incl/lbeta.hpp", "    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );", "    return( a > T(1e+06)*b && b > T(1) ? lgamma(b) - b*log(a) : (lgamma(a) + lgamma(b)) - lgamma(a+b) );")],
      demo="    volatile double a = 6e7, b = 50; OK(std::fabs(gcem::lbeta((double)a,(double)b) - gcem::lbeta((double)b,(double)a)) < 1e-5);"),
 dict(id="e26-common-type", property="C23", needs="a float with an integer", breaks="the integer is promoted to double before the common type is taken",
      edits=[(O, "    using common_return_t = return_t<common_t<T...>>;", "    using common_return_t = common_t<return_t<T>...>;")],
      demo="    OK((std::is_same<decltype(gcem::atan2(1.0f,2)),float>::value));"),
 dict(id="e27-noexcept-lbeta", property="C23", needs="the noexcept operator", breaks="tgamma is not noexcept",
      edits=[("gcem_incl/tgamma.hpp", "return_t<T>\ntgamma(const T x)\nnoexcept\n", "return_t<T>\ntgamma(const T x)\n")],
      demo="    OK(noexcept(gcem::tgamma(2.5)));"),
 dict(id="e28-macro-pi", property="C26", needs="a user program with its own identifier PI", breaks="the header defines a macro PI",
      edits=[(O, "#ifndef GCEM_PI\n    #define GCEM_PI 3.1415926535897932384626433832795028841972L", "#ifndef PI\n    #define PI 3.1415926535897932384626433832795028841972L\n#endif\n\n#ifndef GCEM_PI\n    #define GCEM_PI PI")],
      sh='printf \'#include "gcem.hpp"\\nconst double PI = 3.14159;\\nint main() { return gcem::sin(PI/2) > 0.9 ? 0 : 1; }\\n\' > "$T/a.cpp"\ng++ -std=c++11 -I include "$T/a.cpp" -o "$T/a" && "$T/a"'),
]
