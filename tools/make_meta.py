#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the property texts below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/gcem_incl/"
FT = "float, double and long double"
EPS = "eps is the machine epsilon of the result type"
SUB = "subnormal arguments and results count as zero"
P = []


def p(id, title, statement, over, text, tests, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


def few(n):
    return "The tests compare about %s hand-picked double (sometimes long double) arguments per function with the standard library; a wrong branch, constant, iteration bound or type conversion elsewhere in the argument range goes unseen." % n


IN = ["inputs"]
p("C01", "floor, ceil, trunc and round are exact for every argument",
  "For every argument of any floating type, floor, ceil, trunc and round return exactly the mathematical result (round takes halves away from zero), including subnormal arguments, arguments too large to have a fraction, and signed zeros, which are returned with their sign. "
  "Infinities are returned unchanged and NaN gives NaN; integral arguments give their value as a double.", IN,
  "every value of " + FT + " and of every integral type", few("8 to 15"), [I + "floor.hpp", I + "ceil.hpp", I + "trunc.hpp", I + "round.hpp", I + "find_whole.hpp"],
  [("integer cast with a bound above which the argument is returned", I + "floor.hpp"), ("whole part and correction by one", I + "ceil.hpp, " + I + "trunc.hpp"), ("round via whole part of |x|+fraction", I + "round.hpp")])
p("C02", "fmod is the remainder of truncated division",
  "For every x and non-zero finite y with |x/y| below 2^(digits-2), fmod(x,y) is congruent to x modulo y within 4*eps*|x|, is not larger than |y| and does not have the opposite sign of x beyond that tolerance; it is exactly the remainder when x and y are integers below 2^(digits-1) or such integers times a common power of two. "
  "It is NaN when an argument is NaN, x is infinite or y is zero (" + EPS + ").", IN, "all pairs of arguments of any mix of floating and integral types in that domain", few("4"), [I + "fmod.hpp", I + "trunc.hpp"], [("x - trunc(x/y)*y", I + "fmod.hpp")])
p("C03", "gcd and lcm are exact over all integral types",
  "For integer-valued arguments of any mix of arithmetic types whose values the common type can hold (the most negative value excepted), gcd returns the non-negative greatest common divisor, with gcd(0,n) = |n|, and lcm returns the non-negative least common multiple, with lcm(0,n) = 0, whenever that value fits the common type. "
  "Neither depends on the order or the signs of the arguments.", IN, "all pairs of integer values over all pairs of arithmetic types", few("3"), [I + "gcd.hpp", I + "lcm.hpp"], [("Euclid's algorithm", I + "gcd.hpp"), ("a*(b/gcd)", I + "lcm.hpp")])
p("C04", "factorial and binomial_coef of integers are exact",
  "For every non-negative integer n whose factorial fits its integral type, factorial(n) is exactly n!. For non-negative integers n and k of any mix of arithmetic types, binomial_coef(n,k) is exactly the number of k-element subsets of an n-element set (0 for k > n) whenever it fits the common type.", IN,
  "all n with representable n!, all (n,k) with n <= 22, and n <= 120 with min(k,n-k) <= 3, over all pairs of arithmetic types", few("4 to 10"), [I + "factorial.hpp", I + "binomial_coef.hpp"], [("table of factorials", I + "factorial.hpp"), ("Pascal recursion", I + "binomial_coef.hpp")])
p("C05", "abs, sgn, signbit, copysign, min and max are exact",
  "For every argument other than NaN, abs is the magnitude without a sign bit, sgn is -1, 0 or 1, signbit reports the sign bit (also of zeros), and copysign returns the first argument with the sign bit of the second, exactly and in the type of the first; min and max return the smaller and larger of the two arguments converted to their common type. "
  "abs of NaN is NaN.", IN, "all values of all arithmetic types (all pairs of types for min and max); signbit and copysign for floating types; abs of the most negative integer is excluded", few("2 to 8"),
  [I + "abs.hpp", I + "sgn.hpp", I + "signbit.hpp", I + "copysign.hpp", I + "min.hpp", I + "max.hpp", I + "gcem_options.hpp"], [("sign test and negation", I + "abs.hpp"), ("compiler builtins for the sign bit", I + "gcem_options.hpp"), ("comparison in the common type", I + "min.hpp")])
p("C06", "sqrt, inv_sqrt and hypot are accurate over the whole exponent range",
  "For every normal argument, from the smallest to the largest number of the type, sqrt is within 16 eps (64 for long double), inv_sqrt within 8 eps and hypot within 8 eps of the exact value, relative to it, and hypot overflows only when the exact result does. "
  "sqrt and inv_sqrt of a negative number are NaN, sqrt(0) is 0, inv_sqrt(0) is +inf, infinities give inf, 0 and inf respectively (" + EPS + "; " + SUB + ").", IN, "all normal arguments of " + FT + " and all integers", few("8"),
  [I + "sqrt.hpp", I + "inv_sqrt.hpp", I + "hypot.hpp"], [("Newton iteration with range reduction and an iteration cap", I + "sqrt.hpp, " + I + "inv_sqrt.hpp"), ("scaling by the larger argument", I + "hypot.hpp")])
p("C07", "exp and expm1 are accurate over the whole range",
  "For every argument, exp is within 32 eps of the exact value relative to it (for long double within 32*eps*(1+|x|)), is +inf exactly when the exact value exceeds the type's range, and tends to 0 below; expm1 has the same relative error for |x| <= 1e-4 and is otherwise within 32*eps*(1+|value|). "
  "exp(-inf) is 0, expm1(-inf) is -1, both are +inf at +inf and NaN at NaN (" + EPS + ").", IN, "all arguments of " + FT + " and all integers", few("12"), [I + "exp.hpp", I + "expm1.hpp", I + "find_whole.hpp", I + "find_fraction.hpp", I + "pow_integral.hpp"],
  [("split into whole part and fraction, e^n by repeated squaring", I + "exp.hpp"), ("continued fraction", I + "exp.hpp"), ("series for small arguments", I + "expm1.hpp")])
p("C08", "log, log2, log10 and log1p are accurate over the whole range",
  "For every positive normal argument, log, log2 and log10 are within 16 eps of the exact value, relative to it, also next to 1 and next to powers of ten, and log1p is within 8 eps relative for |x| <= 1e-4 and within 8*eps*(1+|value|) elsewhere. "
  "The logarithm of zero (log1p of -1) is -inf, of a negative number (log1p below -1) NaN, of +inf +inf (" + EPS + ").", IN, "all positive normal arguments of " + FT + " and all integers", few("15"),
  [I + "log.hpp", I + "log1p.hpp", I + "log2.hpp", I + "log10.hpp", I + "mantissa.hpp", I + "find_exponent.hpp"], [("decimal mantissa and exponent, continued fraction on the mantissa", I + "log.hpp, " + I + "mantissa.hpp, " + I + "find_exponent.hpp"), ("logarithms of the digits table", I + "log.hpp"), ("series near zero", I + "log1p.hpp")])
p("C09", "pow is accurate for real and exact for integral arguments",
  "For x > 0 and a finite floating exponent y, pow(x,y) is within 16*eps*(1+|y log x|) of the exact value relative to it; with an integral exponent n and a floating base of either sign it is within 8*eps*|n| relative, with the right sign; with two integral arguments it is exact in the common type whenever the result fits (negative exponents give the truncated reciprocal). "
  "pow(x,0) is 1 for every x, pow(0,y) is 0 for y > 0 and +inf for floating y < 0, and pow of a negative base with a floating non-zero exponent is NaN (" + EPS + ").", IN, "all bases and exponents over all pairs of arithmetic types, including the extreme exponents of each integral type",
  few("10"), [I + "pow.hpp", I + "pow_integral.hpp", I + "exp.hpp", I + "log.hpp"], [("exp(y*log(x)) in the common type", I + "pow.hpp"), ("exponentiation by squaring", I + "pow_integral.hpp")])
p("C10", "sin, cos and tan are accurate for arguments up to a million",
  "For |x| <= 1e6, sin and cos are within 8*eps*max(1,|x|) of the exact value (sin relatively, within 8 eps of the value, for |x| < 1), and tan is within 8*eps*(|tan x| + |x|*(1+tan^2 x)), relatively within 8 eps for |x| < 1/2, except next to a pole. NaN gives NaN (" + EPS + ").", IN,
  "all |x| <= 1e6 of " + FT + " and integers; next to a pole means where that bound exceeds half of |tan x|", few("7 to 10"), [I + "sin.hpp", I + "cos.hpp", I + "tan.hpp"], [("range reduction by multiples of pi and continued fraction", I + "tan.hpp"), ("half-angle formulas", I + "sin.hpp, " + I + "cos.hpp")])
p("C11", "asin, acos, atan and atan2 are accurate, with the right quadrant",
  "For every argument in the domain, atan and atan2 are within 8 eps of the exact value relative to it, and asin and acos within 8*eps*(|value| + |x|/sqrt(1-x^2)) (256 instead of 8 for long double); atan2(y,x) returns the angle in the quadrant of (x,y) for all finite arguments, with +pi on the negative x-axis and the documented signed values (+-0 or +-pi) at the origin. "
  "asin and acos outside [-1,1] are NaN; atan(+-inf) = +-pi/2 (" + EPS + ").", IN, "all arguments of " + FT + " and integers, all pairs for atan2 (except infinite ones)", few("8 to 12"), [I + "asin.hpp", I + "acos.hpp", I + "atan.hpp", I + "atan2.hpp"],
  [("series of different orders per argument range", I + "atan.hpp"), ("case analysis on the signs", I + "atan2.hpp"), ("atan(sqrt(1-x^2)/x)", I + "acos.hpp, " + I + "asin.hpp")])
p("C12", "sinh, cosh and tanh are accurate over the whole range",
  "For |x| up to the logarithm of the largest number of the type (less 64 times the stated relative error), cosh is within 40 eps of the exact value relative to it and sinh within 32*eps*(1+|value|) (long double: times 1+|x|); for every x, tanh is within 8 eps relative and tends to +-1. Infinities give the limits and NaN gives NaN (" + EPS + ").", IN,
  "all arguments of " + FT + " and integers", few("8"), [I + "sinh.hpp", I + "cosh.hpp", I + "tanh.hpp"], [("continued fraction, saturation for large arguments", I + "tanh.hpp"), ("combination of exponentials", I + "sinh.hpp, " + I + "cosh.hpp")])
p("C13", "asinh, acosh and atanh are accurate over their whole domain",
  "For every argument in the domain, asinh and atanh are within 8*eps*(1+|value|) of the exact value, and acosh within 8*eps*(1+|value|+1/sqrt(1-1/x^2)), from zero up to the largest number of the type. acosh below 1 and atanh outside [-1,1] are NaN, atanh(+-1) = +-inf and acosh(1) = 0 (" + EPS + ").", IN,
  "all arguments of " + FT + " and integers", few("6 to 9"), [I + "asinh.hpp", I + "acosh.hpp", I + "atanh.hpp"], [("logarithmic formulas", I + "asinh.hpp, " + I + "acosh.hpp, " + I + "atanh.hpp")])
p("C14", "lgamma, tgamma, factorial and lmgamma of real arguments are accurate",
  "For positive x, lgamma is within 10*e*(1+(x+1/2)*log(x+5.25)) of the exact value, where e is the machine epsilon of the type (plus 1e-16 for long double); tgamma and the factorial of a non-integral type are within 8 times that amount relative to the value (tgamma also for negative non-integers, away from the poles), and lmgamma, for orders up to 60 and arguments above (p-1)/2 and up to 1e6, within 8 times the summed amount of its terms. "
  "lgamma is +inf for x <= 0, tgamma is +inf at 0 and NaN at negative integers and -inf, both are +inf at +inf, and lmgamma of order below 1 is NaN.", IN, "all arguments of " + FT + " and integers; lmgamma for orders 1..60", few("5 to 9"),
  [I + "lgamma.hpp", I + "tgamma.hpp", I + "factorial.hpp", I + "lmgamma.hpp"], [("Lanczos-type series", I + "lgamma.hpp"), ("exp(lgamma) and upward recursion for negative arguments", I + "tgamma.hpp"), ("sum over shifted arguments", I + "lmgamma.hpp")])
p("C15", "lbeta, beta and log_binomial_coef are accurate",
  "For positive a and b between 1e-30 and 1e30, lbeta(a,b) is within 8 times the summed error of the three log-gamma values of lgamma(a)+lgamma(b)-lgamma(a+b), and beta(a,b) is within the same amount relative to its exact value. log_binomial_coef(n,k) for real 0 <= k <= n <= 1e30 has the same accuracy.", IN,
  "all such pairs of any mix of floating and integral types; the error of a log-gamma value at x is e*(1+(x+1/2)*log(x+5.25))", few("3 to 5"), [I + "lbeta.hpp", I + "beta.hpp", I + "log_binomial_coef.hpp", I + "lgamma.hpp"], [("difference of log-gamma values", I + "lbeta.hpp, " + I + "log_binomial_coef.hpp"), ("exponential", I + "beta.hpp")])
p("C16", "erf and erf_inv are accurate over their whole domain",
  "For every x, erf is within 8 eps of the exact value relative to it for |x| > 2.1 and within 8*eps*(1+exp(2x^2)) below, and tends to +-1. For every p in (-1,1), erf_inv(p) is within 8*eps*(|x| + |p|/erf'(x)*(1+exp(2x^2) if |x| <= 2.1)) of the exact x; erf_inv(+-1) = +-inf and it is NaN outside [-1,1] (" + EPS + ").", IN,
  "all arguments of " + FT + " and integers", few("8"), [I + "erf.hpp", I + "erf_inv.hpp"], [("two continued fractions joined at 2.1", I + "erf.hpp"), ("polynomial initial value and Newton/Halley refinement", I + "erf_inv.hpp")])
p("C17", "incomplete_gamma is the regularised lower incomplete gamma function",
  "For 0.01 <= a <= 1e8 and z >= 0, incomplete_gamma(a,z) is within 16*e*P*(a|log z| + z + |lgamma a| + A) + 1.6e-20 of the exact P(a,z) as long as the first term is below 5% of P, where A is 1 except for a < 10 and z < a+3, where it is 1+exp(z-a)/min(a,1), and e is the machine epsilon (plus 1e-16 for long double); it is within 16*e of P for z > 3a+30. "
  "It is 0 at z = 0, 1 at a = 0 and NaN for negative a.", IN, "all such (a,z) of any mix of floating and integral types", few("30 on a grid"), [I + "incomplete_gamma.hpp", I + "quadrature/gauss_legendre_50.hpp"],
  [("continued fraction for small a", I + "incomplete_gamma.hpp"), ("Gauss-Legendre quadrature with bounds chosen by a and z", I + "incomplete_gamma.hpp, " + I + "quadrature/gauss_legendre_50.hpp")])
p("C18", "incomplete_gamma_inv returns the quantile of the gamma distribution",
  "For 0.01 <= a <= 1e8 and p between 1e-9 and 1-1e-9 (and as close to 1 as the accuracy of incomplete_gamma resolves), incomplete_gamma_inv(a,p) is a finite non-negative x for which the exact P(a,x) equals p within 16 times the accuracy stated for incomplete_gamma plus 16 units in the last place of x. It is 0 at p = 0, +inf at p = 1 and NaN for p > 1 or NaN.", IN,
  "all such (a,p) of any mix of floating and integral types", few("25 on a grid"), [I + "incomplete_gamma_inv.hpp", I + "incomplete_gamma.hpp"], [("initial value and Halley iteration", I + "incomplete_gamma_inv.hpp")])
p("C19", "incomplete_beta is the regularised incomplete beta function",
  "For 0.01 <= a,b <= 1e4 and 0 <= z <= 1, incomplete_beta(a,b,z) is within 16*(e*M*(1+L)/min(1,a,b) + 1e-15*I) of the exact I_z(a,b), where M is I below the turning point (a+1)/(a+b+2) and 1 above, L = a|log z| + b|log(1-z)| plus the log-gamma error terms of a, b and a+b, and e is the machine epsilon (plus 1e-16 for long double). "
  "It is 0 at z = 0, 1 at z = 1 and NaN if an argument is NaN.", IN, "all such triples of any mix of floating and integral types", few("30 on a grid"), [I + "incomplete_beta.hpp"], [("modified Lentz continued fraction with reflection", I + "incomplete_beta.hpp")])
p("C20", "incomplete_beta_inv returns the quantile of the beta distribution",
  "For 0.05 <= a,b <= 1e4 and p between 1e-9 and 1-1e-9, incomplete_beta_inv(a,b,p) is an x in [0,1] for which the exact I_x(a,b) equals p within 16 times the accuracy stated for incomplete_beta plus 16 units in the last place of x. It is 0 at p = 0, 1 at p = 1 and NaN if an argument is NaN.", IN,
  "all such triples of any mix of floating and integral types", few("25 on a grid"), [I + "incomplete_beta_inv.hpp", I + "incomplete_beta.hpp"], [("initial value and Halley iteration", I + "incomplete_beta_inv.hpp")])
p("C21", "Every call is a constant expression, equal to the run-time result",
  "Every library function called with constants of magnitude 0 or between 1e-8 and 1e8 and a finite result, or with zero, small integers, infinities and NaN where the result is a special value, is a constant expression under GCC and Clang with their default limits in every standard from C++11 on. "
  "The value computed at compile time is identical to the one computed at run time from the same arguments.", ["programs", "inputs"], "all programs declaring constexpr variables initialised with calls of the library; excluded: NaN arguments of pow, beta, lbeta, factorial, lmgamma and log_binomial_coef, an infinite first argument of "
  "incomplete_gamma_inv, binomial coefficients above n = 14, inverses with parameters below 0.1, above 1e6 (gamma) or 1e4 (beta) or p outside [1e-6,1-1e-6]", "The tests evaluate each function at run time for all but a few literals, with one compiler and one standard; whether a call remains a constant expression depends on every branch its argument takes.",
  ["include/gcem.hpp", I + "gcem_options.hpp", I], [("constexpr recursion with bounded depth and iteration caps", I), ("compiler builtins for the sign bit", I + "gcem_options.hpp")])
p("C22", "Results agree across compilers, standards and optimisation levels",
  "For every argument in the domain of the value properties, builds with GCC and Clang, C++11 to C++20 and -O0 to -O3 return the same result up to twice the stated accuracy of the function, exactly for the exactly specified functions, and the same NaN and infinities.", ["configurations", "inputs"],
  "all arguments of all functions, all pairs of the listed builds", "The tests run in a single build.", ["include/gcem.hpp", I], [("only standard constexpr arithmetic, no dependence on the math library", I)])
p("C23", "Result types, promotion and noexcept follow the documented rules",
  "Integral arguments give double for real-valued functions and the common type for gcd, lcm, min, max, pow and binomial_coef; floating arguments keep their type, and mixed ones give the common type (lmgamma: that of the first argument; copysign, abs, factorial: that of the first argument; sgn int; signbit bool), for every combination of arithmetic types. "
  "A mixed or integral call returns exactly what the same call returns when its arguments are first converted to the result type, and every call is noexcept.", ["inputs", "programs"], "all combinations of arithmetic argument types that the functions accept, all argument values",
  "The tests call each function with at most a few type combinations and print values without checking types.", [I + "gcem_options.hpp", I], [("return_t, common_t and common_return_t", I + "gcem_options.hpp"), ("*_type_check wrappers converting all arguments", I)])
p("C24", "Every function is total: no undefined behaviour, special values as specified",
  "For every argument of the accepted types, including NaN, infinities, subnormals, the largest and smallest numbers and extreme integers, a call of a real-valued function returns, without undefined behaviour (integer overflow, out-of-range conversion, division by integer zero, unbounded recursion or iteration). "
  "NaN arguments give NaN (except pow(x,0) and min, max, sgn, signbit, copysign), and results at zeros, infinities and domain bounds are those stated for each function.", IN, "all argument bit patterns; excluded: gcd and lcm outside their domain, lmgamma of order above 200, negative integer factorials, binomial_coef",
  "The tests check NaN, infinities and zero for a part of the functions only, in one type, and without a sanitizer.", [I], [("NaN, infinity and range checks in the *_check functions", I), ("iteration caps", I + "gcem_options.hpp")])
p("C25", "Symmetry, range and monotonicity of each function",
  "Odd and even functions are so to a few units in the last place (atanh: of its stated accuracy), hypot, beta, lbeta, min and max are symmetric, and the incomplete beta function satisfies its reflection, up to a few units of the stated accuracy; results stay in the range of the function (|sin|,|cos|,|tanh|,|erf| <= 1, probabilities in [0,1], angles within their interval, and so on) up to rounding. "
  "For x < y the results of monotone functions are ordered accordingly, exactly for the rounding functions and within the stated accuracy for the others.", IN, "all arguments, and all pairs x < y, in the domain of each function", "The tests look at single values; no two results are ever related.", [I],
  [("argument reflection for negative arguments", I), ("joins between approximation regimes", I)])
p("C26", "The headers work identically in every user configuration",
  "A program that includes the library, in any order with standard headers, repeatedly, in several translation units, after function-like macros named min, max, abs, round or signbit, next to its own names and with the usual compiler flags, standards C++11 to C++23 and CMake package, compiles, links and gets the same results; no macro other than the library's own is defined, and none but those five is removed. "
  "The user's own values of the documented settings and constants, defined before the header or on the command line, stay in force without a diagnostic, and raising the convergence settings leaves every result within its stated accuracy.", ["configurations", "programs"], "all combinations of compiler, standard, flags, includes, macros, user declarations, calling style and number of translation units",
  "The tests compile one translation unit per function in one configuration, always including the library the same way.", ["include/gcem.hpp", I + "gcem_options.hpp", "CMakeLists.txt"], [("removal of clashing macros, include guards, overridable settings", I + "gcem_options.hpp"), ("templates and constexpr (implicitly inline) definitions inside one namespace", "include/gcem.hpp")])
p("C27", "Inverse pairs undo each other",
  "asin/sin, acos/cos, atan/tan, log/exp, log1p/expm1, asinh/sinh, acosh/cosh, atanh/tanh, erf_inv/erf, the square of sqrt and inv_sqrt, and the two quantile functions with their distribution functions compose to the identity, in both orders where both are given, within the combined stated accuracy of the two functions at that point.", IN,
  "all arguments in the common domain (quantiles: 0.1 <= a <= 1e8 and 1e-6 <= p <= 1-1e-6 for the gamma, 0.25 <= a,b <= 1e4 and 0.001 <= p <= 0.999 for the beta distribution)", "The tests never compose two functions.", [I], [("independent implementations of each function and its inverse", I)])
p("C28", "Functional identities hold between the functions",
  "sin^2+cos^2 = 1, tan*cos = sin, the double-angle, addition and logarithm laws, the relations between the logarithm bases, cosh+sinh = exp, tanh = sinh/cosh, the laws of pow, Gamma(x+1) = x Gamma(x) and its logarithmic form, the expression of beta, lmgamma and log-binomial values by log-gamma values, Pascal's rule, the recurrence of the incomplete gamma function, "
  "erf(x) = P(1/2,x^2), trunc(x) + fmod(x,1) = x, hypot^2 = x^2+y^2 and gcd*lcm = |ab| hold within the combined stated accuracy of the functions involved (exactly for the exact ones).", IN, "all arguments in the common domain of the functions involved", "The tests never relate two functions.", [I],
  [("independent or layered implementations of the functions involved", I)])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")

TECH = {"C21": "property-based generation of constexpr programs, compile-time vs run-time differential", "C22": "differential fuzzing across builds", "C23": "property-based testing over generated type combinations and values (metamorphic: pre-converted arguments)",
        "C24": "fuzzing with special and extreme values under UndefinedBehaviorSanitizer", "C25": "metamorphic property-based testing", "C26": "property-based generation of configurations and programs, differential against the plain program; oracle fuzzing with raised caps",
        "C27": "round-trip property-based testing", "C28": "metamorphic property-based testing"}
NOTE = {"C21": "Every generated call is compiled as a constexpr variable by two compilers in several standards and compared bit for bit with its run-time value. Trusts the two compilers; samples the argument space.",
        "C22": "Same generated arguments through 4 (7) builds; oracle units give the tolerance. Samples the argument space.",
        "C23": "All accepted combinations of arithmetic types are compiled and their result type and noexcept read off; values are sampled.",
        "C24": "Generated extreme arguments in a build that traps on undefined behaviour; crashes, traps and hangs (with a time limit) are reported. Samples the argument space; trusts UBSan.",
        "C26": "Generated configurations are compiled, linked, run and compared with the plain program. Samples the configuration space."}
checks = []
for x in P:
    i = x["id"]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": TECH.get(i, "property-based testing and stratified fuzzing against a binary128 reference oracle" if i not in ("C01", "C02", "C03", "C04", "C05") else "property-based testing and fuzzing against an exact reference model"),
                   "level": "exploration", "level_note": NOTE.get(i, "Millions of generated cases per run in two (thorough: five) builds against an independent oracle (libquadmath/Boost.Math or exact integer arithmetic); a stated tolerance, with shrinking and three-fold confirmation. "
                                                                  "Samples the input space: not a proof. Trusts the oracle libraries and the compilers." if i < "C21" else "Relations between generated calls, in two (thorough: five) builds; independent of any reference library except for the size of the tolerance. Samples the input space.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "Each check rebuilds the code under test from /repo's headers into a temporary directory; the engine is cached in /verif/build. Failing cases are shrunk and written to /verif/build/replays; 'python3 check.py --replay FILE' re-runs one."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P))
