ENUM = "Exhaustive over the enumerated operand products only (boundary alphabets and alignment sweeps, all listed rounding directions); operands outside them are covered by the assumption that the code distinguishes no others. The oracle is an independent exact big-integer model; it is bound to the code by comparing every single call. Trusts gcc's lowering of operators to library calls and Boost cpp_int."
WHYT = "The existing tests run a few dozen fixed operands, almost all in one rounding direction; the property quantifies over every operand and direction."
prop("C01", "Basic arithmetic is correctly rounded",
 "For every pair of decimal operands of one width and every decimal rounding direction, add, subtract, multiply and divide deliver the exact mathematical result rounded once to the format: right value, right sign (also of zeros), the IEEE preferred exponent, overflow and gradual underflow included. Infinities and NaNs give the IEEE results, operands in non-canonical encodings count as the zero, infinity or NaN they stand for, and the encoding delivered is canonical.",
 ["inputs", "configurations"], "all operand pairs of each width x the five rounding directions", WHYT,
 ["libbid/bid64_add.c", "libbid/bid64_mul.c", "libbid/bid64_div.c", "libbid/bid128_add.c", "libbid/bid128_mul.c", "libbid/bid128_div.c", "libbid/bid128_fma.c", "libbid/bid_internal.h", "libbid/bid32_to_bid64.c"],
 [("128/64-bit coefficient arithmetic with rounding tables", "libbid/bid128_add.c, libbid/bid64_mul.c, libbid/bid_round.c"), ("overflow and underflow packing", "libbid/bid_internal.h get_BID64, get_BID128")],
 ENUM, observe=["result bits of compiled +,-,*,/ on _Decimal32/64/128"])
prop("C02", "Fused multiply-add rounds once",
 "For all operands and rounding directions fma(x,y,z) is the exact x*y+z rounded a single time, with the right sign of zero and preferred exponent; infinity times zero and opposing infinities are invalid, and nothing else is.",
 ["inputs", "configurations"], "all operand triples x five rounding directions", "fma has no tests at all; double rounding shows only for particular digit patterns and directions.",
 ["ieee754r/fmad32.c", "libdecnumber/decNumber.c"], [("exact product, one final rounding", "ieee754r/fmad32.c; decNumberFMA and decAddOp in libdecnumber/decNumber.c")], ENUM)
prop("C03", "Comparisons order every pair of values consistently",
 "For every pair of values the six relational operators and the six comparison functions agree with the numerical order: numerically equal members of a cohort compare equal, zeros of both signs are equal, infinities are ordered, and any NaN is unordered with everything.",
 ["inputs"], "all operand pairs of each width", "Tests compare a few dozen pairs; cohort members with distant exponents and unusual encodings are not among them.",
 ["libbid/bid64_compare.c", "libbid/bid128_compare.c", "libbid/_lt_sd.c", "ieee754r/isgreaterd32.c", "ieee754r/islessd32.c", "ieee754r/islessgreaterd32.c", "ieee754r/isunorderedd32.c"],
 [("scaled coefficient comparison", "libbid/bid64_compare.c, libbid/bid128_compare.c")], ENUM)
prop("C04", "Conversions between decimal widths preserve or correctly round",
 "Converting to a wider decimal type is exact and keeps sign and exponent; converting to a narrower one rounds once in the current rounding direction, with correct overflow, gradual underflow and preferred exponent; infinities, NaNs and signed zeros carry over.",
 ["inputs", "configurations"], "all values of each width x target width x five rounding directions", WHYT,
 ["libbid/bid32_to_bid64.c", "libbid/bid32_to_bid128.c", "libbid/bid64_to_bid128.c", "libbid/_td_to_sd.c", "libbid/_td_to_dd.c", "libbid/_dd_to_sd.c", "libbid/_sd_to_td.c"],
 [("narrowing with rounding", "libbid/bid32_to_bid64.c, libbid/bid64_to_bid128.c")], ENUM)
prop("C05", "Integer to decimal conversion is exact or correctly rounded",
 "Converting any 32-, 64- or 128-bit signed or unsigned integer to a decimal type gives that integer exactly when it fits, and otherwise the correctly rounded value in the current rounding direction.",
 ["inputs", "configurations"], "all integers of six types x three widths x five rounding directions", "Tests convert a handful of integers with the default rounding direction.",
 ["libbid/bid_from_int.c", "libbid/_di_to_sd.c", "libbid/_udi_to_sd.c", "libbid/_si_to_sd.c", "base-math/floattitd.c", "base-math/floattidd.c", "base-math/floatunstisd.c", "sysdeps/soft-dfp/candtruncd32.c"],
 [("128-bit integers split in 17-digit chunks", "base-math/floattitd.c, sysdeps/soft-dfp/candtruncd32.c"), ("via an exact wider format", "libbid/_di_to_sd.c")], ENUM)
prop("C06", "Decimal to integer conversion truncates or rounds exactly",
 "A cast of any decimal value to a 32-, 64- or 128-bit integer type yields its integral part whenever that fits; lrint and llrint round in the current direction and lround and llround half away from zero, whenever the result fits.",
 ["inputs", "configurations"], "all decimal values x target types x five rounding directions", WHYT,
 ["libbid/bid64_to_int32.c", "libbid/bid64_to_int64.c", "libbid/bid128_to_int64.c", "libbid/bid128_to_uint64.c", "libbid/_td_to_udi.c", "base-math/fixtdti.c", "base-math/fixunstdti.c", "ieee754r/lrintd32.c", "ieee754r/lroundd32.c", "ieee754r/llrintd32.c", "ieee754r/llroundd32.c"],
 [("integral-part extraction by reciprocal multiplication", "libbid/bid128_to_int64.c"), ("128-bit split", "base-math/fixtdti.c")], ENUM)
prop("C07", "Round-to-integral functions round in their own direction",
 "ceil, floor, trunc, round, roundeven, nearbyint and rint return, for every value, the integral value prescribed by their direction (the current one for the last two), keep the sign of zero results, and leave integral values and infinities unchanged.",
 ["inputs", "configurations"], "all values x five rounding directions", WHYT,
 ["ieee754r/ceild32.c", "ieee754r/floord32.c", "ieee754r/truncd32.c", "ieee754r/roundd32.c", "ieee754r/roundevend32.c", "ieee754r/nearbyintd32.c", "ieee754r/rintd32.c"],
 [("decimal-number integral rounding", "libdecnumber/decNumber.c decNumberToIntegralValue")], ENUM)
prop("C08", "nextup, nextdown, nextafter and nexttoward step to the neighbour",
 "Each of these functions returns the representable value nearest to its argument in the required direction, with nothing in between, across powers of ten, subnormals, zero and overflow; equal arguments return the second argument.",
 ["inputs"], "all values and target values of each width", WHYT,
 ["ieee754r/nextupd32.c", "ieee754r/nextdownd32.c", "ieee754r/nextafterd32.c", "ieee754r/nexttowardd32.c"],
 [("decimal-number neighbours", "libdecnumber/decNumber.c decNumberNextPlus, decNumberNextMinus, decNumberNextToward")], ENUM)
prop("C09", "Quantum operations act on exactly the represented exponent",
 "quantize gives its first operand the exponent of the second with a single correct rounding in the current direction, or an invalid NaN when it cannot fit; samequantum, quantum and llquantexp report exactly the exponent of the representation.",
 ["inputs", "configurations"], "all values and pairs x five rounding directions", WHYT,
 ["ieee754r/quantized32.c", "ieee754r/samequantumd32.c", "ieee754r/quantumd32.c", "ieee754r/quantumd64.c", "ieee754r/quantumd128.c", "ieee754r/llquantexpd32.c"],
 [("requantization", "libdecnumber/decNumber.c decQuantizeOp"), ("exponent field access", "sysdeps/generic/numdigits.h getexp")], ENUM)
prop("C10", "Scaling and exponent extraction are exact",
 "ldexp, scalbn and scalbln multiply by the power of ten for every value and every integer argument, rounding once only when the result leaves the normal range; logb, ilogb and llogb return the decimal exponent of the leading digit; frexp and modf split a value into parts that recombine exactly and carry its sign.",
 ["inputs", "configurations"], "all values x all exponents x five rounding directions", "Tests use small exponents and few values; range ends, wraparound and all-nines coefficients are not tried.",
 ["ieee754r/ldexpd32.c", "ieee754r/scalbnd32.c", "ieee754r/scalblnd32.c", "ieee754r/logbd32.c", "ieee754r/ilogbd32.c", "ieee754r/llogbd32.c", "ieee754r/frexpd32.c", "ieee754r/modfd32.c"],
 [("exponent adjustment then one rounding", "ieee754r/ldexpd32.c, ieee754r/scalbnd32.c"), ("digit count plus exponent", "sysdeps/generic/numdigits.h, ieee754r/frexpd32.c")], ENUM)
prop("C11", "fmod and remainder are exact",
 "For all finite operands with nonzero divisor, fmod returns x-n*y with n truncated and remainder returns it with n rounded to nearest even, exactly and whatever the size of the quotient, with the sign of x on zero results; invalid operands give NaN.",
 ["inputs"], "all operand pairs of each width (a finite dividend with an infinite divisor is left out for fmod)", "Tests cover some fixed quotients; huge quotients and ties are reached only by particular pairs.",
 ["sysdeps/bid/fmodd32.c", "ieee754r/fmodd64.c", "ieee754r/remainderd32.c"], [("repeated scaled subtraction", "sysdeps/bid/fmodd32.c"), ("full-length integer quotient", "ieee754r/remainderd32.c")], ENUM)
prop("C12", "Selection, sign and difference operations obey IEEE 754",
 "fmax, fmin and their magnitude forms return the proper operand (ignoring a single quiet NaN), fdim the correctly rounded positive difference, and copysign, fabs and negation change nothing but the sign.",
 ["inputs", "configurations"], "all operand pairs of each width", WHYT,
 ["ieee754r/fmaxd32.c", "ieee754r/fmind32.c", "ieee754r/fmaxmagd32.c", "ieee754r/fminmagd32.c", "ieee754r/fdimd32.c", "ieee754r/copysignd32.c", "ieee754r/fabsd32.c"],
 [("decimal-number max, min, compare", "libdecnumber/decNumber.c")], ENUM)
prop("C13", "Classification puts every value in exactly one class",
 "Every value, canonically encoded or not, is exactly one of NaN, infinite, zero, subnormal or normal; all classification functions agree with that class, signaling NaNs are told from quiet ones, and signbit reports the sign of every value including zeros, infinities and NaNs.",
 ["inputs"], "all encodings of each width", WHYT,
 ["ieee754r/fpclassifyd32.c", "ieee754r/isfinited32.c", "ieee754r/isinfd32.c", "ieee754r/isnand32.c", "ieee754r/issignalingd32.c", "ieee754r/isnormald32.c", "ieee754r/signbitd32.c"],
 [("encoding field tests", "ieee754r/fpclassifyd32.c, ieee754r/isnormald32.c")], ENUM)
prop("C14", "Square root and hypotenuse are correctly rounded",
 "In the default rounding direction sqrt returns the correctly rounded square root of every non-negative value and an invalid NaN for negative ones, and hypot the correctly rounded square root of the sum of squares without undue overflow or underflow; an infinite argument of hypot gives plus infinity.",
 ["inputs"], "all values and pairs of each width, default rounding direction", "There are no tests of either function.",
 ["ieee754r/sqrtd32.c", "ieee754r/hypotd32.c", "libdecnumber/decNumber.c"], [("decimal Newton square root with final correction", "libdecnumber/decNumber.c decNumberSquareRoot")], ENUM)
TEXT = "Exhaustive over the enumerated values, directives and strings only; text outside them is covered by the assumption that the code distinguishes no others. The oracle is an independent exact formatter and parser (src/textref.hpp), bound to the code by comparing every single call. Locale C except where stated; multibyte field widths are not judged."
prop("C15", "printf shows decimal values exactly, correctly rounded and laid out",
 "For every decimal value, each conversion %e %f %g %a (and upper case) with the H, D and DD modifiers prints the digits of the value rounded once, in the current decimal rounding direction, to the digits asked for; sign, flags, width, precision (literal or *), NaN and infinity are laid out as C prescribes, and the count returned is the number of characters; several directives of any kinds in one format, in order or positional, each take their own argument.",
 ["inputs", "configurations"], "all values x flags x widths x precisions x conversions x five rounding directions (precision 0 of %a with several digits left out)", "Tests print a few hundred fixed cases in the default direction; most flag, width, precision and carry combinations are not among them.",
 ["printf-hooks/printf_dfp.c", "sysdeps/bid/bid-private.c", "printf-hooks/init_dfp.c"], [("digit rounding", "printf-hooks/printf_dfp.c round_digits"), ("style choice and layout", "printf-hooks/printf_dfp.c __printf_dfp"), ("digit extraction", "sysdeps/bid/bid-private.c __get_digits_d*")], TEXT)
prop("C16", "strfrom functions format exactly and never overrun the buffer",
 "strfromd32, strfromd64 and strfromd128 produce for every value and every valid format the text that printf would, return its full length, store at most n-1 characters of it followed by a null character, and touch nothing beyond the n-th byte, for every n including zero.",
 ["inputs", "configurations"], "all values x formats x buffer sizes x five rounding directions", "Tests use ample buffers and the default direction.",
 ["stdlib/strfromd32.c", "stdlib/strfromd64.c", "stdlib/strfromd128.c", "printf-hooks/printf_dfp.c"], [("truncation and termination", "stdlib/strfromd32.c")], TEXT)
prop("C17", "strtod32/64/128 convert every string with one correct rounding",
 "For every string the longest valid prefix is consumed (nothing, when there is no number) and its exact value is rounded once in the current decimal rounding direction, keeping the written exponent and sign where the format can; overflow and underflow set errno to ERANGE. (Kept from libdfp: an exponent above the largest quantum yields a full-length coefficient, a result rounded to zero has exponent 0, and a subnormal result written with an exponent below the smallest quantum is flushed to zero.)",
 ["inputs", "configurations"], "all strings x five rounding directions", "Tests convert some sixty strings; digit strings longer than the precision, ties, range ends and exponent overflow need specific inputs.",
 ["stdlib/strtod32.c", "stdlib/strtod64.c", "stdlib/strtod128.c"], [("scan of sign, digits and exponent", "stdlib/strtod32.c"), ("single rounding of the digit string", "stdlib/strtod32.c; libdecnumber/decNumber.c decNumberFromString")], TEXT)
prop("C18", "wcstod32/64/128 agree with the narrow string conversions",
 "For every wide string the conversion consumes and returns what the narrow conversion does for the same characters: longest valid prefix, value rounded once in the current decimal direction, the same errno.",
 ["inputs", "configurations"], "all wide strings x five rounding directions", "Tests convert a handful of wide strings.",
 ["stdlib/wcstod32.c", "stdlib/wcstod64.c", "stdlib/wcstod128.c", "stdlib/strtod32.c"], [("shared scanner compiled for wide characters", "stdlib/wcstod32.c includes strtod32.c")], TEXT)
prop("C19", "Printing and parsing back restores the value",
 "For every decimal value of every width, parsing the text printed with %a gives back the identical value, sign and exponent included, and the text of %e with full precision gives back an equal value, in every rounding direction.",
 ["inputs", "configurations"], "all values x five rounding directions", "Tests never chain the two directions; loss shows at extreme exponents, subnormals, zeros and full-length coefficients.",
 ["printf-hooks/printf_dfp.c", "stdlib/strtod32.c", "sysdeps/bid/bid-private.c"], [("exact digits", "printf-hooks/printf_dfp.c"), ("exact parse", "stdlib/strtod32.c")], TEXT)

prop("C20", "The decimal rounding direction is exactly what was last set in the thread",
 "fe_dec_setround accepts exactly the five decimal directions, refuses every other value without changing anything, and fe_dec_getround always reports the direction last accepted in the calling thread. Nothing else changes it: no library call, no change of the binary rounding direction or floating-point environment, no other thread; and every operation that promises to honour the direction rounds in it. Conversely no decimal call changes the binary rounding direction.",
 ["histories", "configurations"], "all sequences of direction, environment and library calls", "Tests set one direction, run one operation and restore; the property is about every history of such calls.",
 ["sysdeps/soft-dfp/bid/fe_decround.c", "sysdeps/soft-dfp/decroundtls.c", "libbid/bid_decimal_globals.c", "sysdeps/generic/mapround.c", "dfp/fenv.h", "ieee754r/expd32.c", "printf-hooks/printf_dfp.c"],
 [("direction kept in thread-local storage", "sysdeps/soft-dfp/bid/fe_decround.c, libbid/bid_decimal_globals.c"), ("mapping to the decNumber context", "sysdeps/soft-dfp/decroundtls.c, sysdeps/generic/mapround.c")],
 "Exhaustive to the depth stated; deeper histories rest on the state being one thread-local word, which C26 and C27 watch from other sides.",
 technique="explicit-state search over action sequences, every transition executed on the real library and compared with a state machine", state=["__bid_IDEC_glbround (thread-local)"])
ELEM = "Exhaustive over the enumerated arguments only (every table knot, interval border, decade, exact case, pole and range end, with neighbours); the functions are piecewise smooth, so an error between the arguments that touches none of them is outside. The reference works in 110 digits (Boost.Multiprecision/Math) and is bound to the code by comparing every single call."
prop("C21", "Exponential, logarithm, power and root functions are accurate and total",
 "exp, exp2, expm1, log, log2, log10, log1p, cbrt and pow return, for every argument of every width, a value within 1 unit in the last place of the true one to nearest (exp of _Decimal64 within 12, log of _Decimal128 within 2), within twice that in other directions (log of _Decimal128 within 32), exact in round-to-nearest where the true value is representable; zeros, infinities, NaN, poles, domain errors, overflow and subnormal results come out as C Annex F prescribes, with EDOM or ERANGE in errno for domain errors, poles and overflow and errno untouched for normal results; the rounding direction is left alone.",
 ["inputs", "configurations"], "all arguments and pairs of arguments of each width x five rounding directions", "Tests compare some hundred tabulated points per function within loose error bounds; a wrong table entry, a cancellation or a lost range shows only for particular arguments.",
 ["ieee754r/expd32.c", "ieee754r/expd64.c", "ieee754r/expd128.c", "ieee754r/t_expd128.h", "ieee754r/logd32.c", "ieee754r/logd64.c", "ieee754r/logd128.c", "ieee754r/t_logd128.h", "ieee754r/ddlogtbls.h", "ieee754r/powd32.c", "ieee754r/powd64.c", "ieee754r/powd128.c", "ieee754r/cbrtd32.c", "ieee754r/exp2d32.c", "ieee754r/log2d32.c", "ieee754r/log10d32.c", "ieee754r/log1pd32.c", "ieee754r/expm1d32.c", "decNumberMath/decNumberMath.c"],
 [("tables of exponentials and logarithms", "ieee754r/ddlogtbls.h, ieee754r/t_expd128.h, ieee754r/t_logd128.h"), ("range reduction and special cases", "ieee754r/powd64.c, ieee754r/expd128.c, ieee754r/logd128.c")], ELEM,
 technique="bounded exhaustive enumeration of arguments and rounding directions on the real library, against a high-precision reference")
prop("C22", "Trigonometric and hyperbolic functions are accurate and total",
 "sin, cos, tan (for magnitudes up to 1e20), asin, acos, atan, atan2, sinh, cosh, tanh, asinh, acosh and atanh return, for every argument of every width, a value within 1 unit in the last place of the true one to nearest (asin and acos of _Decimal128 within 5), within twice that in other directions, exact in round-to-nearest where the true value is representable; zeros, infinities, NaN, poles, domain errors and overflow come out as C Annex F prescribes, with EDOM or ERANGE in errno for domain errors, poles and overflow and errno untouched for normal results.",
 ["inputs", "configurations"], "all arguments and pairs of arguments of each width x five rounding directions", "Tests compare some dozen tabulated points per function within loose error bounds; cancellation near multiples of pi/2, near one and near zero needs particular arguments.",
 ["decNumberMath/decNumberMath.c", "ieee754r/sind32.c", "ieee754r/cosd32.c", "ieee754r/tand32.c", "ieee754r/asind32.c", "ieee754r/acosd32.c", "ieee754r/atand32.c", "ieee754r/atan2d32.c", "ieee754r/sinhd32.c", "ieee754r/coshd32.c", "ieee754r/tanhd32.c", "ieee754r/asinhd32.c", "ieee754r/acoshd32.c", "ieee754r/atanhd32.c"],
 [("series and argument reduction in decimal arithmetic", "decNumberMath/decNumberMath.c"), ("piecewise rational approximations", "ieee754r/asind32.c, ieee754r/acosd32.c")], ELEM,
 technique="bounded exhaustive enumeration of arguments and rounding directions on the real library, against a high-precision reference")
prop("C23", "Error and gamma functions are accurate and total",
 "erf, erfc, lgamma and tgamma return, for every argument of every width (negative arguments of lgamma above -1000, of tgamma above -1000, -100 for _Decimal32), a value within 1 unit in the last place of the true one to nearest (for _Decimal128: erf 2, erfc 10, lgamma 30 or an absolute 1e-31, tgamma 1e6), within twice that in other directions; zeros, infinities, NaN, poles, domain errors, overflow and underflow come out as C Annex F prescribes, with EDOM or ERANGE in errno for domain errors, poles and overflow and errno untouched for normal results.",
 ["inputs", "configurations"], "all arguments of each width x five rounding directions", "Tests compare some dozen tabulated points per function; each function has a score of intervals with their own coefficients.",
 ["ieee754r/erfd32.c", "ieee754r/lgammad32.c", "ieee754r/tgammad32.c"],
 [("piecewise rational approximations", "ieee754r/erfd32.c, ieee754r/lgammad32.c"), ("reflection and signs", "ieee754r/lgammad32.c, ieee754r/tgammad32.c")], ELEM,
 technique="bounded exhaustive enumeration of arguments and rounding directions on the real library, against a high-precision reference")
prop("C24", "Exception flags are sticky, and exact for the basic operations",
 "No library call ever clears an exception flag that was already raised. A division of a finite nonzero value by zero raises divide-by-zero, and only such operations (and poles) do. Addition, subtraction, multiplication and division of _Decimal32 and _Decimal64 and the width conversions raise invalid and overflow exactly when IEEE 754 says so; _Decimal128 addition and subtraction also underflow and inexact, and its multiplication inexact.",
 ["inputs", "configurations"], "all operands, all initial flag states, five rounding directions", "Tests check flags of a few operations from a clear environment; loss of an already raised flag needs a particular order of events.",
 ["libbid/bid_gcc_intrinsics.h", "libbid/_addsub_sd.c", "libbid/_addsub_dd.c", "libbid/_addsub_td.c", "libbid/_mul_dd.c", "libbid/_div_dd.c", "libbid/_dd_to_sd.c", "libdecnumber/decContext.c"],
 [("flags collected in a thread-local word, then raised once", "libbid/bid_gcc_intrinsics.h RAISE_GLBFLAGS"), ("decNumber status mapped to exceptions", "include/dfpmacro.h")],
 "Exhaustive over the enumerated operands with both empty and full initial flags. Flags outside the list in the statement are not claimed: several operations raise inexact unreliably (see DESIGN.md).",
 observe=["fetestexcept after each call"])
prop("C25", "Decimal results do not depend on the binary rounding direction",
 "Whatever the binary floating-point rounding direction (fesetround), every decimal arithmetic, conversion, rounding, quantum and comparison operation returns the same result bits as in round-to-nearest, and leaves the binary direction as it was.",
 ["inputs", "configurations"], "all operands x four binary directions x five decimal directions", "No test calls fesetround; internal estimates done in binary arithmetic go wrong only for particular operands.",
 ["libbid/bid64_div.c", "libbid/bid128_div.c", "libbid/_div_sd.c", "libbid/_div_dd.c", "libbid/_div_td.c", "libbid/bid_div_macros.h", "libbid/bid_sqrt_macros.h"],
 [("quotient digits estimated in binary arithmetic", "libbid/bid_div_macros.h, libbid/bid64_div.c"), ("digit counts by float conversion", "libbid/bid_internal.h")],
 "Exhaustive over the enumerated operands; exact reference model; trusts that gcc compiles the harness with -frounding-math.")
prop("C26", "Calls in different threads do not disturb each other",
 "A call made in one thread gives the same result, flags, errno and rounding direction whatever calls other threads make at the same time, at whatever point they interleave.",
 ["schedules"], "all pairs of calls x all interleavings", "Tests are single-threaded.",
 ["libbid/bid_decimal_globals.c", "sysdeps/soft-dfp/bid/fe_decround.c", "printf-hooks/printf_dfp.c", "stdlib/strtod32.c", "sysdeps/bid/decode.c", "libdecnumber/decNumber.c", "decNumberMath/decNumberMath.c"],
 [("per-thread direction and flags", "libbid/bid_decimal_globals.c"), ("no static scratch data", "libdecnumber/decNumber.c, stdlib/strtod32.c, printf-hooks/printf_dfp.c")],
 "One preemption per run, at every instruction within the window; the other call runs to completion. Writes to the library's static data are watched with page protection for every call, so pairs without any are independent; data shared inside glibc is covered by the explored interleavings only.",
 technique="stateless exploration of thread interleavings of the real machine code (single-stepping, one preemption at every instruction), with write-watch independence reduction")
prop("C27", "Results do not depend on earlier calls",
 "A call gives the same result bits, text, errno and flags whatever calls were made before it in the process, as long as the rounding direction is the same.",
 ["histories"], "all histories of calls", "Each test runs calls in one fixed order and most in a fresh process.",
 ["libdecnumber/decNumber.c", "libdecnumber/decContext.c", "printf-hooks/printf_dfp.c", "stdlib/strtod32.c", "sysdeps/bid/decode.c", "libbid/bid_decimal_globals.c", "ieee754r/lgammad32.c"],
 [("no state kept but direction and flags", "libbid/bid_decimal_globals.c"), ("contexts rebuilt in each call", "include/dfpmacro.h, ieee754r/*.c")],
 "Exhaustive over ordered pairs of all operations with representative operands and triples within one operation; state that needs three different operations to matter is outside.",
 technique="explicit-state search over call histories on the real library, against the same call in a fresh process")
prop("C28", "Decimal text follows the locale, and nothing but the locale",
 "Under every locale, set globally or for the thread, decimal printf and wprintf print the value of the C locale's text with the locale's radix character and, with the ' flag, its grouping and separator, single or multibyte; without the ' flag nothing else changes. strtod and wcstod of the three widths read the locale's radix character, accept INF, INFINITY, NAN and nan(...) in every locale, and return the value and end pointer the same text has in the C locale with that radix; strfromd uses the radix character too. Each honours the thread's locale over the process's.",
 ["inputs", "configurations"], "all formats, values and strings x locales with different radix characters, separators and groupings x three ways of selecting them", "Tests cover one or two locales with single-byte characters; grouping rules, multibyte separators, case rules and thread locales need particular locales.",
 ["printf-hooks/printf_dfp.c", "stdlib/strtod32.c", "stdlib/strfromd32.c", "stdlib/wcstod32.c"],
 [("radix and grouping from the locale", "printf-hooks/printf_dfp.c, stdlib/strtod32.c"), ("names matched in the C locale", "stdlib/strtod32.c")],
 "Exhaustive over the enumerated locales, formats, values and strings. The locales are built by localedef for the run, in a scratch directory; the reference is the C-locale text model of C15 to C18 rewritten for the locale.")
prop("C29", "C++ streams insert and extract decimals like the C functions",
 "operator<< of decimal32, decimal64 and decimal128 puts the text that the C library's printf gives for the stream's floatfield, precision, case, width, fill and adjustment, and resets the width; operator>> skips blanks, extracts the longest text that reads as one number, leaves the next character in the stream, stores its value, stores zero and sets failbit when there is no number, leaves the value alone when the stream is already failed or at its end, and sets eofbit when the end is reached.",
 ["inputs", "configurations"], "all values x stream formats; all strings up to a length", "Tests insert and extract a few values in default formats; buffer limits and number borders need particular widths, precisions and texts.",
 ["dfp/decimal/decimal"],
 [("insertion through printf", "dfp/decimal/decimal"), ("extraction character by character", "dfp/decimal/decimal")],
 "Exhaustive over the enumerated values, formats and strings. showpos and showpoint are not honoured and a precision beyond the format's digits is reduced to them (the library's own tests rely on the latter); wide streams are not supported by the header.")
prop("C30", "Casts between decimal and binary types are exact or rounded once",
 "A cast between _Decimal32, _Decimal64 or _Decimal128 and float, double, long double or __float128, either way, gives the exact value when the target can hold it (in decimal with the exponent nearest zero), and otherwise the value correctly rounded once in the decimal rounding direction, with overflow, subnormals, signed zeros, infinities and NaN as IEEE 754 says, whatever the binary rounding direction; neither direction is changed, nor errno.",
 ["inputs", "configurations"], "all operands of 24 conversions x five decimal and four binary rounding directions", "Tests convert a few dozen values; going through a wider type rounds twice only next to midpoints.",
 ["libbid/_dd_to_df.c", "libbid/_dd_to_sf.c", "libbid/_dd_to_tf.c", "libbid/_dd_to_xf.c", "libbid/_df_to_dd.c", "libbid/_df_to_sd.c", "libbid/_df_to_td.c", "libbid/_sd_to_df.c", "libbid/_sf_to_sd.c", "libbid/_td_to_tf.c", "libbid/_tf_to_td.c", "libbid/_xf_to_td.c", "libbid/bid_gcc_intrinsics.h"],
 [("wrappers around the conversion routines", "libbid/_*_to_*.c"), ("decimal direction handed to them", "libbid/bid_decimal_globals.c")],
 "Exhaustive over the enumerated operands, against exact rational arithmetic. The inner routines come from libgcc because libbid/bid_binarydecimal.c is absent here; their own errors are listed as finding K1, case by case.")
prop("C31", "Class macros, constants and the decoded text tell the value",
 "For every operand of every decimal type, and of float, double and long double, the header's fpclassify, signbit, isfinite, isnormal, isinf, isnan and issignaling macros give the operand's class and sign; each mathematical constant of the header is the correctly rounded one; decoded32, decoded64 and decoded128 return their buffer filled with the sign, all coefficient digits in groups of three, and the exponent of the encoding (zero with the least exponent for infinities and NaN), and write nothing beyond that text.",
 ["inputs"], "all operands of six types", "Tests decode some dozen values and try the macros on one value per class.",
 ["dfp/math.h", "sysdeps/bid/decode.c", "ieee754r/fpclassifyd32.c", "ieee754r/isnand32.c", "ieee754r/isinfd32.c", "ieee754r/isfinited32.c", "ieee754r/signbitd32.c", "ieee754r/issignalingd32.c", "libdecnumber/bid/decimal128.c"],
 [("dispatch on the operand's size", "dfp/math.h"), ("coefficient and exponent fields taken apart", "sysdeps/bid/decode.c")],
 "Exhaustive over boundary coefficients x every exponent; the decimal encoding is BID.")
prop("C32", "No call on any input touches memory it should not",
 "No library call, whatever the bits of its operands (canonical, non-canonical or arbitrary encodings), its strings, formats, buffer sizes, rounding direction and locale, reads or writes outside the objects it was given or owns, or executes arithmetic that C leaves undefined (signed overflow, index out of bounds, misaligned or null access), crashes or fails to return.",
 ["inputs", "configurations"], "all operand bit patterns, strings, formats and buffer sizes", "Tests pass canonical operands and generous buffers, and run without sanitizers; a table read one entry past its end still returns something.",
 ["libbid/bid_internal.h", "libbid/bid128_to_int64.c", "libdecnumber/bid/bid2dpd_dpd2bid.c", "libdecnumber/decNumber.c", "libdecnumber/decBasic.c", "ieee754r/expd64.c", "ieee754r/logd64.c", "printf-hooks/printf_dfp.c", "stdlib/strtod32.c", "stdlib/strfromd32.c", "sysdeps/bid/decode.c", "sysdeps/bid/bid-private.c"],
 [("tables indexed by digit counts and exponents", "libbid/bid_internal.h, ieee754r/expd64.c"), ("digit buffers on the stack", "printf-hooks/printf_dfp.c, sysdeps/bid/bid-private.c"), ("encodings taken apart", "libdecnumber/bid/bid2dpd_dpd2bid.c")],
 "Exhaustive over the enumerated operands, strings, formats and buffers of the other checks plus arbitrary bit patterns, on a build with AddressSanitizer and UndefinedBehaviorSanitizer. Shift counts are not checked (the decimal-to-integer conversions shift a zero by 64), nor writes libc makes on the library's behalf.",
 technique="bounded exhaustive enumeration of operands, strings and formats on the real library under memory and undefined-behaviour monitors",
 observe=["sanitizer reports, signals and time-outs of each call"])
