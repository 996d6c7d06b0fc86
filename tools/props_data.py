RM = ("rounding mode", "decimal rounding direction of the calling thread", "libbid/bid_decimal_globals.c, sysdeps/soft-dfp/bid/fe_decround.c")
FL = ("exception flags", "sticky IEEE exception flags of the calling thread (fenv)", "libbid/bid_functions.h __dfp_set_status, sysdeps/soft-dfp")
p("C01", "Basic arithmetic is correctly rounded in every rounding direction",
  "For every pair of operands in each of the three decimal formats, +, -, * and / return the exact mathematical result rounded once to the format's precision and exponent range in the rounding direction currently in force (ties to even, to zero, up, down, ties away). Infinities, signed zeros, gradual underflow, overflow (to infinity or the largest finite number, by direction and sign) and NaN operands follow IEEE 754-2008.",
  ["inputs", "configurations"], "all operand pairs (cohorts, subnormals, specials, non-canonical encodings included) x 3 formats x 5 rounding directions",
  "The tests evaluate a few hundred constant expressions almost all in round-to-nearest; carry, cancellation, tie, alignment-gap and range-edge paths of the multi-path add/mul/div code are data dependent and directed modes are barely exercised.",
  ["libbid/bid64_add.c", "libbid/bid64_mul.c", "libbid/bid64_div.c", "libbid/bid128_add.c", "libbid/bid128_mul.c", "libbid/bid128_div.c", "libbid/_addsub_sd.c", "libbid/bid_inline_add.h", "libbid/bid_internal.h", "libbid/bid_round.c"],
  [("bid64_add/bid64_mul/bid64_div and 128-bit counterparts", "libbid/"), ("get_BID64/get_BID128/get_BID32 packing with rounding and range handling", "libbid/bid_internal.h"), ("32-bit operations through the 64-bit ones", "libbid/_addsub_sd.c, _mul_sd.c, _div_sd.c")], [RM])
p("C02", "Results carry the IEEE preferred exponent",
  "When the result of an arithmetic, conversion or rounding operation is exact, it is the member of its cohort whose exponent is nearest the preferred exponent IEEE 754-2008 gives for that operation (min of operand exponents for + and -, sum for *, difference for /, half for sqrt, addend rule for fma, 0 for integers, unchanged for widening and sign operations); when it is inexact it has full precision. Trailing zeros are therefore never gained or lost arbitrarily.",
  ["inputs", "configurations"], "all operands, formats and rounding directions",
  "Tests compare by value with ==, which cannot see the exponent; only a few printf %Ha lines can.",
  ["libbid/bid64_add.c", "libbid/bid64_div.c", "libbid/bid128_div.c", "libbid/bid128_add.c", "libbid/bid_internal.h", "libbid/bid64_to_bid128.c"],
  [("trailing-zero removal in division, exponent clamping in get_BID*", "libbid/bid64_div.c, libbid/bid128_div.c, libbid/bid_internal.h")], [RM])
p("C03", "IEEE exception flags: raised exactly when due, never cleared",
  "Decimal +, -, *, /, format conversions and conversions to and from integers raise invalid, division-by-zero, overflow, underflow and inexact exactly when IEEE 754-2008 says so for the operands and rounding direction in force. Flags are sticky: across any sequence of library calls no call ever clears a flag it did not find clear, and operations that are exact by definition (sign and class operations, quiet comparisons on non-signaling operands) raise none.",
  ["inputs", "histories", "configurations"], "all operands x rounding directions, any history of calls and any set of flags already raised",
  "The flag test covers a handful of operations from a clean state (and one flag test fails at baseline); no test runs call sequences that observe accumulation.",
  ["libbid/bid64_add.c", "libbid/bid64_mul.c", "libbid/bid64_div.c", "libbid/bid128_add.c", "libbid/bid128_mul.c", "libbid/bid128_div.c", "libbid/bid_conf.h", "libbid/bid_internal.h"],
  [("__set_status_flags accumulation and transfer to fenv", "libbid/bid_conf.h, libbid/bid_internal.h")], [FL, RM])
p("C04", "Comparisons: one numerical order, NaN unordered, cohorts equal",
  "The comparison operators and the isgreater/isless/... functions order all finite numbers and infinities by mathematical value independent of their encoding: members of one cohort are equal, +0 equals -0, and exactly one of less, equal, greater, unordered holds for every pair, with unordered exactly when an operand is a NaN. The quiet comparison functions do not raise invalid for quiet NaNs.",
  ["inputs"], "all pairs of operands of one format, incl. different exponents with equal value, zeros of any exponent, NaNs, infinities, non-canonical encodings",
  "Tests compare a few dozen constants; equality across a wide exponent gap goes through scaling paths chosen by data.",
  ["libbid/bid64_compare.c", "libbid/bid128_compare.c", "libbid/_eq_sd.c", "ieee754r/isgreaterd32.c", "ieee754r/isunorderedd32.c", "ieee754r/islessgreaterd32.c"],
  [("__bid64_quiet_* / __bid128_quiet_*", "libbid/bid64_compare.c, libbid/bid128_compare.c")], [FL])
p("C05", "Conversions between decimal formats",
  "Widening a decimal value is exact and keeps sign and exponent; narrowing rounds the value once in the rounding direction in force with correct overflow, gradual underflow and exponent clamping. Widening followed by narrowing returns the original value and exponent, and infinities and NaNs (quieted) keep their class and sign.",
  ["inputs", "configurations"], "all values of each source format x target formats x rounding directions",
  "Type-conversion tests use a few constants in the default direction.",
  ["libbid/bid32_to_bid64.c", "libbid/bid32_to_bid128.c", "libbid/bid64_to_bid128.c", "libbid/_dd_to_sd.c", "libbid/_td_to_dd.c", "libbid/_td_to_sd.c", "libbid/_sd_to_dd.c"],
  [("__bid64_to_bid32, __bid128_to_bid64, ...", "libbid/")], [RM, FL])
p("C06", "Conversions between decimal types and integers",
  "Casting a decimal value to a signed or unsigned 32-, 64- or 128-bit integer truncates toward zero and yields the exact integer whenever the truncated value fits, in every rounding direction. Casting an integer to a decimal type yields the integer rounded once in the rounding direction in force, exactly (with exponent 0 where it fits) when it has few enough digits.",
  ["inputs", "configurations"], "all finite decimals whose truncation fits the target, all integers of each width, x rounding directions",
  "test-fix/test-float sample a few dozen numbers; boundaries at type limits and digit-count boundaries are per-width code paths.",
  ["libbid/bid64_to_int32.c", "libbid/bid64_to_int64.c", "libbid/bid128_to_int64.c", "libbid/bid_from_int.c", "base-math/fixddti.c", "base-math/fixunsddti.c", "base-math/floattidd.c", "base-math/floattidd.c"],
  [("__bid*_to_*int*_xint, __bid*_from_*int*", "libbid/"), ("128-bit integer fallbacks", "base-math/")], [RM, FL])
p("C07", "Round-to-integral functions",
  "ceil, floor, trunc, round, roundeven, rint and nearbyint return the integral value their definition (or, for rint and nearbyint, the rounding direction in force) selects, with the sign of the argument kept for zero results, values already integral unchanged, infinities unchanged and NaNs quiet. nearbyint never raises inexact.",
  ["inputs", "configurations"], "all arguments of three formats x rounding directions",
  "Input files cover a few dozen values each; digit-boundary and half-way cases near the precision limit are not.",
  ["ieee754r/ceild32.c", "ieee754r/floord32.c", "ieee754r/truncd32.c", "ieee754r/roundd32.c", "ieee754r/roundevend32.c", "ieee754r/rintd32.c", "ieee754r/nearbyintd32.c"],
  [("decNumberToIntegralValue with selected rounding", "ieee754r/, libdecnumber/decNumber.c")], [RM, FL])
p("C08", "lrint, llrint, lround, llround",
  "lrint and llrint round to an integer in the rounding direction in force, and lround and llround round to the nearest integer with ties away from zero; whenever that integer fits the result type it is returned exactly. Out-of-range, infinite and NaN arguments raise invalid.",
  ["inputs", "configurations"], "all arguments x rounding directions",
  "Input files sample a few values; ties, digit-count edges and the edges of the long range are single points.",
  ["ieee754r/lrintd32.c", "ieee754r/llrintd32.c", "ieee754r/lroundd32.c", "ieee754r/llroundd32.c"],
  [("decNumber to-integral then string/integer conversion", "ieee754r/llrintd32.c, ieee754r/llroundd32.c")], [RM, FL])
p("C09", "Rounding-direction control is exact, durable and unaffected by other calls",
  "fe_dec_getround returns the direction of the last successful fe_dec_setround in the same thread (round-to-nearest at thread start), fe_dec_setround accepts exactly the five defined directions and reports failure for any other value without changing the direction. No other library call changes the decimal or the binary rounding direction.",
  ["histories", "schedules"], "all histories of setround calls (valid and invalid arguments) interleaved with any library calls, on any threads",
  "test-fenv sets each mode once in one thread; no test checks that computational calls leave the direction alone.",
  ["sysdeps/soft-dfp/bid/fe_decround.c", "sysdeps/generic/mapround.c", "libbid/bid_decimal_globals.c", "ieee754r/", "printf-hooks/printf_dfp.c"],
  [("thread-local rounding mode", "libbid/bid_decimal_globals.c"), ("save/restore around internal computations", "ieee754r/")], [RM])
p("C10", "Quantum operations: quantize, samequantum, quantum, llquantexp",
  "quantize returns the first operand's value rounded once in the rounding direction in force to the second operand's exponent, or NaN with invalid when that needs more digits than the precision or exactly one operand is infinite. samequantum, quantum and llquantexp report the exponent of the argument's own representation and depend on nothing else.",
  ["inputs", "configurations"], "all operand pairs x rounding directions",
  "Input files list a few dozen pairs in default rounding compared by value.",
  ["ieee754r/quantized32.c", "ieee754r/samequantumd32.c", "ieee754r/quantumd32.c", "ieee754r/llquantexpd32.c"],
  [("decNumberQuantize with the current rounding", "ieee754r/quantized32.c"), ("exponent extraction", "ieee754r/llquantexpd32.c, include/")], [RM, FL])
p("C11", "Exponent functions: frexp, ldexp, scalbn, scalbln, logb, ilogb, llogb, modf",
  "frexp and modf split a value into parts that recombine to it exactly; logb, ilogb and llogb return the exponent of the leading digit exactly for every finite nonzero argument; ldexp, scalbn and scalbln multiply by the power of ten exactly or with a single correct rounding. Zeros, infinities and NaNs give the results C11/TS 18661-2 list.",
  ["inputs"], "all arguments, all integer scale factors",
  "Input files sample small exponents; wrap, clamp and subnormal paths depend on particular combinations of coefficient length and exponent.",
  ["ieee754r/frexpd32.c", "ieee754r/ldexpd32.c", "ieee754r/scalbnd32.c", "ieee754r/scalblnd32.c", "ieee754r/logbd32.c", "ieee754r/ilogbd32.c", "ieee754r/llogbd32.c", "ieee754r/modfd32.c", "sysdeps/bid/bid-private.c"],
  [("decNumber exponent arithmetic, getexp/setexp/left_justify helpers", "ieee754r/, sysdeps/bid/bid-private.c")], [RM])
p("C12", "Minimum, maximum and positive difference",
  "fmax, fmin, fmaxmag and fminmag return one of their operands (never a rounded or otherwise changed value), the one their numerical (or magnitude) order selects, and return the other operand when exactly one is a quiet NaN. fdim returns the correctly rounded positive difference, or zero, or NaN.",
  ["inputs"], "all operand pairs incl. cohorts, signed zeros, NaNs, infinities",
  "Input files list a few pairs, compared by value.",
  ["ieee754r/fmaxd32.c", "ieee754r/fmind32.c", "ieee754r/fmaxmagd32.c", "ieee754r/fminmagd32.c", "ieee754r/fdimd32.c"],
  [("decNumberMax/decNumberMin/...Mag", "ieee754r/, libdecnumber/decNumber.c")], [FL])
p("C13", "Neighbours: nextafter, nexttoward, nextup, nextdown",
  "nextup and nextdown return the adjacent representable value of the format in the given direction for every argument, and nextafter and nexttoward step to the adjacent value in the direction of the second argument (returning it when equal). No representable value lies strictly between argument and result, and stepping up then down returns to the same value.",
  ["inputs"], "all arguments incl. powers of ten, cohorts with trailing zeros, zeros, subnormals, largest finite, infinities",
  "Input files sample a few constants; neighbours change at powers of ten, at the subnormal boundary and depend on normalising the cohort.",
  ["ieee754r/nextafterd32.c", "ieee754r/nexttowardd32.c", "ieee754r/nextupd32.c", "ieee754r/nextdownd32.c"],
  [("decNumberNextToward / NextPlus / NextMinus", "ieee754r/, libdecnumber/decNumber.c")], [FL])
p("C14", "Remainders: fmod and remainder",
  "fmod(x,y) equals x minus y times the quotient truncated to an integer, and remainder(x,y) equals x minus y times the quotient rounded to the nearest integer (ties to even), both exactly, whatever the exponent gap between operands; the result has the sign of x when zero and its magnitude is bounded by |y| (|y|/2). x infinite or y zero gives NaN and a domain error; y infinite returns x.",
  ["inputs"], "all operand pairs, incl. exponent gaps of the whole range",
  "remainder has no test at all; fmod has a small input file.",
  ["sysdeps/bid/fmodd32.c", "ieee754r/remainderd32.c", "libdecnumber/decNumber.c"],
  [("digit-wise reduction", "sysdeps/bid/fmodd32.c"), ("decNumber remainder", "ieee754r/remainderd32.c")], [RM])
p("C15", "Square root and fused multiply-add are correctly rounded",
  "sqrt returns the exact square root rounded once, and fma returns x*y+z computed exactly and rounded once, with the IEEE results for zeros, infinities, NaNs and negative arguments.",
  ["inputs", "configurations"], "all operands x rounding directions (where the function honours them)",
  "Neither function has a single value test in the suite.",
  ["ieee754r/sqrtd32.c", "ieee754r/fmad32.c", "libdecnumber/decNumber.c"],
  [("decNumberSquareRoot", "ieee754r/sqrtd32.c"), ("decNumber multiply and add", "ieee754r/fmad32.c")], [RM])
p("C16", "Classification, sign operations and NaN construction",
  "fpclassify, isnan, isinf, isfinite, isnormal, issignaling and signbit classify every encoding (every bit pattern, canonical or not) consistently and exclusively; fabs, copysign and negation change only the sign and keep value, exponent and NaN class; nan() builds a quiet NaN. None of them raises a flag. The type-generic macros of math.h classify binary floating arguments by their binary value, and HUGE_VAL_D*, DEC_INFINITY and DEC_NAN are the infinity and the quiet NaN of their formats.",
  ["inputs"], "all bit patterns of the three formats",
  "Input files classify a few constants; encodings with large-coefficient form, non-canonical coefficients and payload bits are not covered.",
  ["ieee754r/fpclassifyd32.c", "ieee754r/isnormald32.c", "ieee754r/issignalingd32.c", "ieee754r/copysignd32.c", "ieee754r/fabsd32.c", "ieee754r/signbitd32.c", "ieee754r/nand32.c", "libbid/bid64_noncomp.c", "libbid/bid128_noncomp.c"],
  [("bit tests and decNumber class", "ieee754r/, libbid/bid64_noncomp.c")], [FL])
p("C17", "String to decimal: strtod32/64/128 and wcstod32/64/128",
  "The strtod and wcstod families accept exactly the C decimal floating syntax (whitespace, sign, digits with locale radix point, exponent, inf, infinity, nan, nan(...)), report the longest valid prefix through endptr, and return the decimal number written: exactly, with the exponent and trailing zeros as written, when it fits the format, and otherwise correctly rounded. With no valid prefix they return zero and leave endptr at the start; range errors set errno to ERANGE; the wide and narrow functions agree.",
  ["inputs", "configurations"], "all finite strings x formats x rounding directions",
  "test-strtod has a fixed table of strings; digit counts beyond the precision, extreme exponents and malformed prefixes form an unbounded input space.",
  ["stdlib/strtod32.c", "stdlib/wcstod32.c"],
  [("hand-written scanner and digit accumulation", "stdlib/strtod32.c")], [RM, ("errno", "error indicator of the calling thread", "stdlib/strtod32.c")], ["return value, endptr, errno"])
p("C18", "Decimal to string: printf %H/%D/%DD and strfromd32/64/128",
  "printf with the H, D and DD modifiers and strfromd* write the decimal value in e, f, g and a style with exactly the digits the value has, correctly rounded in the rounding direction in force when the precision asks for fewer digits and zero-padded when it asks for more; width, the -, +, space, # and 0 flags and letter case are honoured as in C; the radix character, and with the ' flag the digit grouping, are those of the locale in force. The returned count is the number of characters of the full output, and strfrom never writes beyond the given size and always terminates.",
  ["inputs", "configurations"], "all values x conversion styles x precisions x widths x flags x buffer sizes x rounding directions",
  "test-printf and test-strfrom hold fixed tables of format/value pairs.",
  ["printf-hooks/printf_dfp.c", "stdlib/strfromd32.c", "printf-hooks/init_dfp.c", "sysdeps/bid/decode.c"],
  [("digit generation, rounding and padding", "printf-hooks/printf_dfp.c"), ("specification parser", "stdlib/strfromd32.c")], [RM], ["produced bytes and return value"])
p("C19", "Write/read round trip preserves every value and its trailing zeros",
  "Writing any finite value with %a style (or with e style and full precision) and reading the text back with the strtod function of the same format returns the same value, and with the implicit-precision a style also the same exponent; infinities and NaNs come back as infinities and NaNs. The C++ stream operators obey the same round trip.",
  ["inputs", "histories"], "all values of the three formats, write-read histories through both C and C++ interfaces",
  "No test feeds printed output back into the reader.",
  ["printf-hooks/printf_dfp.c", "stdlib/strtod32.c", "dfp/decimal/decimal", "stdlib/strfromd32.c"],
  [("printer and scanner agree on syntax and digits", "printf-hooks/printf_dfp.c, stdlib/strtod32.c")], [RM], ["text produced and value read back"])
p("C20", "Every encoding is read right and every result is canonical",
  "All bit patterns are interpreted as IEEE 754-2008 BID prescribes: non-canonical coefficients count as zero in every operation, both coefficient forms are read alike, and trailing bits of infinities are ignored. Arithmetic, fma, square root, conversions, roundings, scaling, quantum operations, fmod and text input return canonical encodings; the other functions do so too unless they hand back a non-canonical operand. And the digit-string decoder reports sign, all coefficient digits and exponent of the value.",
  ["inputs"], "all bit patterns of the three formats through every operation",
  "Constants in tests are always canonical as the compiler emits them; the large-coefficient form appears in few of them.",
  ["sysdeps/bid/decode.c", "sysdeps/bid/bid-private.c", "libbid/bid_internal.h", "libdecnumber/bid/decimal64.c", "libdecnumber/bid/decimal128.c", "libdecnumber/bid/decimal32.c", "libdecnumber/bid/bid2dpd_dpd2bid.c"],
  [("unpack_BID*, BID to DPD and back", "libbid/bid_internal.h, libdecnumber/bid/")], None, ["bit pattern of each result, decoded* text"])
p("C21", "Calls on different threads do not disturb each other",
  "Each thread has its own rounding direction, exception flags and errno: whatever other threads execute concurrently, every library call on a thread returns the result, flags and errno determined by its own arguments and its own thread's state. In particular computational and formatting calls are reentrant.",
  ["schedules", "histories"], "all interleavings of calls from several threads with different rounding directions and flag states",
  "No test starts a second thread.",
  ["libbid/bid_decimal_globals.c", "sysdeps/soft-dfp/bid/fe_decround.c", "printf-hooks/printf_dfp.c", "libdecnumber/decNumber.c", "stdlib/strtod32.c"],
  [("thread-local rounding mode and flags, automatic storage for work areas", "libbid/bid_decimal_globals.c, ieee754r/")], [RM, FL])
p("C22", "Math errors are reported through errno, and only math errors",
  "Math functions set errno to EDOM for domain errors and to ERANGE for pole and overflow range errors as C11 and TS 18661-2 require for each function, and leave errno untouched when the call has no error. No library call ever resets errno to zero.",
  ["inputs", "histories"], "all arguments of every errno-reporting math function, from any prior errno",
  "Input files check errno only where listed, and start from a clean errno.",
  ["ieee754r/", "include/dfpmacro.h"],
  [("DFP_ERRNO in the wrapper functions", "ieee754r/*d32.c")], [("errno", "error indicator of the calling thread", "ieee754r/")])
p("C23", "Transcendental functions: special values, exact cases, ranges and symmetry",
  "The exponential, logarithmic, power, trigonometric, hyperbolic, root, error and gamma functions return the C11 Annex F / TS 18661-2 special-case results for zeros, infinities, NaNs and out-of-domain arguments, respect the symmetry (odd/even) and range of the mathematical function, and give exact results where the definition forces one (such as pow(x,0), exp(0), log(1), cbrt and hypot with a zero argument).",
  ["inputs"], "all arguments of these functions in the three formats",
  "Many of these functions have no input file at all; the others list a few special values.",
  ["ieee754r/", "decNumberMath/decNumberMath.c"],
  [("argument screening and sign handling in each function", "ieee754r/*d32.c, ieee754r/expd64.c, ieee754r/powd64.c, ieee754r/logd64.c")], [RM])
p("C24", "Elementary functions stay within their error bound",
  "exp, exp2, expm1, log, log2, log10, log1p, pow, cbrt, hypot, the trigonometric, hyperbolic, error and gamma functions and their inverses return a value within a small fixed number of units in the last place of the true mathematical value for every argument and in every rounding direction. Where the algorithm's documented way of computing costs digits the bound is wider: _Decimal128 log, erfc and lgamma, lgamma near its zeros on the negative axis (where the error is small against its terms), and _Decimal128 tgamma (an exponential of lgamma, so in proportion to the magnitude of the exponent). The constants of math.h (M_Edl, M_PIdl and the others, for each format) are the correctly rounded values of their numbers.",
  ["inputs", "configurations"], "all arguments in the working range of each function x formats",
  "ULP tests sample tens of arguments; table-driven and range-reduced code has an independent error per table entry and per reduction interval.",
  ["ieee754r/", "decNumberMath/decNumberMath.c", "ieee754r/ddlogtbls.h", "libdecnumber/decNumber.c"],
  [("table lookup plus series", "ieee754r/expd64.c, ieee754r/logd64.c"), ("decNumberExp/Ln/Log10/Power", "libdecnumber/decNumber.c")], [RM])
p("C25", "Conversions between decimal and binary floating types",
  "Converting a float, double, long double or __float128 value to a decimal type, or a decimal value to one of these types, yields the exact value rounded once in the rounding direction in force for the type of the result (the decimal one for decimal results, the binary one for binary results), for all representable values including subnormals, ties and results that overflow. Signed zeros, infinities and NaNs keep their class and sign, a change of value raises inexact, overflow and underflow raise their exceptions, and an integral binary value that fits converts to the decimal with that value exactly.",
  ["inputs", "configurations"], "all binary values of four formats x three decimal formats, both ways, x rounding directions",
  "Existing tests cast a few short constants; the conversions depend on large tables by exponent and on a range-narrowing wrapper per pair of types.",
  ["libbid/_sd_to_sf.c", "libbid/_dd_to_df.c", "libbid/_td_to_tf.c", "libbid/_sf_to_sd.c", "libbid/_df_to_dd.c", "libbid/_tf_to_td.c", "libbid/_xf_to_td.c", "libbid/bid_gcc_intrinsics.h"],
  [("__bid_truncdddf, __bid_extenddftd, ...", "libbid/")], [RM, FL])
