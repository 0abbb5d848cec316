#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
M = "libm/src/math/"
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, hook=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["return value bits of the public functions"], "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why, "anchors": a})

SAMPLE = ("The existing suite compares against MPFR on a few hundred random, log-spaced and edge-case inputs per "
          "function and on a table of fixed cases; ")

prop("C01", "Square roots are correctly rounded in every format and configuration",
 "sqrtf16, sqrtf, sqrt and sqrtf128 return the round-to-nearest-even value of the exact square root for every non-negative input, subnormals and infinity included. sqrt(-0) is -0 with its sign, and every negative input (including -inf) and every NaN gives NaN. The pure-software implementation (force-soft-floats) and the generic implementation return the same bits as the hardware-backed one.",
 "all bit patterns of the four formats, in the arch, force-soft-floats and unstable-intrinsics builds",
 SAMPLE + "rounding errors of a Goldschmidt/Newton square root show on a 2^-20 or smaller fraction of inputs (near-midpoint results, subnormals, odd exponents).",
 [M+"generic/sqrt.rs", M+"sqrt.rs", M+"arch/i686.rs", M+"sqrtf.rs", M+"sqrtf16.rs", M+"sqrtf128.rs"],
 [("Goldschmidt iterations in fixed point followed by an exact remainder comparison", M+"generic/sqrt.rs"), ("SSE2 square root", M+"arch/i686.rs")],
 over=("inputs", "configurations"))

prop("C02", "Fused multiply-add rounds once",
 "fmaf, fma and fmaf128 return x*y+z computed exactly and rounded once to nearest-even, for every triple: total and partial cancellation, subnormal operands and results, overflow and exponent extremes included. Zero results carry the IEEE 754 sign (exact cancellation gives +0; products and addends that are signed zeros follow addition of zeros). 0*inf and inf-inf give NaN, NaN operands give NaN, and infinities otherwise propagate.",
 "all triples of bit patterns of f32, f64 and f128",
 SAMPLE + "the interesting triples (addend straddling the rounding bit of the product, double rounding in the subnormal range, products just outside 64 bits) have vanishing probability under independent sampling.",
 [M+"fma.rs", M+"fma_wide.rs"],
 [("exact wide product, alignment with a sticky bit, one rounding and scalbn to the result exponent", M+"fma.rs"), ("widening to f64 with an odd-rounding fix-up", M+"fma_wide.rs")])

prop("C03", "Rounding to integral values is exact",
 "ceil, floor, trunc, round (ties away from zero), roundeven and rint (ties to even), in f16, f32, f64 and f128, return exactly the integral value their definition names for every finite input. The sign of the input is kept also when the result is zero, already integral inputs and infinities come back unchanged, and NaN gives NaN. The result is the same in the arch, soft and intrinsics builds, and from the ceil and floor kept for 32-bit x86 without SSE2.",
 "all bit patterns of the four formats, in three build configurations",
 SAMPLE + "an error confined to one exponent, to values just below a half or to fractions whose low bits sit beside a mask boundary is missed by sampling 2^64 or 2^128 inputs.",
 [M+"generic/ceil.rs", M+"generic/floor.rs", M+"generic/trunc.rs", M+"generic/round.rs", M+"generic/rint.rs", M+"roundeven.rs", M+"rint.rs", M+"ceil.rs", M+"floor.rs", M+"trunc.rs", M+"round.rs", M+"arch/i586.rs"],
 [("exponent-dependent fraction masks", M+"generic/trunc.rs"), ("adding and subtracting 2^mantissa_bits", M+"generic/rint.rs"), ("trunc(x + copysign(0.5 - eps, x))", M+"generic/round.rs")],
 over=("inputs", "configurations"))

prop("C04", "fmod, remainder and remquo are exact",
 "fmod (f16, f32, f64, f128) returns exactly x - n*y with n = trunc(x/y) and the sign of x; remainder and remquo (f32, f64) return exactly x - n*y with n the integer nearest x/y, ties to even, zero results carrying the sign of x. remquo's integer has the sign of x/y and its magnitude agrees with |n| modulo 2^31. NaN operands, infinite x or zero y give NaN, and finite x with infinite y gives x.",
 "all pairs of bit patterns, including subnormals and exponent gaps up to the full range of the format",
 SAMPLE + "a dropped bit in the shift-subtract loop or a wrong final tie decision needs a specific relation between x and y (x near an odd multiple of y/2, subnormal y, large exponent gap).",
 [M+"generic/fmod.rs", M+"fmod.rs", M+"remainder.rs", M+"remainderf.rs", M+"remquo.rs", M+"remquof.rs"],
 [("bitwise shift-subtract long division", M+"generic/fmod.rs"), ("quotient accumulation and final nearest/even correction", M+"remquo.rs")])

prop("C05", "Exponent and fraction decomposition and scaling are exact",
 "scalbn and ldexp (f16 to f128) return x*2^n rounded once to nearest-even for every x and every 32-bit n, saturating to infinity or zero only when the rounded exact value does. frexp returns a fraction in [0.5,1) and an exponent that reconstruct x exactly, ilogb returns floor(log2|x|) exactly (with the C sentinel values INT_MIN for zero and NaN and INT_MAX for infinity), and modf splits x into an integral part and a fraction that both carry the sign of x and sum to it exactly. frexp, modf and scalbn return zero, infinity and NaN arguments as C requires.",
 "all bit patterns of x and all i32 values of n",
 SAMPLE + "double rounding in the subnormal range and exponent clamps appear only for particular (x, n) pairs.",
 [M+"generic/scalbn.rs", M+"scalbn.rs", M+"ldexp.rs", M+"frexp.rs", M+"frexpf.rs", M+"ilogb.rs", M+"ilogbf.rs", M+"modf.rs", M+"modff.rs"],
 [("staged scaling that avoids double rounding", M+"generic/scalbn.rs"), ("subnormal normalisation", M+"frexp.rs")])

prop("C06", "Minimum, maximum and positive difference follow IEEE 754",
 "In every format, fmin and fmax return the smaller and larger operand and ignore a single NaN; fminimum and fmaximum propagate any NaN and order -0 below +0; fminimum_num and fmaximum_num ignore a single NaN and order -0 below +0. A numeric result is always one of the operands, bit for bit (fmin and fmax may return either zero for operands of opposite zero sign). fdim returns x-y correctly rounded when x>y, +0 when x<=y, and NaN when either operand is NaN.",
 "all pairs of bit patterns of f16, f32, f64 and f128",
 SAMPLE + "operand pairs that are equal, adjacent, zero of both signs, or NaN with sign and payload in either position are a vanishing part of the pair space.",
 [M+"generic/fmin.rs", M+"generic/fmax.rs", M+"generic/fminimum.rs", M+"generic/fmaximum.rs", M+"generic/fminimum_num.rs", M+"generic/fmaximum_num.rs", M+"generic/fdim.rs", M+"fmin_fmax.rs", M+"fminimum_fmaximum.rs", M+"fminimum_fmaximum_num.rs"],
 [("comparison chains with explicit zero-sign tests", M+"generic/fmaximum.rs")])

prop("C07", "fabs, copysign and nextafter are exact on bit patterns",
 "fabs and copysign (f16 to f128) change nothing but the sign bit, for every input including NaNs, whose payload is kept. nextafter (f32, f64) returns y when x equals y, NaN when either is NaN, and otherwise the unique representable neighbour of x in the direction of y, across zero, the subnormal boundary and the overflow boundary.",
 "all bit patterns and pairs of bit patterns",
 SAMPLE + "nextafter has no MPFR test, and boundary transitions (zero, smallest normal, largest finite, powers of two) are single points.",
 [M+"generic/fabs.rs", M+"generic/copysign.rs", M+"nextafter.rs", M+"nextafterf.rs", M+"fabs.rs", M+"copysign.rs"],
 [("bit masks", M+"generic/copysign.rs"), ("integer increment or decrement of the representation", M+"nextafter.rs")])

prop("C08", "sin, cos, tan and sincos stay within 1 ULP for every argument",
 "For every finite argument, however large or close to a multiple of pi/2, sin, cos, tan and sincos (f32, f64) differ from the correctly rounded value of the exact function by at most 1 unit in the last place. sincos returns the same values as sin and cos, infinite arguments and NaN give NaN, and signed zeros are preserved by sin, tan and sincos.",
 "all finite f32 and f64 arguments up to the largest finite value",
 SAMPLE + "argument reduction loses accuracy only for arguments extremely near multiples of pi/2 or in one exponent range, and quadrant errors need particular high-order bits; none of these is likely to be sampled.",
 [M+"rem_pio2.rs", M+"rem_pio2_large.rs", M+"rem_pio2f.rs", M+"k_sin.rs", M+"k_cos.rs", M+"k_tan.rs", M+"k_sinf.rs", M+"k_cosf.rs", M+"k_tanf.rs", M+"sin.rs", M+"cos.rs", M+"tan.rs", M+"sincos.rs", M+"sinf.rs", M+"cosf.rs", M+"tanf.rs", M+"sincosf.rs"],
 [("Cody-Waite reduction with up to three stages", M+"rem_pio2.rs"), ("Payne-Hanek reduction with a table of 2/pi", M+"rem_pio2_large.rs"), ("minimax kernels", M+"k_sin.rs")])

prop("C09", "Inverse trigonometric functions stay within their documented error",
 "asin, acos and atan (f32, f64) are within 1 ULP of the correctly rounded exact value over their whole domain, and atan2 within 1 (f32) or 2 (f64) ULP for every pair, with the sign of y. asin and acos give NaN outside [-1,1]. atan2 returns the C Annex F values (signed zeros, +-pi, +-pi/2, +-pi/4, +-3pi/4) for every combination of signed zeros and infinities.",
 "all f32/f64 arguments and all pairs of (y, x)",
 SAMPLE + "interval boundaries of the piecewise approximations, ratios near overflow and underflow and all zero/infinity sign combinations are points sampling rarely touches.",
 [M+"asin.rs", M+"asinf.rs", M+"acos.rs", M+"acosf.rs", M+"atan.rs", M+"atanf.rs", M+"atan2.rs", M+"atan2f.rs"],
 [("piecewise rational approximations and quadrant selection", M+"atan2.rs")])

prop("C10", "Exponentials stay within their documented error up to overflow and underflow",
 "exp, exp2 and expm1 (f32, f64) are within 1 ULP and exp10 within 6 ULP of the correctly rounded exact value for every input, including results in the subnormal range. Overflow to +inf and underflow to zero (or -1 for expm1) happen exactly where the correctly rounded result does. exp2 of an integer in range is the exact power of two, and the functions return exactly 1 (0 for expm1) at zero.",
 "all f32 and f64 arguments",
 SAMPLE + "table-entry, reduction-boundary and threshold errors affect narrow intervals of arguments.",
 [M+"exp.rs", M+"expf.rs", M+"exp2.rs", M+"exp2f.rs", M+"exp10.rs", M+"exp10f.rs", M+"expm1.rs", M+"expm1f.rs"],
 [("argument reduction, polynomial and scalbn", M+"exp.rs"), ("256-entry table", M+"exp2.rs")])

prop("C11", "Logarithms stay within 1 ULP over their whole domain",
 "log, log2, log10 and log1p (f32, f64) are within 1 ULP of the correctly rounded exact value for every positive argument (above -1 for log1p), subnormals and arguments next to 1 (or 0) included. log2 of an exact power of two is the exact integer and log(1) is +0. The pole gives -inf, arguments below the domain and NaN give NaN, +inf gives +inf, and log1p preserves signed zero.",
 "all f32 and f64 arguments",
 SAMPLE + "cancellation around 1, the subnormal scaling branch and sqrt(2) reduction boundaries are narrow regions.",
 [M+"log.rs", M+"logf.rs", M+"log2.rs", M+"log2f.rs", M+"log10.rs", M+"log10f.rs", M+"log1p.rs", M+"log1pf.rs"],
 [("exponent split at sqrt(2)/2 and polynomial in s = f/(2+f)", M+"log.rs")])

prop("C12", "pow stays within 1 ULP and follows the C special-value rules",
 "pow and powf are within 1 ULP of the correctly rounded exact x^y for every pair with a defined finite result, including results near overflow, in the subnormal range, and bases next to 1 with huge exponents. Negative bases give the correctly signed result for integral exponents (odd or even decided exactly) and NaN for non-integral ones. Every combination of zeros, infinities, NaN, |x|=1 and y=0 gives the value C Annex F specifies.",
 "all pairs of f32 and f64 bit patterns",
 SAMPLE + "the accurate region is a thin, curved band of the pair space (y*log2 x between -1075 and 1024), and parity of a huge exponent or the near-1 base need correlated operands.",
 [M+"pow.rs", M+"powf.rs"],
 [("extended-precision log2 and exp2 with special-case ladder", M+"pow.rs")])

prop("C13", "Hyperbolic functions and inverses stay within their documented error",
 "cosh is within 1, sinh and tanh within 2, asinh and atanh within 2 and acosh within 4 ULP of the correctly rounded exact value for every argument in the domain, in f32 and f64. sinh and cosh overflow to infinity exactly where the correctly rounded result does, and tanh never exceeds 1 in magnitude. acosh below 1 and atanh beyond +-1 give NaN, atanh(+-1) gives the infinity of that sign, and the odd functions preserve signed zero.",
 "all f32 and f64 arguments",
 SAMPLE + "threshold regions (just below overflow, tiny arguments, arguments next to +-1) are narrow, and known failing regions were exempted from the suite instead of being decided.",
 [M+"sinh.rs", M+"sinhf.rs", M+"cosh.rs", M+"coshf.rs", M+"tanh.rs", M+"tanhf.rs", M+"asinh.rs", M+"asinhf.rs", M+"acosh.rs", M+"acoshf.rs", M+"atanh.rs", M+"atanhf.rs", M+"k_expo2.rs", M+"k_expo2f.rs", M+"expo2.rs"],
 [("expm1/exp based formulas with scaled exponentials near overflow", M+"k_expo2.rs")])

prop("C14", "cbrt is correctly rounded; hypot is within 1 ULP without spurious overflow",
 "cbrt and cbrtf return the round-to-nearest-even value of the exact cube root for every input, with the sign of the input. hypot and hypotf are within 1 ULP of the correctly rounded sqrt(x^2+y^2) for every pair, whatever the magnitudes, with no spurious overflow or underflow (next to the overflow limit, infinity counts as the value after the largest finite one). hypot ignores the signs and the order of its operands and returns +inf when either is infinite, even if the other is NaN.",
 "all f32/f64 arguments, and all pairs for hypot",
 SAMPLE + "hard-to-round cube roots number one in 2^50 or so, and hypot's scaling and exact-square branches depend on the exponent gap of the pair.",
 [M+"cbrt.rs", M+"cbrtf.rs", M+"hypot.rs", M+"hypotf.rs"],
 [("double-double refinement, rounding test and exceptional-case list", M+"cbrt.rs"), ("scaling by 2^+-700 and exact squares", M+"hypot.rs")])

prop("C15", "Gamma functions stay within their documented error and get signs and poles right",
 "tgammaf is within 1, tgamma within 20, and for positive arguments lgamma, lgammaf and their _r variants within 16 ULP of the correctly rounded exact value. tgamma gives NaN at negative integers and -inf, +-inf at +-0, overflows and underflows as the exact value does, and tgamma of a small positive integer is the exact factorial. The _r variants report the sign of Gamma(x) for every finite non-pole argument, lgamma is +inf at poles and both infinities, and for negative x its absolute error is at most 16 machine epsilons times 1 + |lgamma(-x)| + |lgamma(x)+lgamma(-x)|, the terms of the reflection formula (within 16 ULP of the overflow limit lgamma may be infinite).",
 "all f32 and f64 arguments, both signs",
 SAMPLE + "negative lgamma arguments are skipped by the suite altogether and signs alternate between consecutive integers.",
 [M+"tgamma.rs", M+"tgammaf.rs", M+"lgamma_r.rs", M+"lgammaf_r.rs", M+"lgamma.rs", M+"lgammaf.rs"],
 [("Lanczos sum and reflection", M+"tgamma.rs"), ("piecewise polynomials, sin_pi reflection and sign", M+"lgamma_r.rs")])

prop("C16", "erf and erfc stay within their documented error",
 "erf and erff are within 1 ULP and erfc and erfcf within 4 ULP of the correctly rounded exact value for every argument, including erfc results in the subnormal range. erf is odd, its magnitude never exceeds 1, and it reaches +-1 exactly when the correctly rounded value does; erfc stays in [0,2]. Infinities give +-1 (erf) and 0 or 2 (erfc), and NaN gives NaN.",
 "all f32 and f64 arguments",
 SAMPLE + "the piecewise coefficient intervals and the far tail of erfc are narrow.",
 [M+"erf.rs", M+"erff.rs"], [("piecewise rational approximations with split exponentials", M+"erf.rs")])

prop("C17", "Bessel functions of the first and second kind are accurate",
 "j0, j1, y0, y1 (f32, f64) are within 8 machine epsilons times max(|exact value|, oscillation amplitude min(1, sqrt(2/(pi|x|)))) of the exact Bessel functions for every argument; jn and yn of order n are within 16+|n| (|x|>|n|) or 64+|n| (|x|<=|n|) machine epsilons of that scale. y0, y1 and yn give -inf at +0 and NaN for negative arguments, and all of them are zero at infinity; yn overflows to -inf only where the exact value is within a factor 4 of the overflow limit. jn and yn satisfy the parity relations in order and argument, and orders 0 and 1 agree with the dedicated functions.",
 "all f32/f64 arguments and integer orders",
 SAMPLE + "the documented tolerance is millions of ULP because of the zeros of the functions, jn and yn comparisons are ignored, so a wrong coefficient or recurrence step goes unnoticed.",
 [M+"j0.rs", M+"j0f.rs", M+"j1.rs", M+"j1f.rs", M+"jn.rs", M+"jnf.rs"],
 [("rational approximations below 2, asymptotic series above", M+"j0.rs"), ("forward recurrence, continued fraction and backward recurrence", M+"jn.rs")])

prop("C18", "Special values and domain errors follow the C standard",
 "Every public function returns the IEEE 754 / C Annex F value for NaN, infinite, signed-zero and out-of-domain arguments: NaN operands give NaN except where the standard names a number (pow(1,y), pow(x,0), hypot with an infinity, the minimum and maximum families), domain errors give NaN, poles give the infinity of the right sign. The NaN result does not depend on the sign, payload or signalling bit of the NaN operand.",
 "all NaN bit patterns, infinities, zeros and out-of-domain arguments of every function and format, in every argument position",
 SAMPLE + "only a handful of NaN encodings and out-of-domain points are used, and several functions' out-of-domain regions are exempted.",
 [M+"mod.rs", M+"acosh.rs", M+"log.rs", M+"pow.rs", M+"hypot.rs", M+"lgamma_r.rs", M+"jn.rs"],
 [("leading special-case branches of each function", M+"pow.rs")])

prop("C19", "Every call returns: no panic, overflow, out-of-bounds access or endless loop",
 "For every argument combination, every public function returns normally. With debug assertions and overflow checks enabled there is no panic, arithmetic overflow or out-of-range table index, and no call needs more than 4000000 + 1024*|order| branches (in an unoptimised build) (orders of jn and yn up to about 100000).",
 "all bit patterns of all argument tuples and all i32 parameters, in builds with debug assertions and overflow checks, and in an instrumented build that counts executed branches",
 SAMPLE + "a panic or an unchecked table index (release builds skip the bounds check) needs one specific argument such as an extreme order, exponent or NaN encoding.",
 [M+"support/macros.rs", M+"rem_pio2_large.rs", M+"jn.rs", M+"generic/fmod.rs", M+"generic/scalbn.rs", M+"exp2.rs", M+"pow.rs"],
 [("unchecked indexing macros guarded by value ranges", M+"support/macros.rs"), ("loop bounds derived from exponents", M+"generic/fmod.rs")],
 over=("inputs", "configurations"))

prop("C20", "Results do not depend on build configuration, optimisation level or call history",
 "Every public function is a pure function of its argument bits: the arch, force-soft-floats and unstable-intrinsics builds, optimised and unoptimised, return identical bits (any NaN being equal to any NaN; either zero allowed from fmin and fmax of zeros with opposite signs). Repeating a call after any sequence of other calls, or concurrently from several threads, returns the same bits.",
 "all arguments, all supported feature combinations and optimisation levels, call histories",
 SAMPLE + "each configuration is tested on its own against loose bounds; bit equality between configurations is never checked.",
 [M+"arch/mod.rs", M+"arch/i686.rs", M+"support/macros.rs", "libm/build.rs", "libm/configure.rs"],
 [("select_implementation! dispatch", M+"support/macros.rs")],
 over=("inputs", "configurations", "histories"))

prop("C21", "Libm<T> methods are the free functions",
 "Each associated function of Libm<f16>, Libm<f32>, Libm<f64> and Libm<f128> returns, for every argument, exactly what the free function of that operation and type returns.",
 "all forwarding functions and all arguments",
 "No test calls the forwarding functions, so a method bound to the wrong free function or with swapped operands compiles and passes.",
 ["libm/src/libm_helper.rs"], [("libm_helper! forwarding table", "libm/src/libm_helper.rs")])

prop("C22", "Mathematical symmetries and identities between functions hold bit for bit",
 "Odd functions satisfy f(-x) = -f(x) for finite x and even ones f(-x) = f(x) bit for bit; fma, hypot, fmin/fmax families are symmetric in the operands they commute in; and rounding, remainder and scaling functions satisfy their exact identities (ceil(x) = -floor(-x), x = modf parts, ldexp(frexp(x)) = x, ldexp = scalbn, lgamma = lgamma_r, nextafter there and back). Correctly rounded functions are monotone, and so are the rounding functions.",
 "all arguments of the functions involved",
 SAMPLE + "relations between two calls are not tested at all.",
 [M+"sin.rs", M+"sinh.rs", M+"atan.rs", M+"hypot.rs", M+"erf.rs", M+"j0.rs", M+"lgamma.rs", M+"ldexp.rs"],
 [("sign handling at the head and tail of each function", M+"sinh.rs")])

prop("C23", "Hexadecimal float parsing is exact and correctly rounded",
 "Parsing a hexadecimal float literal (with its exponent part) into f16, f32, f64, f128 or any other supported binary format gives the value rounded as the requested rounding direction demands, with the inexact, underflow and overflow status matching the exact value, for any digit count (up to the documented limit of 500 million) and any exponent. The exact variants reject every literal that is not representable; malformed literals are rejected with an error and never panic in the fallible parser. Formatting a float as a hexadecimal literal and parsing it back returns the same bits (any NaN formats as NaN).",
 "all literal strings: any digits, point position, exponent size and sign, and malformed strings",
 "Fixed literals and f16/f32 round-trips exercise few rounding boundaries; oversized exponents and long digit strings with sticky bits are not tried.",
 [M+"support/hex_float.rs"], [("digit accumulation with sticky bit, rounding by direction", M+"support/hex_float.rs")],
 observe=["libm::support::{hf16,hf32,hf64,hf128,hex_float::parse_any,Hexf} (feature unstable-public-internals)"])

prop("C24", "256-bit integer arithmetic is exact",
 "The 256-bit integer types used for wide products behave as mathematical integers modulo 2^256: addition, right shifts by 0..255, or, complement, comparisons, narrowing, widening and 128x128 to 256 bit multiplication agree with arbitrary-precision integers. Their MIN, MAX, ZERO and ONE constants have the values the type names. (Operations the code declares unimplemented, such as left shifts and the signed 128-bit widening product, are outside.)",
 "all operand pairs and all shift amounts",
 "Random operand tests cover the arithmetic but not the constants, signed paths or carry patterns of structured operands.",
 [M+"support/big.rs", M+"support/int_traits.rs"], [("limb arithmetic with carries", M+"support/big.rs")],
 observe=["libm::support::{u256,i256,HInt,DInt} (feature unstable-public-internals)"])

prop("C25", "Float and integer trait helpers decompose and rebuild values exactly",
 "For each float format the classification, exponent, significand, sign, bit-construction, normalisation and comparison helpers and the format constants agree with the IEEE 754 encoding, and rebuilding a value from its parts gives the same bits; widening and narrowing between formats keep or correctly round the value. For each integer width the helpers (absolute difference, sign, low and high halves, widening and checked casts, casts to floats, wrapping and overflowing operations) agree with exact arithmetic.",
 "all bit patterns of all formats and widths",
 "Unit tests check a few constants; the helpers underpin all generic functions, in all formats.",
 [M+"support/float_traits.rs", M+"support/int_traits.rs", M+"support/env.rs"],
 [("associated constants derived from the format", M+"support/float_traits.rs")],
 observe=["libm::support::{Float,Int,HInt,DInt,CastFrom} (feature unstable-public-internals)"])

prop("C26", "The generic routines compute the specified values in every format",
 "The format-generic routines (ceil, floor, trunc, round, rint to nearest, sqrt, fmod, scalbn, copysign, fabs, fdim, fmin, fmax, fminimum, fmaximum, fminimum_num, fmaximum_num), called directly in f16, f32, f64 and f128, give the exact or correctly rounded IEEE 754 result for every argument, whatever faster path the public functions of a platform use instead of them.",
 "all arguments in all four formats",
 SAMPLE + "the f32 and f64 instances that a platform replaces by instructions are reached by no test on that platform.",
 [M+"generic/*.rs"],
 [("generic sqrt with table and integer refinement", M+"generic/sqrt.rs"), ("generic remainder loop", M+"generic/fmod.rs")],
 observe=["libm::generic::* (feature unstable-public-internals)"])

prop("C27", "The comparison toolkit measures float distances and references correctly",
 "The float-stepping and spacing utilities used to judge results agree with exact arithmetic: stepping up or down n floats lands n floats away (saturating at infinity), generated logarithmic and linear sequences start at the start, are evenly spaced, stay within the end and have the stated length. Result validation accepts exactly the pairs that are both NaN, or of the same sign and finiteness and within the allowed number of ULPs. Each tabulated operation is bound to the function of its name, and its MPFR reference gives the correctly rounded result wherever MPFR defines one.",
 "all float pairs, step counts and ranges in f16, f32, f64 and f128; all arguments of the reference operations",
 "Unit tests use an 8-bit toy float and a few ranges; a wrong measure silently weakens every other test.",
 ["crates/libm-test/src/num.rs", "crates/libm-test/src/test_traits.rs", "crates/libm-test/src/mpfloat.rs", "crates/libm-test/src/f8_impl.rs"],
 [("integer ordering of float representations", "crates/libm-test/src/num.rs")],
 observe=["libm_test public API"])

prop("C28", "The C symbols compute what the Rust functions compute",
 "Built as part of compiler-builtins, every C symbol of the interface (the 128 listed in crates/compiler-builtins-smoke-test, in f16, f32, f64 and f128) is defined and, called through the C calling convention, returns bit for bit what the Rust function of the same name returns; second results (frexp, modf, remquo, lgamma_r, sincos) are stored through the matching pointer argument.",
 "all arguments of all 128 symbols",
 "No test calls the symbols: the crate is only built. A symbol bound to the wrong function, format or pointer, or dropped from the list, compiles.",
 ["crates/compiler-builtins-smoke-test/src/math.rs", "crates/compiler-builtins-smoke-test/src/lib.rs", M+"mod.rs"],
 [("no_mangle! forwarding macro and its signature list", "crates/compiler-builtins-smoke-test/src/math.rs"), ("hand-written sincos and sincosf", "crates/compiler-builtins-smoke-test/src/math.rs")],
 over=("inputs", "configurations"), observe=["values returned and stored by the extern \"C\" symbols"])

prop("C29", "Generated test inputs have the announced number, range and repeatability",
 "For every operation and any number n of iterations, each input generator yields exactly the number of cases it announces, the same ones every time it is asked in a process. Random sets have k^args cases with k the least integer with k^args >= n, vary every bit of every argument, keep the orders of jn and yn in range, and are reproduced in another process by LIBM_SEED. Spaced sets are the product over the arguments of k values that start at the start of the function's domain and are evenly spaced in representation to its end, or every f16 value when n allows. Edge-case sets are the product over the arguments of distinct values that include zero of both signs, plus and minus one, the infinities, the NaN patterns, the largest subnormal, the domain's ends, the trigonometric and gamma check points, and extreme, zero and exponent-limit integers, with at least 7 neighbours on each side. Default sets have at least 10,000 cases.",
 "all operations of the table, all generators, all iteration counts",
 "Nothing tests the generators themselves: if a set silently shrinks, leaves its domain or stops including an edge, the tests built on it pass.",
 ["crates/libm-test/src/generate/edge_cases.rs", "crates/libm-test/src/generate/random.rs", "crates/libm-test/src/generate/spaced.rs", "crates/libm-test/src/generate.rs", "crates/libm-test/src/domain.rs", "crates/libm-test/src/run_cfg.rs", "crates/libm-test/src/num.rs"],
 [("product iterators with announced counts", "crates/libm-test/src/generate/spaced.rs"), ("iteration counts per argument", "crates/libm-test/src/run_cfg.rs"), ("domains and check points", "crates/libm-test/src/domain.rs")],
 observe=["libm_test::generate::{edge_cases,random,spaced}::get_test_cases"])

prop("C30", "The evaluation tool prints the value of the call it was asked for",
 "For every operation of the table and every argument list, `util eval libm OP ARGS` prints the decimal and hexadecimal form of exactly the value libm's function returns for the arguments meant, and `eval mpfr OP ARGS` that of the reference. An argument of a float may be a decimal number (rounded once, to nearest, to the argument's format, subnormals included), an infinity or nan, the format's bits as 0x or 0b digits, or a hexadecimal literal of either sign that the format represents exactly; an integer argument may be decimal, 0x or 0b. Anything else - a malformed or unrepresentable argument, a wrong number of arguments, an unknown operation or basis - ends in a failing exit status and prints no value.",
 "all operations, all argument values, all spellings of each",
 "Nothing tests the tool: an operation called with the wrong function or an argument read as the wrong number shows only to whoever debugs with it.",
 ["crates/util/src/main.rs", M+"support/hex_float.rs", "crates/libm-macros/src/lib.rs"],
 [("argument parsing per notation and format", "crates/util/src/main.rs"), ("dispatch from the operation's name", "crates/util/src/main.rs")],
 observe=["exit status and standard output of the util program"])

prop("C31", "The function macros visit each operation once, with its own data",
 "For every invocation, for_each_function calls the callback exactly once for each operation of the table that is not in `skip` (or that is in `only`), and gives it the operation's name, the requested types (float type, and the function, argument and return types of the C and Rust signatures), exactly the attributes of the groups that name it plus the f16 or f128 cfg of its type, and the `extra` and `fn_extra` expressions with MACRO_FN_NAME and MACRO_FN_NAME_NORMALIZED replaced by its name and base name, fn_extra being the arm that names it or else the default. An invocation that names an unknown function, type, field or magic identifier, combines skip with only or all with other types, matches a name twice or leaves a needed one uncovered, or uses guards or attributes in the match, is refused with an error. The enums of names the macros generate list every operation once, find a name exactly if it is one, and give its own base name and signature.",
 "all invocations, all strings",
 "The test suite itself is generated by these macros: an operation that is silently dropped, or given another's types or expression, removes tests rather than failing one. The macro tests only check that a few invocations compile.",
 ["crates/libm-macros/src/lib.rs", "crates/libm-macros/src/parse.rs", "crates/libm-macros/src/enums.rs", "crates/libm-macros/src/shared.rs"],
 [("selection and validation of the listed functions", "crates/libm-macros/src/lib.rs"), ("replacement of the magic identifiers", "crates/libm-macros/src/lib.rs"), ("base names and name enums", "crates/libm-macros/src/enums.rs")],
 observe=["the callbacks and compile errors that libm_macros::for_each_function! produces", "libm_test::op::{Identifier, BaseName}"])

with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
