// Generated by tools/gen_api.py
use crate::api::{FnInfo, Ty, Sig};
pub static FNS: &[FnInfo] = &[
    FnInfo { id: 0, name: "acosf", base: "acos", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 1, name: "acos", base: "acos", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 2, name: "acoshf", base: "acosh", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 3, name: "acosh", base: "acosh", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 4, name: "asinf", base: "asin", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 5, name: "asin", base: "asin", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 6, name: "asinhf", base: "asinh", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 7, name: "asinh", base: "asinh", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 8, name: "atanf", base: "atan", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 9, name: "atan", base: "atan", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 10, name: "atanhf", base: "atanh", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 11, name: "atanh", base: "atanh", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 12, name: "cbrtf", base: "cbrt", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 13, name: "cbrt", base: "cbrt", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 14, name: "cosf", base: "cos", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 15, name: "cos", base: "cos", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 16, name: "coshf", base: "cosh", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 17, name: "cosh", base: "cosh", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 18, name: "erff", base: "erf", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 19, name: "erf", base: "erf", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 20, name: "erfcf", base: "erfc", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 21, name: "erfc", base: "erfc", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 22, name: "expf", base: "exp", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 23, name: "exp", base: "exp", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 24, name: "exp10f", base: "exp10", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 25, name: "exp10", base: "exp10", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 26, name: "exp2f", base: "exp2", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 27, name: "exp2", base: "exp2", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 28, name: "expm1f", base: "expm1", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 29, name: "expm1", base: "expm1", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 30, name: "j0f", base: "j0", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 31, name: "j0", base: "j0", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 32, name: "j1f", base: "j1", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 33, name: "j1", base: "j1", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 34, name: "lgammaf", base: "lgamma", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 35, name: "lgamma", base: "lgamma", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 36, name: "logf", base: "log", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 37, name: "log", base: "log", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 38, name: "log10f", base: "log10", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 39, name: "log10", base: "log10", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 40, name: "log1pf", base: "log1p", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 41, name: "log1p", base: "log1p", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 42, name: "log2f", base: "log2", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 43, name: "log2", base: "log2", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 44, name: "sinf", base: "sin", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 45, name: "sin", base: "sin", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 46, name: "sinhf", base: "sinh", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 47, name: "sinh", base: "sinh", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 48, name: "tanf", base: "tan", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 49, name: "tan", base: "tan", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 50, name: "tanhf", base: "tanh", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 51, name: "tanh", base: "tanh", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 52, name: "tgammaf", base: "tgamma", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 53, name: "tgamma", base: "tgamma", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 54, name: "y0f", base: "y0", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 55, name: "y0", base: "y0", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 56, name: "y1f", base: "y1", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 57, name: "y1", base: "y1", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 58, name: "ceilf16", base: "ceil", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 59, name: "ceilf", base: "ceil", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 60, name: "ceil", base: "ceil", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 61, name: "ceilf128", base: "ceil", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 62, name: "fabsf16", base: "fabs", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 63, name: "fabsf", base: "fabs", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 64, name: "fabs", base: "fabs", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 65, name: "fabsf128", base: "fabs", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 66, name: "floorf16", base: "floor", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 67, name: "floorf", base: "floor", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 68, name: "floor", base: "floor", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 69, name: "floorf128", base: "floor", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 70, name: "rintf16", base: "rint", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 71, name: "rintf", base: "rint", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 72, name: "rint", base: "rint", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 73, name: "rintf128", base: "rint", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 74, name: "roundf16", base: "round", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 75, name: "roundf", base: "round", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 76, name: "round", base: "round", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 77, name: "roundf128", base: "round", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 78, name: "roundevenf16", base: "roundeven", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 79, name: "roundevenf", base: "roundeven", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 80, name: "roundeven", base: "roundeven", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 81, name: "roundevenf128", base: "roundeven", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 82, name: "sqrtf16", base: "sqrt", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 83, name: "sqrtf", base: "sqrt", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 84, name: "sqrt", base: "sqrt", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 85, name: "sqrtf128", base: "sqrt", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 86, name: "truncf16", base: "trunc", ty: Ty::F16, sig: Sig::F_F },
    FnInfo { id: 87, name: "truncf", base: "trunc", ty: Ty::F32, sig: Sig::F_F },
    FnInfo { id: 88, name: "trunc", base: "trunc", ty: Ty::F64, sig: Sig::F_F },
    FnInfo { id: 89, name: "truncf128", base: "trunc", ty: Ty::F128, sig: Sig::F_F },
    FnInfo { id: 90, name: "atan2f", base: "atan2", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 91, name: "atan2", base: "atan2", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 92, name: "hypotf", base: "hypot", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 93, name: "hypot", base: "hypot", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 94, name: "nextafterf", base: "nextafter", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 95, name: "nextafter", base: "nextafter", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 96, name: "powf", base: "pow", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 97, name: "pow", base: "pow", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 98, name: "remainderf", base: "remainder", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 99, name: "remainder", base: "remainder", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 100, name: "copysignf16", base: "copysign", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 101, name: "copysignf", base: "copysign", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 102, name: "copysign", base: "copysign", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 103, name: "copysignf128", base: "copysign", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 104, name: "fdimf16", base: "fdim", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 105, name: "fdimf", base: "fdim", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 106, name: "fdim", base: "fdim", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 107, name: "fdimf128", base: "fdim", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 108, name: "fmaxf16", base: "fmax", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 109, name: "fmaxf", base: "fmax", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 110, name: "fmax", base: "fmax", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 111, name: "fmaxf128", base: "fmax", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 112, name: "fmaximumf16", base: "fmaximum", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 113, name: "fmaximumf", base: "fmaximum", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 114, name: "fmaximum", base: "fmaximum", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 115, name: "fmaximumf128", base: "fmaximum", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 116, name: "fmaximum_numf16", base: "fmaximum_num", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 117, name: "fmaximum_numf", base: "fmaximum_num", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 118, name: "fmaximum_num", base: "fmaximum_num", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 119, name: "fmaximum_numf128", base: "fmaximum_num", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 120, name: "fminf16", base: "fmin", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 121, name: "fminf", base: "fmin", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 122, name: "fmin", base: "fmin", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 123, name: "fminf128", base: "fmin", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 124, name: "fminimumf16", base: "fminimum", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 125, name: "fminimumf", base: "fminimum", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 126, name: "fminimum", base: "fminimum", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 127, name: "fminimumf128", base: "fminimum", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 128, name: "fminimum_numf16", base: "fminimum_num", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 129, name: "fminimum_numf", base: "fminimum_num", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 130, name: "fminimum_num", base: "fminimum_num", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 131, name: "fminimum_numf128", base: "fminimum_num", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 132, name: "fmodf16", base: "fmod", ty: Ty::F16, sig: Sig::FF_F },
    FnInfo { id: 133, name: "fmodf", base: "fmod", ty: Ty::F32, sig: Sig::FF_F },
    FnInfo { id: 134, name: "fmod", base: "fmod", ty: Ty::F64, sig: Sig::FF_F },
    FnInfo { id: 135, name: "fmodf128", base: "fmod", ty: Ty::F128, sig: Sig::FF_F },
    FnInfo { id: 136, name: "fmaf", base: "fma", ty: Ty::F32, sig: Sig::FFF_F },
    FnInfo { id: 137, name: "fma", base: "fma", ty: Ty::F64, sig: Sig::FFF_F },
    FnInfo { id: 138, name: "fmaf128", base: "fma", ty: Ty::F128, sig: Sig::FFF_F },
    FnInfo { id: 139, name: "ilogbf", base: "ilogb", ty: Ty::F32, sig: Sig::F_I },
    FnInfo { id: 140, name: "ilogb", base: "ilogb", ty: Ty::F64, sig: Sig::F_I },
    FnInfo { id: 141, name: "jnf", base: "jn", ty: Ty::F32, sig: Sig::IF_F },
    FnInfo { id: 142, name: "jn", base: "jn", ty: Ty::F64, sig: Sig::IF_F },
    FnInfo { id: 143, name: "ynf", base: "yn", ty: Ty::F32, sig: Sig::IF_F },
    FnInfo { id: 144, name: "yn", base: "yn", ty: Ty::F64, sig: Sig::IF_F },
    FnInfo { id: 145, name: "ldexpf16", base: "ldexp", ty: Ty::F16, sig: Sig::FI_F },
    FnInfo { id: 146, name: "ldexpf", base: "ldexp", ty: Ty::F32, sig: Sig::FI_F },
    FnInfo { id: 147, name: "ldexp", base: "ldexp", ty: Ty::F64, sig: Sig::FI_F },
    FnInfo { id: 148, name: "ldexpf128", base: "ldexp", ty: Ty::F128, sig: Sig::FI_F },
    FnInfo { id: 149, name: "scalbnf16", base: "scalbn", ty: Ty::F16, sig: Sig::FI_F },
    FnInfo { id: 150, name: "scalbnf", base: "scalbn", ty: Ty::F32, sig: Sig::FI_F },
    FnInfo { id: 151, name: "scalbn", base: "scalbn", ty: Ty::F64, sig: Sig::FI_F },
    FnInfo { id: 152, name: "scalbnf128", base: "scalbn", ty: Ty::F128, sig: Sig::FI_F },
    FnInfo { id: 153, name: "modff", base: "modf", ty: Ty::F32, sig: Sig::F_FF },
    FnInfo { id: 154, name: "modf", base: "modf", ty: Ty::F64, sig: Sig::F_FF },
    FnInfo { id: 155, name: "sincosf", base: "sincos", ty: Ty::F32, sig: Sig::F_FF },
    FnInfo { id: 156, name: "sincos", base: "sincos", ty: Ty::F64, sig: Sig::F_FF },
    FnInfo { id: 157, name: "frexpf", base: "frexp", ty: Ty::F32, sig: Sig::F_FI },
    FnInfo { id: 158, name: "frexp", base: "frexp", ty: Ty::F64, sig: Sig::F_FI },
    FnInfo { id: 159, name: "lgammaf_r", base: "lgamma_r", ty: Ty::F32, sig: Sig::F_FI },
    FnInfo { id: 160, name: "lgamma_r", base: "lgamma_r", ty: Ty::F64, sig: Sig::F_FI },
    FnInfo { id: 161, name: "remquof", base: "remquo", ty: Ty::F32, sig: Sig::FF_FI },
    FnInfo { id: 162, name: "remquo", base: "remquo", ty: Ty::F64, sig: Sig::FF_FI },
];
/// (symbol of the forwarding method, name of the free function)
pub static HELPERS: &[(&str, &str)] = &[
    ("h_f32_acos", "acosf"),
    ("h_f32_acosh", "acoshf"),
    ("h_f32_asin", "asinf"),
    ("h_f32_asinh", "asinhf"),
    ("h_f32_atan", "atanf"),
    ("h_f32_atan2", "atan2f"),
    ("h_f32_atanh", "atanhf"),
    ("h_f32_cbrt", "cbrtf"),
    ("h_f32_ceil", "ceilf"),
    ("h_f32_copysign", "copysignf"),
    ("h_f32_cos", "cosf"),
    ("h_f32_cosh", "coshf"),
    ("h_f32_erf", "erff"),
    ("h_f32_erfc", "erfcf"),
    ("h_f32_exp", "expf"),
    ("h_f32_exp10", "exp10f"),
    ("h_f32_exp2", "exp2f"),
    ("h_f32_expm1", "expm1f"),
    ("h_f32_fabs", "fabsf"),
    ("h_f32_fdim", "fdimf"),
    ("h_f32_floor", "floorf"),
    ("h_f32_fma", "fmaf"),
    ("h_f32_fmax", "fmaxf"),
    ("h_f32_fmin", "fminf"),
    ("h_f32_fmod", "fmodf"),
    ("h_f32_frexp", "frexpf"),
    ("h_f32_hypot", "hypotf"),
    ("h_f32_ilogb", "ilogbf"),
    ("h_f32_j0", "j0f"),
    ("h_f32_j1", "j1f"),
    ("h_f32_jn", "jnf"),
    ("h_f32_ldexp", "ldexpf"),
    ("h_f32_lgamma", "lgammaf"),
    ("h_f32_lgamma_r", "lgammaf_r"),
    ("h_f32_log", "logf"),
    ("h_f32_log10", "log10f"),
    ("h_f32_log1p", "log1pf"),
    ("h_f32_log2", "log2f"),
    ("h_f32_modf", "modff"),
    ("h_f32_nextafter", "nextafterf"),
    ("h_f32_pow", "powf"),
    ("h_f32_remainder", "remainderf"),
    ("h_f32_remquo", "remquof"),
    ("h_f32_rint", "rintf"),
    ("h_f32_round", "roundf"),
    ("h_f32_roundeven", "roundevenf"),
    ("h_f32_scalbn", "scalbnf"),
    ("h_f32_sin", "sinf"),
    ("h_f32_sincos", "sincosf"),
    ("h_f32_sinh", "sinhf"),
    ("h_f32_sqrt", "sqrtf"),
    ("h_f32_tan", "tanf"),
    ("h_f32_tanh", "tanhf"),
    ("h_f32_tgamma", "tgammaf"),
    ("h_f32_trunc", "truncf"),
    ("h_f32_y0", "y0f"),
    ("h_f32_y1", "y1f"),
    ("h_f32_yn", "ynf"),
    ("h_f64_acos", "acos"),
    ("h_f64_acosh", "acosh"),
    ("h_f64_asin", "asin"),
    ("h_f64_asinh", "asinh"),
    ("h_f64_atan", "atan"),
    ("h_f64_atanh", "atanh"),
    ("h_f64_cbrt", "cbrt"),
    ("h_f64_cos", "cos"),
    ("h_f64_cosh", "cosh"),
    ("h_f64_erf", "erf"),
    ("h_f64_erfc", "erfc"),
    ("h_f64_exp", "exp"),
    ("h_f64_exp10", "exp10"),
    ("h_f64_exp2", "exp2"),
    ("h_f64_expm1", "expm1"),
    ("h_f64_j0", "j0"),
    ("h_f64_j1", "j1"),
    ("h_f64_lgamma", "lgamma"),
    ("h_f64_log", "log"),
    ("h_f64_log10", "log10"),
    ("h_f64_log1p", "log1p"),
    ("h_f64_log2", "log2"),
    ("h_f64_sin", "sin"),
    ("h_f64_sinh", "sinh"),
    ("h_f64_tan", "tan"),
    ("h_f64_tanh", "tanh"),
    ("h_f64_tgamma", "tgamma"),
    ("h_f64_y0", "y0"),
    ("h_f64_y1", "y1"),
    ("h_f64_ceil", "ceil"),
    ("h_f64_fabs", "fabs"),
    ("h_f64_floor", "floor"),
    ("h_f64_rint", "rint"),
    ("h_f64_round", "round"),
    ("h_f64_roundevem", "roundeven"),
    ("h_f64_sqrt", "sqrt"),
    ("h_f64_trunc", "trunc"),
    ("h_f64_atan2", "atan2"),
    ("h_f64_hypot", "hypot"),
    ("h_f64_nextafter", "nextafter"),
    ("h_f64_pow", "pow"),
    ("h_f64_remainder", "remainder"),
    ("h_f64_copysign", "copysign"),
    ("h_f64_fdim", "fdim"),
    ("h_f64_fmax", "fmax"),
    ("h_f64_fmaximum", "fmaximum"),
    ("h_f64_fmaximum_num", "fmaximum_num"),
    ("h_f64_fmin", "fmin"),
    ("h_f64_fminimum", "fminimum"),
    ("h_f64_fminimum_num", "fminimum_num"),
    ("h_f64_fmod", "fmod"),
    ("h_f64_fma", "fma"),
    ("h_f64_ilogb", "ilogb"),
    ("h_f64_jn", "jn"),
    ("h_f64_yn", "yn"),
    ("h_f64_ldexp", "ldexp"),
    ("h_f64_scalbn", "scalbn"),
    ("h_f64_modf", "modf"),
    ("h_f64_sincos", "sincos"),
    ("h_f64_frexp", "frexp"),
    ("h_f64_lgamma_r", "lgamma_r"),
    ("h_f64_remquo", "remquo"),
    ("h_f64_fmaximum_numf", "fmaximum_numf"),
    ("h_f64_fmaximumf", "fmaximumf"),
    ("h_f64_fminimum_numf", "fminimum_numf"),
    ("h_f64_fminimumf", "fminimumf"),
    ("h_f16_ceil", "ceilf16"),
    ("h_f16_copysign", "copysignf16"),
    ("h_f16_fabs", "fabsf16"),
    ("h_f16_fdim", "fdimf16"),
    ("h_f16_floor", "floorf16"),
    ("h_f16_fmax", "fmaxf16"),
    ("h_f16_fmaximum_num", "fmaximum_numf16"),
    ("h_f16_fmaximumf16", "fmaximumf16"),
    ("h_f16_fmin", "fminf16"),
    ("h_f16_fminimum", "fminimumf16"),
    ("h_f16_fminimum_num", "fminimum_numf16"),
    ("h_f16_fmod", "fmodf16"),
    ("h_f16_ldexp", "ldexpf16"),
    ("h_f16_rint", "rintf16"),
    ("h_f16_round", "roundf16"),
    ("h_f16_roundeven", "roundevenf16"),
    ("h_f16_scalbn", "scalbnf16"),
    ("h_f16_sqrtf", "sqrtf16"),
    ("h_f16_truncf", "truncf16"),
    ("h_f128_ceil", "ceilf128"),
    ("h_f128_fabs", "fabsf128"),
    ("h_f128_floor", "floorf128"),
    ("h_f128_rint", "rintf128"),
    ("h_f128_round", "roundf128"),
    ("h_f128_roundeven", "roundevenf128"),
    ("h_f128_sqrt", "sqrtf128"),
    ("h_f128_trunc", "truncf128"),
    ("h_f128_copysign", "copysignf128"),
    ("h_f128_fdim", "fdimf128"),
    ("h_f128_fmax", "fmaxf128"),
    ("h_f128_fmaximum", "fmaximumf128"),
    ("h_f128_fmaximum_num", "fmaximum_numf128"),
    ("h_f128_fmin", "fminf128"),
    ("h_f128_fminimum", "fminimumf128"),
    ("h_f128_fminimum_num", "fminimum_numf128"),
    ("h_f128_fmod", "fmodf128"),
    ("h_f128_fma", "fmaf128"),
    ("h_f128_ldexp", "ldexpf128"),
    ("h_f128_scalbn", "scalbnf128"),
];
/// Functions with a C symbol of the same name.
pub static C_API: &[&str] = &[
    "acos",
    "acosf",
    "acosh",
    "acoshf",
    "asin",
    "asinf",
    "asinh",
    "asinhf",
    "atan",
    "atan2",
    "atan2f",
    "atanf",
    "atanh",
    "atanhf",
    "cbrt",
    "cbrtf",
    "ceil",
    "ceilf",
    "ceilf128",
    "ceilf16",
    "copysign",
    "copysignf",
    "copysignf128",
    "copysignf16",
    "cos",
    "cosf",
    "cosh",
    "coshf",
    "erf",
    "erfc",
    "erfcf",
    "erff",
    "exp",
    "exp10",
    "exp10f",
    "exp2",
    "exp2f",
    "expf",
    "expm1",
    "expm1f",
    "fabs",
    "fabsf",
    "fabsf128",
    "fabsf16",
    "fdim",
    "fdimf",
    "fdimf128",
    "fdimf16",
    "floor",
    "floorf",
    "floorf128",
    "floorf16",
    "fma",
    "fmaf",
    "fmax",
    "fmaxf",
    "fmin",
    "fminf",
    "fmod",
    "fmodf",
    "frexp",
    "frexpf",
    "hypot",
    "hypotf",
    "ilogb",
    "ilogbf",
    "j0",
    "j0f",
    "j1",
    "j1f",
    "jn",
    "jnf",
    "ldexp",
    "ldexpf",
    "lgamma",
    "lgamma_r",
    "lgammaf",
    "lgammaf_r",
    "log",
    "log10",
    "log10f",
    "log1p",
    "log1pf",
    "log2",
    "log2f",
    "logf",
    "modf",
    "modff",
    "nextafter",
    "nextafterf",
    "pow",
    "powf",
    "remainder",
    "remainderf",
    "remquo",
    "remquof",
    "rint",
    "rintf",
    "rintf128",
    "rintf16",
    "round",
    "roundf",
    "scalbn",
    "scalbnf",
    "sin",
    "sincos",
    "sincosf",
    "sinf",
    "sinh",
    "sinhf",
    "sqrt",
    "sqrtf",
    "tan",
    "tanf",
    "tanh",
    "tanhf",
    "tgamma",
    "tgammaf",
    "trunc",
    "truncf",
    "truncf128",
    "truncf16",
    "y0",
    "y0f",
    "y1",
    "y1f",
    "yn",
    "ynf",
];
