// Generated by tools/gen_api.py
mod c { #[allow(improper_ctypes)] unsafe extern "C" {
    pub fn acos(a: f64) -> f64;
    pub fn acosf(a: f32) -> f32;
    pub fn acosh(a: f64) -> f64;
    pub fn acoshf(a: f32) -> f32;
    pub fn asin(a: f64) -> f64;
    pub fn asinf(a: f32) -> f32;
    pub fn asinh(a: f64) -> f64;
    pub fn asinhf(a: f32) -> f32;
    pub fn atan(a: f64) -> f64;
    pub fn atan2(a: f64, b: f64) -> f64;
    pub fn atan2f(a: f32, b: f32) -> f32;
    pub fn atanf(a: f32) -> f32;
    pub fn atanh(a: f64) -> f64;
    pub fn atanhf(a: f32) -> f32;
    pub fn cbrt(a: f64) -> f64;
    pub fn cbrtf(a: f32) -> f32;
    pub fn ceil(a: f64) -> f64;
    pub fn ceilf(a: f32) -> f32;
    pub fn ceilf128(a: f128) -> f128;
    pub fn ceilf16(a: f16) -> f16;
    pub fn copysign(a: f64, b: f64) -> f64;
    pub fn copysignf(a: f32, b: f32) -> f32;
    pub fn copysignf128(a: f128, b: f128) -> f128;
    pub fn copysignf16(a: f16, b: f16) -> f16;
    pub fn cos(a: f64) -> f64;
    pub fn cosf(a: f32) -> f32;
    pub fn cosh(a: f64) -> f64;
    pub fn coshf(a: f32) -> f32;
    pub fn erf(a: f64) -> f64;
    pub fn erfc(a: f64) -> f64;
    pub fn erfcf(a: f32) -> f32;
    pub fn erff(a: f32) -> f32;
    pub fn exp(a: f64) -> f64;
    pub fn exp10(a: f64) -> f64;
    pub fn exp10f(a: f32) -> f32;
    pub fn exp2(a: f64) -> f64;
    pub fn exp2f(a: f32) -> f32;
    pub fn expf(a: f32) -> f32;
    pub fn expm1(a: f64) -> f64;
    pub fn expm1f(a: f32) -> f32;
    pub fn fabs(a: f64) -> f64;
    pub fn fabsf(a: f32) -> f32;
    pub fn fabsf128(a: f128) -> f128;
    pub fn fabsf16(a: f16) -> f16;
    pub fn fdim(a: f64, b: f64) -> f64;
    pub fn fdimf(a: f32, b: f32) -> f32;
    pub fn fdimf128(a: f128, b: f128) -> f128;
    pub fn fdimf16(a: f16, b: f16) -> f16;
    pub fn floor(a: f64) -> f64;
    pub fn floorf(a: f32) -> f32;
    pub fn floorf128(a: f128) -> f128;
    pub fn floorf16(a: f16) -> f16;
    pub fn fma(a: f64, b: f64, d: f64) -> f64;
    pub fn fmaf(a: f32, b: f32, d: f32) -> f32;
    pub fn fmax(a: f64, b: f64) -> f64;
    pub fn fmaxf(a: f32, b: f32) -> f32;
    pub fn fmin(a: f64, b: f64) -> f64;
    pub fn fminf(a: f32, b: f32) -> f32;
    pub fn fmod(a: f64, b: f64) -> f64;
    pub fn fmodf(a: f32, b: f32) -> f32;
    pub fn frexp(a: f64, o: &mut i32) -> f64;
    pub fn frexpf(a: f32, o: &mut i32) -> f32;
    pub fn hypot(a: f64, b: f64) -> f64;
    pub fn hypotf(a: f32, b: f32) -> f32;
    pub fn ilogb(a: f64) -> i32;
    pub fn ilogbf(a: f32) -> i32;
    pub fn j0(a: f64) -> f64;
    pub fn j0f(a: f32) -> f32;
    pub fn j1(a: f64) -> f64;
    pub fn j1f(a: f32) -> f32;
    pub fn jn(n: i32, a: f64) -> f64;
    pub fn jnf(n: i32, a: f32) -> f32;
    pub fn ldexp(a: f64, n: i32) -> f64;
    pub fn ldexpf(a: f32, n: i32) -> f32;
    pub fn lgamma(a: f64) -> f64;
    pub fn lgamma_r(a: f64, o: &mut i32) -> f64;
    pub fn lgammaf(a: f32) -> f32;
    pub fn lgammaf_r(a: f32, o: &mut i32) -> f32;
    pub fn log(a: f64) -> f64;
    pub fn log10(a: f64) -> f64;
    pub fn log10f(a: f32) -> f32;
    pub fn log1p(a: f64) -> f64;
    pub fn log1pf(a: f32) -> f32;
    pub fn log2(a: f64) -> f64;
    pub fn log2f(a: f32) -> f32;
    pub fn logf(a: f32) -> f32;
    pub fn modf(a: f64, o: &mut f64) -> f64;
    pub fn modff(a: f32, o: &mut f32) -> f32;
    pub fn nextafter(a: f64, b: f64) -> f64;
    pub fn nextafterf(a: f32, b: f32) -> f32;
    pub fn pow(a: f64, b: f64) -> f64;
    pub fn powf(a: f32, b: f32) -> f32;
    pub fn remainder(a: f64, b: f64) -> f64;
    pub fn remainderf(a: f32, b: f32) -> f32;
    pub fn remquo(a: f64, b: f64, o: &mut i32) -> f64;
    pub fn remquof(a: f32, b: f32, o: &mut i32) -> f32;
    pub fn rint(a: f64) -> f64;
    pub fn rintf(a: f32) -> f32;
    pub fn rintf128(a: f128) -> f128;
    pub fn rintf16(a: f16) -> f16;
    pub fn round(a: f64) -> f64;
    pub fn roundf(a: f32) -> f32;
    pub fn scalbn(a: f64, n: i32) -> f64;
    pub fn scalbnf(a: f32, n: i32) -> f32;
    pub fn sin(a: f64) -> f64;
    pub fn sincos(a: f64, s: &mut f64, c: &mut f64) -> ();
    pub fn sincosf(a: f32, s: &mut f32, c: &mut f32) -> ();
    pub fn sinf(a: f32) -> f32;
    pub fn sinh(a: f64) -> f64;
    pub fn sinhf(a: f32) -> f32;
    pub fn sqrt(a: f64) -> f64;
    pub fn sqrtf(a: f32) -> f32;
    pub fn tan(a: f64) -> f64;
    pub fn tanf(a: f32) -> f32;
    pub fn tanh(a: f64) -> f64;
    pub fn tanhf(a: f32) -> f32;
    pub fn tgamma(a: f64) -> f64;
    pub fn tgammaf(a: f32) -> f32;
    pub fn trunc(a: f64) -> f64;
    pub fn truncf(a: f32) -> f32;
    pub fn truncf128(a: f128) -> f128;
    pub fn truncf16(a: f16) -> f16;
    pub fn y0(a: f64) -> f64;
    pub fn y0f(a: f32) -> f32;
    pub fn y1(a: f64) -> f64;
    pub fn y1f(a: f32) -> f32;
    pub fn yn(n: i32, a: f64) -> f64;
    pub fn ynf(n: i32, a: f32) -> f32;
} }
ex!(fn v_acosf(a: u32) -> u32 { c::acosf(f32::from_bits(a)).to_bits() });
ex!(fn v_acos(a: u64) -> u64 { c::acos(f64::from_bits(a)).to_bits() });
ex!(fn v_acoshf(a: u32) -> u32 { c::acoshf(f32::from_bits(a)).to_bits() });
ex!(fn v_acosh(a: u64) -> u64 { c::acosh(f64::from_bits(a)).to_bits() });
ex!(fn v_asinf(a: u32) -> u32 { c::asinf(f32::from_bits(a)).to_bits() });
ex!(fn v_asin(a: u64) -> u64 { c::asin(f64::from_bits(a)).to_bits() });
ex!(fn v_asinhf(a: u32) -> u32 { c::asinhf(f32::from_bits(a)).to_bits() });
ex!(fn v_asinh(a: u64) -> u64 { c::asinh(f64::from_bits(a)).to_bits() });
ex!(fn v_atanf(a: u32) -> u32 { c::atanf(f32::from_bits(a)).to_bits() });
ex!(fn v_atan(a: u64) -> u64 { c::atan(f64::from_bits(a)).to_bits() });
ex!(fn v_atanhf(a: u32) -> u32 { c::atanhf(f32::from_bits(a)).to_bits() });
ex!(fn v_atanh(a: u64) -> u64 { c::atanh(f64::from_bits(a)).to_bits() });
ex!(fn v_cbrtf(a: u32) -> u32 { c::cbrtf(f32::from_bits(a)).to_bits() });
ex!(fn v_cbrt(a: u64) -> u64 { c::cbrt(f64::from_bits(a)).to_bits() });
ex!(fn v_cosf(a: u32) -> u32 { c::cosf(f32::from_bits(a)).to_bits() });
ex!(fn v_cos(a: u64) -> u64 { c::cos(f64::from_bits(a)).to_bits() });
ex!(fn v_coshf(a: u32) -> u32 { c::coshf(f32::from_bits(a)).to_bits() });
ex!(fn v_cosh(a: u64) -> u64 { c::cosh(f64::from_bits(a)).to_bits() });
ex!(fn v_erff(a: u32) -> u32 { c::erff(f32::from_bits(a)).to_bits() });
ex!(fn v_erf(a: u64) -> u64 { c::erf(f64::from_bits(a)).to_bits() });
ex!(fn v_erfcf(a: u32) -> u32 { c::erfcf(f32::from_bits(a)).to_bits() });
ex!(fn v_erfc(a: u64) -> u64 { c::erfc(f64::from_bits(a)).to_bits() });
ex!(fn v_expf(a: u32) -> u32 { c::expf(f32::from_bits(a)).to_bits() });
ex!(fn v_exp(a: u64) -> u64 { c::exp(f64::from_bits(a)).to_bits() });
ex!(fn v_exp10f(a: u32) -> u32 { c::exp10f(f32::from_bits(a)).to_bits() });
ex!(fn v_exp10(a: u64) -> u64 { c::exp10(f64::from_bits(a)).to_bits() });
ex!(fn v_exp2f(a: u32) -> u32 { c::exp2f(f32::from_bits(a)).to_bits() });
ex!(fn v_exp2(a: u64) -> u64 { c::exp2(f64::from_bits(a)).to_bits() });
ex!(fn v_expm1f(a: u32) -> u32 { c::expm1f(f32::from_bits(a)).to_bits() });
ex!(fn v_expm1(a: u64) -> u64 { c::expm1(f64::from_bits(a)).to_bits() });
ex!(fn v_j0f(a: u32) -> u32 { c::j0f(f32::from_bits(a)).to_bits() });
ex!(fn v_j0(a: u64) -> u64 { c::j0(f64::from_bits(a)).to_bits() });
ex!(fn v_j1f(a: u32) -> u32 { c::j1f(f32::from_bits(a)).to_bits() });
ex!(fn v_j1(a: u64) -> u64 { c::j1(f64::from_bits(a)).to_bits() });
ex!(fn v_lgammaf(a: u32) -> u32 { c::lgammaf(f32::from_bits(a)).to_bits() });
ex!(fn v_lgamma(a: u64) -> u64 { c::lgamma(f64::from_bits(a)).to_bits() });
ex!(fn v_logf(a: u32) -> u32 { c::logf(f32::from_bits(a)).to_bits() });
ex!(fn v_log(a: u64) -> u64 { c::log(f64::from_bits(a)).to_bits() });
ex!(fn v_log10f(a: u32) -> u32 { c::log10f(f32::from_bits(a)).to_bits() });
ex!(fn v_log10(a: u64) -> u64 { c::log10(f64::from_bits(a)).to_bits() });
ex!(fn v_log1pf(a: u32) -> u32 { c::log1pf(f32::from_bits(a)).to_bits() });
ex!(fn v_log1p(a: u64) -> u64 { c::log1p(f64::from_bits(a)).to_bits() });
ex!(fn v_log2f(a: u32) -> u32 { c::log2f(f32::from_bits(a)).to_bits() });
ex!(fn v_log2(a: u64) -> u64 { c::log2(f64::from_bits(a)).to_bits() });
ex!(fn v_sinf(a: u32) -> u32 { c::sinf(f32::from_bits(a)).to_bits() });
ex!(fn v_sin(a: u64) -> u64 { c::sin(f64::from_bits(a)).to_bits() });
ex!(fn v_sinhf(a: u32) -> u32 { c::sinhf(f32::from_bits(a)).to_bits() });
ex!(fn v_sinh(a: u64) -> u64 { c::sinh(f64::from_bits(a)).to_bits() });
ex!(fn v_tanf(a: u32) -> u32 { c::tanf(f32::from_bits(a)).to_bits() });
ex!(fn v_tan(a: u64) -> u64 { c::tan(f64::from_bits(a)).to_bits() });
ex!(fn v_tanhf(a: u32) -> u32 { c::tanhf(f32::from_bits(a)).to_bits() });
ex!(fn v_tanh(a: u64) -> u64 { c::tanh(f64::from_bits(a)).to_bits() });
ex!(fn v_tgammaf(a: u32) -> u32 { c::tgammaf(f32::from_bits(a)).to_bits() });
ex!(fn v_tgamma(a: u64) -> u64 { c::tgamma(f64::from_bits(a)).to_bits() });
ex!(fn v_y0f(a: u32) -> u32 { c::y0f(f32::from_bits(a)).to_bits() });
ex!(fn v_y0(a: u64) -> u64 { c::y0(f64::from_bits(a)).to_bits() });
ex!(fn v_y1f(a: u32) -> u32 { c::y1f(f32::from_bits(a)).to_bits() });
ex!(fn v_y1(a: u64) -> u64 { c::y1(f64::from_bits(a)).to_bits() });
ex!(fn v_ceilf16(a: u16) -> u16 { c::ceilf16(f16::from_bits(a)).to_bits() });
ex!(fn v_ceilf(a: u32) -> u32 { c::ceilf(f32::from_bits(a)).to_bits() });
ex!(fn v_ceil(a: u64) -> u64 { c::ceil(f64::from_bits(a)).to_bits() });
ex!(fn v_ceilf128(a: u128) -> u128 { c::ceilf128(f128::from_bits(a)).to_bits() });
ex!(fn v_fabsf16(a: u16) -> u16 { c::fabsf16(f16::from_bits(a)).to_bits() });
ex!(fn v_fabsf(a: u32) -> u32 { c::fabsf(f32::from_bits(a)).to_bits() });
ex!(fn v_fabs(a: u64) -> u64 { c::fabs(f64::from_bits(a)).to_bits() });
ex!(fn v_fabsf128(a: u128) -> u128 { c::fabsf128(f128::from_bits(a)).to_bits() });
ex!(fn v_floorf16(a: u16) -> u16 { c::floorf16(f16::from_bits(a)).to_bits() });
ex!(fn v_floorf(a: u32) -> u32 { c::floorf(f32::from_bits(a)).to_bits() });
ex!(fn v_floor(a: u64) -> u64 { c::floor(f64::from_bits(a)).to_bits() });
ex!(fn v_floorf128(a: u128) -> u128 { c::floorf128(f128::from_bits(a)).to_bits() });
ex!(fn v_rintf16(a: u16) -> u16 { c::rintf16(f16::from_bits(a)).to_bits() });
ex!(fn v_rintf(a: u32) -> u32 { c::rintf(f32::from_bits(a)).to_bits() });
ex!(fn v_rint(a: u64) -> u64 { c::rint(f64::from_bits(a)).to_bits() });
ex!(fn v_rintf128(a: u128) -> u128 { c::rintf128(f128::from_bits(a)).to_bits() });
ex!(fn v_roundf16(a: u16) -> u16 { missing::<f16>(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_roundf(a: u32) -> u32 { c::roundf(f32::from_bits(a)).to_bits() });
ex!(fn v_round(a: u64) -> u64 { c::round(f64::from_bits(a)).to_bits() });
ex!(fn v_roundf128(a: u128) -> u128 { missing::<f128>(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_roundevenf16(a: u16) -> u16 { missing::<f16>(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_roundevenf(a: u32) -> u32 { missing::<f32>(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_roundeven(a: u64) -> u64 { missing::<f64>(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_roundevenf128(a: u128) -> u128 { missing::<f128>(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_sqrtf16(a: u16) -> u16 { missing::<f16>(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_sqrtf(a: u32) -> u32 { c::sqrtf(f32::from_bits(a)).to_bits() });
ex!(fn v_sqrt(a: u64) -> u64 { c::sqrt(f64::from_bits(a)).to_bits() });
ex!(fn v_sqrtf128(a: u128) -> u128 { missing::<f128>(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_truncf16(a: u16) -> u16 { c::truncf16(f16::from_bits(a)).to_bits() });
ex!(fn v_truncf(a: u32) -> u32 { c::truncf(f32::from_bits(a)).to_bits() });
ex!(fn v_trunc(a: u64) -> u64 { c::trunc(f64::from_bits(a)).to_bits() });
ex!(fn v_truncf128(a: u128) -> u128 { c::truncf128(f128::from_bits(a)).to_bits() });
ex!(fn v_atan2f(a: u32, b: u32) -> u32 { c::atan2f(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_atan2(a: u64, b: u64) -> u64 { c::atan2(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_hypotf(a: u32, b: u32) -> u32 { c::hypotf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_hypot(a: u64, b: u64) -> u64 { c::hypot(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_nextafterf(a: u32, b: u32) -> u32 { c::nextafterf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_nextafter(a: u64, b: u64) -> u64 { c::nextafter(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_powf(a: u32, b: u32) -> u32 { c::powf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_pow(a: u64, b: u64) -> u64 { c::pow(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_remainderf(a: u32, b: u32) -> u32 { c::remainderf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_remainder(a: u64, b: u64) -> u64 { c::remainder(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_copysignf16(a: u16, b: u16) -> u16 { c::copysignf16(f16::from_bits(a), f16::from_bits(b)).to_bits() });
ex!(fn v_copysignf(a: u32, b: u32) -> u32 { c::copysignf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_copysign(a: u64, b: u64) -> u64 { c::copysign(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_copysignf128(a: u128, b: u128) -> u128 { c::copysignf128(f128::from_bits(a), f128::from_bits(b)).to_bits() });
ex!(fn v_fdimf16(a: u16, b: u16) -> u16 { c::fdimf16(f16::from_bits(a), f16::from_bits(b)).to_bits() });
ex!(fn v_fdimf(a: u32, b: u32) -> u32 { c::fdimf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_fdim(a: u64, b: u64) -> u64 { c::fdim(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_fdimf128(a: u128, b: u128) -> u128 { c::fdimf128(f128::from_bits(a), f128::from_bits(b)).to_bits() });
ex!(fn v_fmaxf16(a: u16, b: u16) -> u16 { missing::<f16>(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmaxf(a: u32, b: u32) -> u32 { c::fmaxf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_fmax(a: u64, b: u64) -> u64 { c::fmax(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_fmaxf128(a: u128, b: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmaximumf16(a: u16, b: u16) -> u16 { missing::<f16>(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmaximumf(a: u32, b: u32) -> u32 { missing::<f32>(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fmaximum(a: u64, b: u64) -> u64 { missing::<f64>(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fmaximumf128(a: u128, b: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmaximum_numf16(a: u16, b: u16) -> u16 { missing::<f16>(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmaximum_numf(a: u32, b: u32) -> u32 { missing::<f32>(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fmaximum_num(a: u64, b: u64) -> u64 { missing::<f64>(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fmaximum_numf128(a: u128, b: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fminf16(a: u16, b: u16) -> u16 { missing::<f16>(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fminf(a: u32, b: u32) -> u32 { c::fminf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_fmin(a: u64, b: u64) -> u64 { c::fmin(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_fminf128(a: u128, b: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fminimumf16(a: u16, b: u16) -> u16 { missing::<f16>(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fminimumf(a: u32, b: u32) -> u32 { missing::<f32>(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fminimum(a: u64, b: u64) -> u64 { missing::<f64>(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fminimumf128(a: u128, b: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fminimum_numf16(a: u16, b: u16) -> u16 { missing::<f16>(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fminimum_numf(a: u32, b: u32) -> u32 { missing::<f32>(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fminimum_num(a: u64, b: u64) -> u64 { missing::<f64>(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fminimum_numf128(a: u128, b: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmodf16(a: u16, b: u16) -> u16 { missing::<f16>(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmodf(a: u32, b: u32) -> u32 { c::fmodf(f32::from_bits(a), f32::from_bits(b)).to_bits() });
ex!(fn v_fmod(a: u64, b: u64) -> u64 { c::fmod(f64::from_bits(a), f64::from_bits(b)).to_bits() });
ex!(fn v_fmodf128(a: u128, b: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmaf(a: u32, b: u32, d: u32) -> u32 { c::fmaf(f32::from_bits(a), f32::from_bits(b), f32::from_bits(d)).to_bits() });
ex!(fn v_fma(a: u64, b: u64, d: u64) -> u64 { c::fma(f64::from_bits(a), f64::from_bits(b), f64::from_bits(d)).to_bits() });
ex!(fn v_fmaf128(a: u128, b: u128, d: u128) -> u128 { missing::<f128>(f128::from_bits(a), f128::from_bits(b), f128::from_bits(d)).to_bits() } else { u128::MAX });
ex!(fn v_ilogbf(a: u32) -> i32 { c::ilogbf(f32::from_bits(a)) });
ex!(fn v_ilogb(a: u64) -> i32 { c::ilogb(f64::from_bits(a)) });
ex!(fn v_jnf(n: i32, a: u32) -> u32 { c::jnf(n, f32::from_bits(a)).to_bits() });
ex!(fn v_jn(n: i32, a: u64) -> u64 { c::jn(n, f64::from_bits(a)).to_bits() });
ex!(fn v_ynf(n: i32, a: u32) -> u32 { c::ynf(n, f32::from_bits(a)).to_bits() });
ex!(fn v_yn(n: i32, a: u64) -> u64 { c::yn(n, f64::from_bits(a)).to_bits() });
ex!(fn v_ldexpf16(a: u16, n: i32) -> u16 { missing::<f16>(f16::from_bits(a), n).to_bits() } else { u16::MAX });
ex!(fn v_ldexpf(a: u32, n: i32) -> u32 { c::ldexpf(f32::from_bits(a), n).to_bits() });
ex!(fn v_ldexp(a: u64, n: i32) -> u64 { c::ldexp(f64::from_bits(a), n).to_bits() });
ex!(fn v_ldexpf128(a: u128, n: i32) -> u128 { missing::<f128>(f128::from_bits(a), n).to_bits() } else { u128::MAX });
ex!(fn v_scalbnf16(a: u16, n: i32) -> u16 { missing::<f16>(f16::from_bits(a), n).to_bits() } else { u16::MAX });
ex!(fn v_scalbnf(a: u32, n: i32) -> u32 { c::scalbnf(f32::from_bits(a), n).to_bits() });
ex!(fn v_scalbn(a: u64, n: i32) -> u64 { c::scalbn(f64::from_bits(a), n).to_bits() });
ex!(fn v_scalbnf128(a: u128, n: i32) -> u128 { missing::<f128>(f128::from_bits(a), n).to_bits() } else { u128::MAX });
ex!(fn v_modff(a: u32, o: &mut u32) -> u32 { let mut y = f32::from_bits(0); let x = c::modff(f32::from_bits(a), &mut y); *o = y.to_bits(); x.to_bits() });
ex!(fn v_modf(a: u64, o: &mut u64) -> u64 { let mut y = f64::from_bits(0); let x = c::modf(f64::from_bits(a), &mut y); *o = y.to_bits(); x.to_bits() });
ex!(fn v_sincosf(a: u32, o: &mut u32) -> u32 { let (mut s, mut k) = (f32::from_bits(1), f32::from_bits(1)); c::sincosf(f32::from_bits(a), &mut s, &mut k); *o = k.to_bits(); s.to_bits() });
ex!(fn v_sincos(a: u64, o: &mut u64) -> u64 { let (mut s, mut k) = (f64::from_bits(1), f64::from_bits(1)); c::sincos(f64::from_bits(a), &mut s, &mut k); *o = k.to_bits(); s.to_bits() });
ex!(fn v_frexpf(a: u32, o: &mut i32) -> u32 { c::frexpf(f32::from_bits(a), o).to_bits() });
ex!(fn v_frexp(a: u64, o: &mut i32) -> u64 { c::frexp(f64::from_bits(a), o).to_bits() });
ex!(fn v_lgammaf_r(a: u32, o: &mut i32) -> u32 { c::lgammaf_r(f32::from_bits(a), o).to_bits() });
ex!(fn v_lgamma_r(a: u64, o: &mut i32) -> u64 { c::lgamma_r(f64::from_bits(a), o).to_bits() });
ex!(fn v_remquof(a: u32, b: u32, o: &mut i32) -> u32 { c::remquof(f32::from_bits(a), f32::from_bits(b), o).to_bits() });
ex!(fn v_remquo(a: u64, b: u64, o: &mut i32) -> u64 { c::remquo(f64::from_bits(a), f64::from_bits(b), o).to_bits() });
h!(h_f32_acos);
h!(h_f32_acosh);
h!(h_f32_asin);
h!(h_f32_asinh);
h!(h_f32_atan);
h!(h_f32_atan2);
h!(h_f32_atanh);
h!(h_f32_cbrt);
h!(h_f32_ceil);
h!(h_f32_copysign);
h!(h_f32_cos);
h!(h_f32_cosh);
h!(h_f32_erf);
h!(h_f32_erfc);
h!(h_f32_exp);
h!(h_f32_exp10);
h!(h_f32_exp2);
h!(h_f32_expm1);
h!(h_f32_fabs);
h!(h_f32_fdim);
h!(h_f32_floor);
h!(h_f32_fma);
h!(h_f32_fmax);
h!(h_f32_fmin);
h!(h_f32_fmod);
h!(h_f32_frexp);
h!(h_f32_hypot);
h!(h_f32_ilogb);
h!(h_f32_j0);
h!(h_f32_j1);
h!(h_f32_jn);
h!(h_f32_ldexp);
h!(h_f32_lgamma);
h!(h_f32_lgamma_r);
h!(h_f32_log);
h!(h_f32_log10);
h!(h_f32_log1p);
h!(h_f32_log2);
h!(h_f32_modf);
h!(h_f32_nextafter);
h!(h_f32_pow);
h!(h_f32_remainder);
h!(h_f32_remquo);
h!(h_f32_rint);
h!(h_f32_round);
h!(h_f32_roundeven);
h!(h_f32_scalbn);
h!(h_f32_sin);
h!(h_f32_sincos);
h!(h_f32_sinh);
h!(h_f32_sqrt);
h!(h_f32_tan);
h!(h_f32_tanh);
h!(h_f32_tgamma);
h!(h_f32_trunc);
h!(h_f32_y0);
h!(h_f32_y1);
h!(h_f32_yn);
h!(h_f64_acos);
h!(h_f64_acosh);
h!(h_f64_asin);
h!(h_f64_asinh);
h!(h_f64_atan);
h!(h_f64_atanh);
h!(h_f64_cbrt);
h!(h_f64_cos);
h!(h_f64_cosh);
h!(h_f64_erf);
h!(h_f64_erfc);
h!(h_f64_exp);
h!(h_f64_exp10);
h!(h_f64_exp2);
h!(h_f64_expm1);
h!(h_f64_j0);
h!(h_f64_j1);
h!(h_f64_lgamma);
h!(h_f64_log);
h!(h_f64_log10);
h!(h_f64_log1p);
h!(h_f64_log2);
h!(h_f64_sin);
h!(h_f64_sinh);
h!(h_f64_tan);
h!(h_f64_tanh);
h!(h_f64_tgamma);
h!(h_f64_y0);
h!(h_f64_y1);
h!(h_f64_ceil);
h!(h_f64_fabs);
h!(h_f64_floor);
h!(h_f64_rint);
h!(h_f64_round);
h!(h_f64_roundevem);
h!(h_f64_sqrt);
h!(h_f64_trunc);
h!(h_f64_atan2);
h!(h_f64_hypot);
h!(h_f64_nextafter);
h!(h_f64_pow);
h!(h_f64_remainder);
h!(h_f64_copysign);
h!(h_f64_fdim);
h!(h_f64_fmax);
h!(h_f64_fmaximum);
h!(h_f64_fmaximum_num);
h!(h_f64_fmin);
h!(h_f64_fminimum);
h!(h_f64_fminimum_num);
h!(h_f64_fmod);
h!(h_f64_fma);
h!(h_f64_ilogb);
h!(h_f64_jn);
h!(h_f64_yn);
h!(h_f64_ldexp);
h!(h_f64_scalbn);
h!(h_f64_modf);
h!(h_f64_sincos);
h!(h_f64_frexp);
h!(h_f64_lgamma_r);
h!(h_f64_remquo);
h!(h_f64_fmaximum_numf);
h!(h_f64_fmaximumf);
h!(h_f64_fminimum_numf);
h!(h_f64_fminimumf);
h!(h_f16_ceil);
h!(h_f16_copysign);
h!(h_f16_fabs);
h!(h_f16_fdim);
h!(h_f16_floor);
h!(h_f16_fmax);
h!(h_f16_fmaximum_num);
h!(h_f16_fmaximumf16);
h!(h_f16_fmin);
h!(h_f16_fminimum);
h!(h_f16_fminimum_num);
h!(h_f16_fmod);
h!(h_f16_ldexp);
h!(h_f16_rint);
h!(h_f16_round);
h!(h_f16_roundeven);
h!(h_f16_scalbn);
h!(h_f16_sqrtf);
h!(h_f16_truncf);
h!(h_f128_ceil);
h!(h_f128_fabs);
h!(h_f128_floor);
h!(h_f128_rint);
h!(h_f128_round);
h!(h_f128_roundeven);
h!(h_f128_sqrt);
h!(h_f128_trunc);
h!(h_f128_copysign);
h!(h_f128_fdim);
h!(h_f128_fmax);
h!(h_f128_fmaximum);
h!(h_f128_fmaximum_num);
h!(h_f128_fmin);
h!(h_f128_fminimum);
h!(h_f128_fminimum_num);
h!(h_f128_fmod);
h!(h_f128_fma);
h!(h_f128_ldexp);
h!(h_f128_scalbn);
