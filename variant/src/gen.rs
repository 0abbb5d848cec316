// Generated by tools/gen_api.py
ex!(fn v_acosf(a: u32) -> u32 { libm::acosf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_acos(a: u64) -> u64 { libm::acos(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_acoshf(a: u32) -> u32 { libm::acoshf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_acosh(a: u64) -> u64 { libm::acosh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_asinf(a: u32) -> u32 { libm::asinf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_asin(a: u64) -> u64 { libm::asin(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_asinhf(a: u32) -> u32 { libm::asinhf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_asinh(a: u64) -> u64 { libm::asinh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_atanf(a: u32) -> u32 { libm::atanf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_atan(a: u64) -> u64 { libm::atan(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_atanhf(a: u32) -> u32 { libm::atanhf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_atanh(a: u64) -> u64 { libm::atanh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_cbrtf(a: u32) -> u32 { libm::cbrtf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_cbrt(a: u64) -> u64 { libm::cbrt(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_cosf(a: u32) -> u32 { libm::cosf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_cos(a: u64) -> u64 { libm::cos(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_coshf(a: u32) -> u32 { libm::coshf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_cosh(a: u64) -> u64 { libm::cosh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_erff(a: u32) -> u32 { libm::erff(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_erf(a: u64) -> u64 { libm::erf(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_erfcf(a: u32) -> u32 { libm::erfcf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_erfc(a: u64) -> u64 { libm::erfc(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_expf(a: u32) -> u32 { libm::expf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_exp(a: u64) -> u64 { libm::exp(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_exp10f(a: u32) -> u32 { libm::exp10f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_exp10(a: u64) -> u64 { libm::exp10(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_exp2f(a: u32) -> u32 { libm::exp2f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_exp2(a: u64) -> u64 { libm::exp2(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_expm1f(a: u32) -> u32 { libm::expm1f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_expm1(a: u64) -> u64 { libm::expm1(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_j0f(a: u32) -> u32 { libm::j0f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_j0(a: u64) -> u64 { libm::j0(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_j1f(a: u32) -> u32 { libm::j1f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_j1(a: u64) -> u64 { libm::j1(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_lgammaf(a: u32) -> u32 { libm::lgammaf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_lgamma(a: u64) -> u64 { libm::lgamma(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_logf(a: u32) -> u32 { libm::logf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_log(a: u64) -> u64 { libm::log(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_log10f(a: u32) -> u32 { libm::log10f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_log10(a: u64) -> u64 { libm::log10(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_log1pf(a: u32) -> u32 { libm::log1pf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_log1p(a: u64) -> u64 { libm::log1p(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_log2f(a: u32) -> u32 { libm::log2f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_log2(a: u64) -> u64 { libm::log2(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_sinf(a: u32) -> u32 { libm::sinf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_sin(a: u64) -> u64 { libm::sin(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_sinhf(a: u32) -> u32 { libm::sinhf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_sinh(a: u64) -> u64 { libm::sinh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_tanf(a: u32) -> u32 { libm::tanf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_tan(a: u64) -> u64 { libm::tan(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_tanhf(a: u32) -> u32 { libm::tanhf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_tanh(a: u64) -> u64 { libm::tanh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_tgammaf(a: u32) -> u32 { libm::tgammaf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_tgamma(a: u64) -> u64 { libm::tgamma(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_y0f(a: u32) -> u32 { libm::y0f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_y0(a: u64) -> u64 { libm::y0(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_y1f(a: u32) -> u32 { libm::y1f(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_y1(a: u64) -> u64 { libm::y1(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_ceilf16(a: u16) -> u16 { libm::ceilf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_ceilf(a: u32) -> u32 { libm::ceilf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_ceil(a: u64) -> u64 { libm::ceil(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_ceilf128(a: u128) -> u128 { libm::ceilf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_fabsf16(a: u16) -> u16 { libm::fabsf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_fabsf(a: u32) -> u32 { libm::fabsf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_fabs(a: u64) -> u64 { libm::fabs(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_fabsf128(a: u128) -> u128 { libm::fabsf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_floorf16(a: u16) -> u16 { libm::floorf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_floorf(a: u32) -> u32 { libm::floorf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_floor(a: u64) -> u64 { libm::floor(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_floorf128(a: u128) -> u128 { libm::floorf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_rintf16(a: u16) -> u16 { libm::rintf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_rintf(a: u32) -> u32 { libm::rintf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_rint(a: u64) -> u64 { libm::rint(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_rintf128(a: u128) -> u128 { libm::rintf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_roundf16(a: u16) -> u16 { libm::roundf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_roundf(a: u32) -> u32 { libm::roundf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_round(a: u64) -> u64 { libm::round(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_roundf128(a: u128) -> u128 { libm::roundf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_roundevenf16(a: u16) -> u16 { libm::roundevenf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_roundevenf(a: u32) -> u32 { libm::roundevenf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_roundeven(a: u64) -> u64 { libm::roundeven(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_roundevenf128(a: u128) -> u128 { libm::roundevenf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_sqrtf16(a: u16) -> u16 { libm::sqrtf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_sqrtf(a: u32) -> u32 { libm::sqrtf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_sqrt(a: u64) -> u64 { libm::sqrt(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_sqrtf128(a: u128) -> u128 { libm::sqrtf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_truncf16(a: u16) -> u16 { libm::truncf16(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn v_truncf(a: u32) -> u32 { libm::truncf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_trunc(a: u64) -> u64 { libm::trunc(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_truncf128(a: u128) -> u128 { libm::truncf128(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn v_atan2f(a: u32, b: u32) -> u32 { libm::atan2f(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_atan2(a: u64, b: u64) -> u64 { libm::atan2(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_hypotf(a: u32, b: u32) -> u32 { libm::hypotf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_hypot(a: u64, b: u64) -> u64 { libm::hypot(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_nextafterf(a: u32, b: u32) -> u32 { libm::nextafterf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_nextafter(a: u64, b: u64) -> u64 { libm::nextafter(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_powf(a: u32, b: u32) -> u32 { libm::powf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_pow(a: u64, b: u64) -> u64 { libm::pow(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_remainderf(a: u32, b: u32) -> u32 { libm::remainderf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_remainder(a: u64, b: u64) -> u64 { libm::remainder(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_copysignf16(a: u16, b: u16) -> u16 { libm::copysignf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_copysignf(a: u32, b: u32) -> u32 { libm::copysignf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_copysign(a: u64, b: u64) -> u64 { libm::copysign(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_copysignf128(a: u128, b: u128) -> u128 { libm::copysignf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fdimf16(a: u16, b: u16) -> u16 { libm::fdimf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fdimf(a: u32, b: u32) -> u32 { libm::fdimf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fdim(a: u64, b: u64) -> u64 { libm::fdim(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fdimf128(a: u128, b: u128) -> u128 { libm::fdimf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmaxf16(a: u16, b: u16) -> u16 { libm::fmaxf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmaxf(a: u32, b: u32) -> u32 { libm::fmaxf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fmax(a: u64, b: u64) -> u64 { libm::fmax(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fmaxf128(a: u128, b: u128) -> u128 { libm::fmaxf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmaximumf16(a: u16, b: u16) -> u16 { libm::fmaximumf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmaximumf(a: u32, b: u32) -> u32 { libm::fmaximumf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fmaximum(a: u64, b: u64) -> u64 { libm::fmaximum(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fmaximumf128(a: u128, b: u128) -> u128 { libm::fmaximumf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmaximum_numf16(a: u16, b: u16) -> u16 { libm::fmaximum_numf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmaximum_numf(a: u32, b: u32) -> u32 { libm::fmaximum_numf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fmaximum_num(a: u64, b: u64) -> u64 { libm::fmaximum_num(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fmaximum_numf128(a: u128, b: u128) -> u128 { libm::fmaximum_numf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fminf16(a: u16, b: u16) -> u16 { libm::fminf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fminf(a: u32, b: u32) -> u32 { libm::fminf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fmin(a: u64, b: u64) -> u64 { libm::fmin(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fminf128(a: u128, b: u128) -> u128 { libm::fminf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fminimumf16(a: u16, b: u16) -> u16 { libm::fminimumf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fminimumf(a: u32, b: u32) -> u32 { libm::fminimumf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fminimum(a: u64, b: u64) -> u64 { libm::fminimum(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fminimumf128(a: u128, b: u128) -> u128 { libm::fminimumf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fminimum_numf16(a: u16, b: u16) -> u16 { libm::fminimum_numf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fminimum_numf(a: u32, b: u32) -> u32 { libm::fminimum_numf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fminimum_num(a: u64, b: u64) -> u64 { libm::fminimum_num(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fminimum_numf128(a: u128, b: u128) -> u128 { libm::fminimum_numf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmodf16(a: u16, b: u16) -> u16 { libm::fmodf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn v_fmodf(a: u32, b: u32) -> u32 { libm::fmodf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn v_fmod(a: u64, b: u64) -> u64 { libm::fmod(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn v_fmodf128(a: u128, b: u128) -> u128 { libm::fmodf128(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn v_fmaf(a: u32, b: u32, d: u32) -> u32 { libm::fmaf(f32::from_bits(a), f32::from_bits(b), f32::from_bits(d)).to_bits() } else { u32::MAX });
ex!(fn v_fma(a: u64, b: u64, d: u64) -> u64 { libm::fma(f64::from_bits(a), f64::from_bits(b), f64::from_bits(d)).to_bits() } else { u64::MAX });
ex!(fn v_fmaf128(a: u128, b: u128, d: u128) -> u128 { libm::fmaf128(f128::from_bits(a), f128::from_bits(b), f128::from_bits(d)).to_bits() } else { u128::MAX });
ex!(fn v_ilogbf(a: u32) -> i32 { libm::ilogbf(f32::from_bits(a)) } else { 0x7ead_beef });
ex!(fn v_ilogb(a: u64) -> i32 { libm::ilogb(f64::from_bits(a)) } else { 0x7ead_beef });
ex!(fn v_jnf(n: i32, a: u32) -> u32 { libm::jnf(n, f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_jn(n: i32, a: u64) -> u64 { libm::jn(n, f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_ynf(n: i32, a: u32) -> u32 { libm::ynf(n, f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn v_yn(n: i32, a: u64) -> u64 { libm::yn(n, f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn v_ldexpf16(a: u16, n: i32) -> u16 { libm::ldexpf16(f16::from_bits(a), n).to_bits() } else { u16::MAX });
ex!(fn v_ldexpf(a: u32, n: i32) -> u32 { libm::ldexpf(f32::from_bits(a), n).to_bits() } else { u32::MAX });
ex!(fn v_ldexp(a: u64, n: i32) -> u64 { libm::ldexp(f64::from_bits(a), n).to_bits() } else { u64::MAX });
ex!(fn v_ldexpf128(a: u128, n: i32) -> u128 { libm::ldexpf128(f128::from_bits(a), n).to_bits() } else { u128::MAX });
ex!(fn v_scalbnf16(a: u16, n: i32) -> u16 { libm::scalbnf16(f16::from_bits(a), n).to_bits() } else { u16::MAX });
ex!(fn v_scalbnf(a: u32, n: i32) -> u32 { libm::scalbnf(f32::from_bits(a), n).to_bits() } else { u32::MAX });
ex!(fn v_scalbn(a: u64, n: i32) -> u64 { libm::scalbn(f64::from_bits(a), n).to_bits() } else { u64::MAX });
ex!(fn v_scalbnf128(a: u128, n: i32) -> u128 { libm::scalbnf128(f128::from_bits(a), n).to_bits() } else { u128::MAX });
ex!(fn v_modff(a: u32, o: &mut u32) -> u32 { let (x, y) = libm::modff(f32::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u32::MAX });
ex!(fn v_modf(a: u64, o: &mut u64) -> u64 { let (x, y) = libm::modf(f64::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u64::MAX });
ex!(fn v_sincosf(a: u32, o: &mut u32) -> u32 { let (x, y) = libm::sincosf(f32::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u32::MAX });
ex!(fn v_sincos(a: u64, o: &mut u64) -> u64 { let (x, y) = libm::sincos(f64::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u64::MAX });
ex!(fn v_frexpf(a: u32, o: &mut i32) -> u32 { let (x, y) = libm::frexpf(f32::from_bits(a)); *o = y; x.to_bits() } else { u32::MAX });
ex!(fn v_frexp(a: u64, o: &mut i32) -> u64 { let (x, y) = libm::frexp(f64::from_bits(a)); *o = y; x.to_bits() } else { u64::MAX });
ex!(fn v_lgammaf_r(a: u32, o: &mut i32) -> u32 { let (x, y) = libm::lgammaf_r(f32::from_bits(a)); *o = y; x.to_bits() } else { u32::MAX });
ex!(fn v_lgamma_r(a: u64, o: &mut i32) -> u64 { let (x, y) = libm::lgamma_r(f64::from_bits(a)); *o = y; x.to_bits() } else { u64::MAX });
ex!(fn v_remquof(a: u32, b: u32, o: &mut i32) -> u32 { let (x, y) = libm::remquof(f32::from_bits(a), f32::from_bits(b)); *o = y; x.to_bits() } else { u32::MAX });
ex!(fn v_remquo(a: u64, b: u64, o: &mut i32) -> u64 { let (x, y) = libm::remquo(f64::from_bits(a), f64::from_bits(b)); *o = y; x.to_bits() } else { u64::MAX });
ex!(fn h_f32_acos(a: u32) -> u32 { libm::Libm::<f32>::acos(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_acosh(a: u32) -> u32 { libm::Libm::<f32>::acosh(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_asin(a: u32) -> u32 { libm::Libm::<f32>::asin(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_asinh(a: u32) -> u32 { libm::Libm::<f32>::asinh(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_atan(a: u32) -> u32 { libm::Libm::<f32>::atan(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_atan2(a: u32, b: u32) -> u32 { libm::Libm::<f32>::atan2(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_atanh(a: u32) -> u32 { libm::Libm::<f32>::atanh(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_cbrt(a: u32) -> u32 { libm::Libm::<f32>::cbrt(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_ceil(a: u32) -> u32 { libm::Libm::<f32>::ceil(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_copysign(a: u32, b: u32) -> u32 { libm::Libm::<f32>::copysign(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_cos(a: u32) -> u32 { libm::Libm::<f32>::cos(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_cosh(a: u32) -> u32 { libm::Libm::<f32>::cosh(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_erf(a: u32) -> u32 { libm::Libm::<f32>::erf(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_erfc(a: u32) -> u32 { libm::Libm::<f32>::erfc(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_exp(a: u32) -> u32 { libm::Libm::<f32>::exp(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_exp10(a: u32) -> u32 { libm::Libm::<f32>::exp10(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_exp2(a: u32) -> u32 { libm::Libm::<f32>::exp2(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_expm1(a: u32) -> u32 { libm::Libm::<f32>::expm1(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_fabs(a: u32) -> u32 { libm::Libm::<f32>::fabs(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_fdim(a: u32, b: u32) -> u32 { libm::Libm::<f32>::fdim(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_floor(a: u32) -> u32 { libm::Libm::<f32>::floor(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_fma(a: u32, b: u32, d: u32) -> u32 { libm::Libm::<f32>::fma(f32::from_bits(a), f32::from_bits(b), f32::from_bits(d)).to_bits() } else { u32::MAX });
ex!(fn h_f32_fmax(a: u32, b: u32) -> u32 { libm::Libm::<f32>::fmax(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_fmin(a: u32, b: u32) -> u32 { libm::Libm::<f32>::fmin(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_fmod(a: u32, b: u32) -> u32 { libm::Libm::<f32>::fmod(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_frexp(a: u32, o: &mut i32) -> u32 { let (x, y) = libm::Libm::<f32>::frexp(f32::from_bits(a)); *o = y; x.to_bits() } else { u32::MAX });
ex!(fn h_f32_hypot(a: u32, b: u32) -> u32 { libm::Libm::<f32>::hypot(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_ilogb(a: u32) -> i32 { libm::Libm::<f32>::ilogb(f32::from_bits(a)) } else { 0x7ead_beef });
ex!(fn h_f32_j0(a: u32) -> u32 { libm::Libm::<f32>::j0(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_j1(a: u32) -> u32 { libm::Libm::<f32>::j1(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_jn(n: i32, a: u32) -> u32 { libm::Libm::<f32>::jn(n, f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_ldexp(a: u32, n: i32) -> u32 { libm::Libm::<f32>::ldexp(f32::from_bits(a), n).to_bits() } else { u32::MAX });
ex!(fn h_f32_lgamma(a: u32) -> u32 { libm::Libm::<f32>::lgamma(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_lgamma_r(a: u32, o: &mut i32) -> u32 { let (x, y) = libm::Libm::<f32>::lgamma_r(f32::from_bits(a)); *o = y; x.to_bits() } else { u32::MAX });
ex!(fn h_f32_log(a: u32) -> u32 { libm::Libm::<f32>::log(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_log10(a: u32) -> u32 { libm::Libm::<f32>::log10(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_log1p(a: u32) -> u32 { libm::Libm::<f32>::log1p(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_log2(a: u32) -> u32 { libm::Libm::<f32>::log2(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_modf(a: u32, o: &mut u32) -> u32 { let (x, y) = libm::Libm::<f32>::modf(f32::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u32::MAX });
ex!(fn h_f32_nextafter(a: u32, b: u32) -> u32 { libm::Libm::<f32>::nextafter(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_pow(a: u32, b: u32) -> u32 { libm::Libm::<f32>::pow(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_remainder(a: u32, b: u32) -> u32 { libm::Libm::<f32>::remainder(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f32_remquo(a: u32, b: u32, o: &mut i32) -> u32 { let (x, y) = libm::Libm::<f32>::remquo(f32::from_bits(a), f32::from_bits(b)); *o = y; x.to_bits() } else { u32::MAX });
ex!(fn h_f32_rint(a: u32) -> u32 { libm::Libm::<f32>::rint(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_round(a: u32) -> u32 { libm::Libm::<f32>::round(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_roundeven(a: u32) -> u32 { libm::Libm::<f32>::roundeven(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_scalbn(a: u32, n: i32) -> u32 { libm::Libm::<f32>::scalbn(f32::from_bits(a), n).to_bits() } else { u32::MAX });
ex!(fn h_f32_sin(a: u32) -> u32 { libm::Libm::<f32>::sin(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_sincos(a: u32, o: &mut u32) -> u32 { let (x, y) = libm::Libm::<f32>::sincos(f32::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u32::MAX });
ex!(fn h_f32_sinh(a: u32) -> u32 { libm::Libm::<f32>::sinh(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_sqrt(a: u32) -> u32 { libm::Libm::<f32>::sqrt(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_tan(a: u32) -> u32 { libm::Libm::<f32>::tan(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_tanh(a: u32) -> u32 { libm::Libm::<f32>::tanh(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_tgamma(a: u32) -> u32 { libm::Libm::<f32>::tgamma(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_trunc(a: u32) -> u32 { libm::Libm::<f32>::trunc(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_y0(a: u32) -> u32 { libm::Libm::<f32>::y0(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_y1(a: u32) -> u32 { libm::Libm::<f32>::y1(f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f32_yn(n: i32, a: u32) -> u32 { libm::Libm::<f32>::yn(n, f32::from_bits(a)).to_bits() } else { u32::MAX });
ex!(fn h_f64_acos(a: u64) -> u64 { libm::Libm::<f64>::acos(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_acosh(a: u64) -> u64 { libm::Libm::<f64>::acosh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_asin(a: u64) -> u64 { libm::Libm::<f64>::asin(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_asinh(a: u64) -> u64 { libm::Libm::<f64>::asinh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_atan(a: u64) -> u64 { libm::Libm::<f64>::atan(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_atanh(a: u64) -> u64 { libm::Libm::<f64>::atanh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_cbrt(a: u64) -> u64 { libm::Libm::<f64>::cbrt(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_cos(a: u64) -> u64 { libm::Libm::<f64>::cos(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_cosh(a: u64) -> u64 { libm::Libm::<f64>::cosh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_erf(a: u64) -> u64 { libm::Libm::<f64>::erf(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_erfc(a: u64) -> u64 { libm::Libm::<f64>::erfc(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_exp(a: u64) -> u64 { libm::Libm::<f64>::exp(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_exp10(a: u64) -> u64 { libm::Libm::<f64>::exp10(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_exp2(a: u64) -> u64 { libm::Libm::<f64>::exp2(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_expm1(a: u64) -> u64 { libm::Libm::<f64>::expm1(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_j0(a: u64) -> u64 { libm::Libm::<f64>::j0(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_j1(a: u64) -> u64 { libm::Libm::<f64>::j1(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_lgamma(a: u64) -> u64 { libm::Libm::<f64>::lgamma(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_log(a: u64) -> u64 { libm::Libm::<f64>::log(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_log10(a: u64) -> u64 { libm::Libm::<f64>::log10(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_log1p(a: u64) -> u64 { libm::Libm::<f64>::log1p(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_log2(a: u64) -> u64 { libm::Libm::<f64>::log2(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_sin(a: u64) -> u64 { libm::Libm::<f64>::sin(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_sinh(a: u64) -> u64 { libm::Libm::<f64>::sinh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_tan(a: u64) -> u64 { libm::Libm::<f64>::tan(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_tanh(a: u64) -> u64 { libm::Libm::<f64>::tanh(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_tgamma(a: u64) -> u64 { libm::Libm::<f64>::tgamma(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_y0(a: u64) -> u64 { libm::Libm::<f64>::y0(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_y1(a: u64) -> u64 { libm::Libm::<f64>::y1(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_ceil(a: u64) -> u64 { libm::Libm::<f64>::ceil(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fabs(a: u64) -> u64 { libm::Libm::<f64>::fabs(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_floor(a: u64) -> u64 { libm::Libm::<f64>::floor(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_rint(a: u64) -> u64 { libm::Libm::<f64>::rint(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_round(a: u64) -> u64 { libm::Libm::<f64>::round(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_roundevem(a: u64) -> u64 { libm::Libm::<f64>::roundevem(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_sqrt(a: u64) -> u64 { libm::Libm::<f64>::sqrt(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_trunc(a: u64) -> u64 { libm::Libm::<f64>::trunc(f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_atan2(a: u64, b: u64) -> u64 { libm::Libm::<f64>::atan2(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_hypot(a: u64, b: u64) -> u64 { libm::Libm::<f64>::hypot(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_nextafter(a: u64, b: u64) -> u64 { libm::Libm::<f64>::nextafter(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_pow(a: u64, b: u64) -> u64 { libm::Libm::<f64>::pow(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_remainder(a: u64, b: u64) -> u64 { libm::Libm::<f64>::remainder(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_copysign(a: u64, b: u64) -> u64 { libm::Libm::<f64>::copysign(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fdim(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fdim(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fmax(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fmax(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fmaximum(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fmaximum(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fmaximum_num(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fmaximum_num(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fmin(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fmin(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fminimum(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fminimum(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fminimum_num(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fminimum_num(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fmod(a: u64, b: u64) -> u64 { libm::Libm::<f64>::fmod(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { u64::MAX });
ex!(fn h_f64_fma(a: u64, b: u64, d: u64) -> u64 { libm::Libm::<f64>::fma(f64::from_bits(a), f64::from_bits(b), f64::from_bits(d)).to_bits() } else { u64::MAX });
ex!(fn h_f64_ilogb(a: u64) -> i32 { libm::Libm::<f64>::ilogb(f64::from_bits(a)) } else { 0x7ead_beef });
ex!(fn h_f64_jn(n: i32, a: u64) -> u64 { libm::Libm::<f64>::jn(n, f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_yn(n: i32, a: u64) -> u64 { libm::Libm::<f64>::yn(n, f64::from_bits(a)).to_bits() } else { u64::MAX });
ex!(fn h_f64_ldexp(a: u64, n: i32) -> u64 { libm::Libm::<f64>::ldexp(f64::from_bits(a), n).to_bits() } else { u64::MAX });
ex!(fn h_f64_scalbn(a: u64, n: i32) -> u64 { libm::Libm::<f64>::scalbn(f64::from_bits(a), n).to_bits() } else { u64::MAX });
ex!(fn h_f64_modf(a: u64, o: &mut u64) -> u64 { let (x, y) = libm::Libm::<f64>::modf(f64::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u64::MAX });
ex!(fn h_f64_sincos(a: u64, o: &mut u64) -> u64 { let (x, y) = libm::Libm::<f64>::sincos(f64::from_bits(a)); *o = y.to_bits(); x.to_bits() } else { u64::MAX });
ex!(fn h_f64_frexp(a: u64, o: &mut i32) -> u64 { let (x, y) = libm::Libm::<f64>::frexp(f64::from_bits(a)); *o = y; x.to_bits() } else { u64::MAX });
ex!(fn h_f64_lgamma_r(a: u64, o: &mut i32) -> u64 { let (x, y) = libm::Libm::<f64>::lgamma_r(f64::from_bits(a)); *o = y; x.to_bits() } else { u64::MAX });
ex!(fn h_f64_remquo(a: u64, b: u64, o: &mut i32) -> u64 { let (x, y) = libm::Libm::<f64>::remquo(f64::from_bits(a), f64::from_bits(b)); *o = y; x.to_bits() } else { u64::MAX });
ex!(fn h_f64_fmaximum_numf(a: u32, b: u32) -> u32 { libm::Libm::<f64>::fmaximum_numf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f64_fmaximumf(a: u32, b: u32) -> u32 { libm::Libm::<f64>::fmaximumf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f64_fminimum_numf(a: u32, b: u32) -> u32 { libm::Libm::<f64>::fminimum_numf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f64_fminimumf(a: u32, b: u32) -> u32 { libm::Libm::<f64>::fminimumf(f32::from_bits(a), f32::from_bits(b)).to_bits() } else { u32::MAX });
ex!(fn h_f16_ceil(a: u16) -> u16 { libm::Libm::<f16>::ceil(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f16_copysign(a: u16, b: u16) -> u16 { libm::Libm::<f16>::copysign(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fabs(a: u16) -> u16 { libm::Libm::<f16>::fabs(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fdim(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fdim(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_floor(a: u16) -> u16 { libm::Libm::<f16>::floor(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fmax(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fmax(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fmaximum_num(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fmaximum_num(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fmaximumf16(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fmaximumf16(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fmin(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fmin(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fminimum(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fminimum(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fminimum_num(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fminimum_num(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_fmod(a: u16, b: u16) -> u16 { libm::Libm::<f16>::fmod(f16::from_bits(a), f16::from_bits(b)).to_bits() } else { u16::MAX });
ex!(fn h_f16_ldexp(a: u16, n: i32) -> u16 { libm::Libm::<f16>::ldexp(f16::from_bits(a), n).to_bits() } else { u16::MAX });
ex!(fn h_f16_rint(a: u16) -> u16 { libm::Libm::<f16>::rint(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f16_round(a: u16) -> u16 { libm::Libm::<f16>::round(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f16_roundeven(a: u16) -> u16 { libm::Libm::<f16>::roundeven(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f16_scalbn(a: u16, n: i32) -> u16 { libm::Libm::<f16>::scalbn(f16::from_bits(a), n).to_bits() } else { u16::MAX });
ex!(fn h_f16_sqrtf(a: u16) -> u16 { libm::Libm::<f16>::sqrtf(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f16_truncf(a: u16) -> u16 { libm::Libm::<f16>::truncf(f16::from_bits(a)).to_bits() } else { u16::MAX });
ex!(fn h_f128_ceil(a: u128) -> u128 { libm::Libm::<f128>::ceil(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fabs(a: u128) -> u128 { libm::Libm::<f128>::fabs(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_floor(a: u128) -> u128 { libm::Libm::<f128>::floor(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_rint(a: u128) -> u128 { libm::Libm::<f128>::rint(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_round(a: u128) -> u128 { libm::Libm::<f128>::round(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_roundeven(a: u128) -> u128 { libm::Libm::<f128>::roundeven(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_sqrt(a: u128) -> u128 { libm::Libm::<f128>::sqrt(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_trunc(a: u128) -> u128 { libm::Libm::<f128>::trunc(f128::from_bits(a)).to_bits() } else { u128::MAX });
ex!(fn h_f128_copysign(a: u128, b: u128) -> u128 { libm::Libm::<f128>::copysign(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fdim(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fdim(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fmax(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fmax(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fmaximum(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fmaximum(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fmaximum_num(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fmaximum_num(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fmin(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fmin(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fminimum(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fminimum(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fminimum_num(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fminimum_num(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fmod(a: u128, b: u128) -> u128 { libm::Libm::<f128>::fmod(f128::from_bits(a), f128::from_bits(b)).to_bits() } else { u128::MAX });
ex!(fn h_f128_fma(a: u128, b: u128, d: u128) -> u128 { libm::Libm::<f128>::fma(f128::from_bits(a), f128::from_bits(b), f128::from_bits(d)).to_bits() } else { u128::MAX });
ex!(fn h_f128_ldexp(a: u128, n: i32) -> u128 { libm::Libm::<f128>::ldexp(f128::from_bits(a), n).to_bits() } else { u128::MAX });
ex!(fn h_f128_scalbn(a: u128, n: i32) -> u128 { libm::Libm::<f128>::scalbn(f128::from_bits(a), n).to_bits() } else { u128::MAX });
