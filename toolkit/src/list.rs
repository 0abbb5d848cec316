list!(acosf acos acoshf acosh asinf asin asinhf asinh atanf atan atanhf atanh cbrtf cbrt cosf cos coshf cosh erff erf erfcf erfc expf exp exp10f exp10 exp2f exp2 expm1f expm1 j0f j0 j1f j1 lgammaf lgamma logf log log10f log10 log1pf log1p log2f log2 sinf sin sinhf sinh tanf tan tanhf tanh tgammaf tgamma y0f y0 y1f y1 ceilf16 ceilf ceil ceilf128 fabsf16 fabsf fabs fabsf128 floorf16 floorf floor floorf128 rintf16 rintf rint rintf128 roundf16 roundf round roundf128 roundevenf16 roundevenf roundeven roundevenf128 sqrtf16 sqrtf sqrt sqrtf128 truncf16 truncf trunc truncf128 atan2f atan2 hypotf hypot nextafterf nextafter powf pow remainderf remainder copysignf16 copysignf copysign copysignf128 fdimf16 fdimf fdim fdimf128 fmaxf16 fmaxf fmax fmaxf128 fmaximumf16 fmaximumf fmaximum fmaximumf128 fmaximum_numf16 fmaximum_numf fmaximum_num fmaximum_numf128 fminf16 fminf fmin fminf128 fminimumf16 fminimumf fminimum fminimumf128 fminimum_numf16 fminimum_numf fminimum_num fminimum_numf128 fmodf16 fmodf fmod fmodf128 fmaf fma fmaf128 ilogbf ilogb jnf jn ynf yn ldexpf16 ldexpf ldexp ldexpf128 scalbnf16 scalbnf scalbn scalbnf128 modff modf sincosf sincos frexpf frexp lgammaf_r lgamma_r remquof remquo);
