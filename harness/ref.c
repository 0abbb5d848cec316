// Fast screening references: glibc double for f32 functions, glibc x87 long double for f64 functions.
// They only let a case pass or hand it on to the MPFR oracle; they never decide a violation.
#define _GNU_SOURCE
#include <math.h>
#include <stdint.h>
#include <string.h>

enum { ACOS, ACOSH, ASIN, ASINH, ATAN, ATANH, CBRT, COS, COSH, ERF, ERFC, EXP, EXP10, EXP2, EXPM1, J0, J1, LGAMMA,
       LOG, LOG10, LOG1P, LOG2, SIN, SINH, TAN, TANH, TGAMMA, Y0, Y1, SQRT, CEIL, FLOOR, TRUNC, ROUND, RINT, FABS,
       ATAN2 = 64, HYPOT, POW, FMOD, REMAINDER, FDIM, FMA, JN, YN, NEXTAFTER, COPYSIGN };

static double lg_d(double x) { int s; return lgamma_r(x, &s); }
static long double lg_l(long double x) { int s; return lgammal_r(x, &s); }

typedef double (*d1)(double);
typedef long double (*l1)(long double);
static const d1 D1[64] = {
  [ACOS]=acos,[ACOSH]=acosh,[ASIN]=asin,[ASINH]=asinh,[ATAN]=atan,[ATANH]=atanh,[CBRT]=cbrt,[COS]=cos,[COSH]=cosh,
  [ERF]=erf,[ERFC]=erfc,[EXP]=exp,[EXP10]=exp10,[EXP2]=exp2,[EXPM1]=expm1,[J0]=j0,[J1]=j1,[LGAMMA]=lg_d,[LOG]=log,
  [LOG10]=log10,[LOG1P]=log1p,[LOG2]=log2,[SIN]=sin,[SINH]=sinh,[TAN]=tan,[TANH]=tanh,[TGAMMA]=tgamma,[Y0]=y0,[Y1]=y1,
  [SQRT]=sqrt,[CEIL]=ceil,[FLOOR]=floor,[TRUNC]=trunc,[ROUND]=round,[RINT]=rint,[FABS]=fabs };
static const l1 L1[64] = {
  [ACOS]=acosl,[ACOSH]=acoshl,[ASIN]=asinl,[ASINH]=asinhl,[ATAN]=atanl,[ATANH]=atanhl,[CBRT]=cbrtl,[COS]=cosl,[COSH]=coshl,
  [ERF]=erfl,[ERFC]=erfcl,[EXP]=expl,[EXP10]=exp10l,[EXP2]=exp2l,[EXPM1]=expm1l,[J0]=j0l,[J1]=j1l,[LGAMMA]=lg_l,[LOG]=logl,
  [LOG10]=log10l,[LOG1P]=log1pl,[LOG2]=log2l,[SIN]=sinl,[SINH]=sinhl,[TAN]=tanl,[TANH]=tanhl,[TGAMMA]=tgammal,[Y0]=y0l,[Y1]=y1l,
  [SQRT]=sqrtl,[CEIL]=ceill,[FLOOR]=floorl,[TRUNC]=truncl,[ROUND]=roundl,[RINT]=rintl,[FABS]=fabsl };

static inline uint32_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t db(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static inline float bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static inline double bd(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }

// 1 = certainly within `n` ulp of the correctly rounded value, 0 = let MPFR decide
static inline int near_s(uint32_t a, double r, uint32_t n) {
  if (r != r) return (a & 0x7fffffff) > 0x7f800000;
  uint32_t e = fb((float)r);
  if (a == e && n > 0) return 1;
  if ((a ^ e) >> 31) return 0;
  uint32_t aa = a & 0x7fffffff;
  if (aa > 0x7f800000) return 0;
  double d = fabs(r) * 0x1p-46;
  uint32_t lo = fb((float)(r - d)) , hi = fb((float)(r + d));
  if (((lo ^ a) | (hi ^ a)) >> 31) return 0;
  lo &= 0x7fffffff; hi &= 0x7fffffff;
  if (n == 0) return aa == lo && aa == hi;
  if ((aa == 0x7f800000) != (lo == 0x7f800000) || (aa == 0x7f800000) != (hi == 0x7f800000)) return 0;
  uint32_t d1 = aa > lo ? aa - lo : lo - aa, d2 = aa > hi ? aa - hi : hi - aa;
  return d1 <= n && d2 <= n;
}
static inline int near_d(uint64_t a, long double r, uint64_t n) {
  if (r != r) return (a & 0x7fffffffffffffffu) > 0x7ff0000000000000u;
  uint64_t e = db((double)r);
  if (a == e && n > 0) return 1;
  if ((a ^ e) >> 63) return 0;
  uint64_t aa = a & 0x7fffffffffffffffu;
  if (aa > 0x7ff0000000000000u) return 0;
  long double d = fabsl(r) * 0x1p-58L;
  uint64_t lo = db((double)(r - d)), hi = db((double)(r + d));
  if (((lo ^ a) | (hi ^ a)) >> 63) return 0;
  lo &= 0x7fffffffffffffffu; hi &= 0x7fffffffffffffffu;
  if (n == 0) return aa == lo && aa == hi;
  if ((aa == 0x7ff0000000000000u) != (lo == 0x7ff0000000000000u) || (aa == 0x7ff0000000000000u) != (hi == 0x7ff0000000000000u)) return 0;
  uint64_t d1 = aa > lo ? aa - lo : lo - aa, d2 = aa > hi ? aa - hi : hi - aa;
  return d1 <= n && d2 <= n;
}
// exact functions: the reference is the exact result itself
static inline int same_s(uint32_t a, float e) { uint32_t b = fb(e); if ((b & 0x7fffffff) > 0x7f800000) return (a & 0x7fffffff) > 0x7f800000; return a == b; }
static inline int same_d(uint64_t a, double e) { uint64_t b = db(e); if ((b & 0x7fffffffffffffffu) > 0x7ff0000000000000u) return (a & 0x7fffffffffffffffu) > 0x7ff0000000000000u; return a == b; }

int ref_check_s(int op, uint32_t a, uint32_t xb, uint32_t yb, uint32_t zb, int k, uint32_t n) {
  float x = bf(xb), y = bf(yb), z = bf(zb);
  switch (op) {
    case SQRT: return same_s(a, sqrtf(x));
    case CEIL: return same_s(a, ceilf(x));
    case FLOOR: return same_s(a, floorf(x));
    case TRUNC: return same_s(a, truncf(x));
    case ROUND: return same_s(a, roundf(x));
    case RINT: return same_s(a, rintf(x));
    case FABS: return a == (xb & 0x7fffffff);
    case ATAN2: return near_s(a, atan2((double)x, (double)y), n);
    case HYPOT: return near_s(a, hypot((double)x, (double)y), n);
    case POW: return near_s(a, pow((double)x, (double)y), n);
    case FMOD: return same_s(a, fmodf(x, y));
    case REMAINDER: return same_s(a, remainderf(x, y));
    case FDIM: return same_s(a, fdimf(x, y));
    case FMA: return same_s(a, fmaf(x, y, z));
    case JN: return near_s(a, jn(k, (double)x), n);
    case YN: return near_s(a, yn(k, (double)x), n);
    case NEXTAFTER: return same_s(a, nextafterf(x, y));
    default: if (op >= 0 && op < 64 && D1[op]) return near_s(a, D1[op]((double)x), n);
  }
  return 0;
}
int ref_check_d(int op, uint64_t a, uint64_t xb, uint64_t yb, uint64_t zb, int k, uint64_t n) {
  double x = bd(xb), y = bd(yb), z = bd(zb);
  switch (op) {
    case SQRT: return same_d(a, sqrt(x));
    case CEIL: return same_d(a, ceil(x));
    case FLOOR: return same_d(a, floor(x));
    case TRUNC: return same_d(a, trunc(x));
    case ROUND: return same_d(a, round(x));
    case RINT: return same_d(a, rint(x));
    case FABS: return a == (xb & 0x7fffffffffffffffu);
    case ATAN2: return near_d(a, atan2l((long double)x, (long double)y), n);
    case HYPOT: return near_d(a, hypotl((long double)x, (long double)y), n);
    case POW: return near_d(a, powl((long double)x, (long double)y), n);
    case FMOD: return same_d(a, fmod(x, y));
    case REMAINDER: return same_d(a, remainder(x, y));
    case FDIM: return same_d(a, fdim(x, y));
    case FMA: return same_d(a, fma(x, y, z));
    case JN: return near_d(a, jnl(k, (long double)x), n);
    case YN: return near_d(a, ynl(k, (long double)x), n);
    case NEXTAFTER: return same_d(a, nextafter(x, y));
    default: if (op >= 0 && op < 64 && L1[op]) return near_d(a, L1[op]((long double)x), n);
  }
  return 0;
}
// Bessel functions: absolute error in units of eps * max(|exact|, oscillation amplitude, smallest normal)
static inline double amp_of(double ax, double n) {
  if (ax <= n || ax == 0) return 0;
  double a = sqrt(M_2_PI / sqrt(ax - n) / sqrt(ax + n));
  return a < 1 ? a : 1;
}
static inline int bes_near_s(uint32_t ab, double r, double ax, double n, double lim) {
  double a = bf(ab);
  if (r != r) return a != a;
  if (!(fabs(a) < 1e38) || !(fabs(r) < 1e38)) return 0;
  double s = fmax(fmax(fabs(r), amp_of(ax, n)), 0x1p-126);
  return fabs(a - r) <= 0.5 * lim * 0x1p-23 * s;
}
int bes_check_s(int op, uint32_t a, int k, uint32_t xb, double lim) {
  double x = bf(xb), n = 0, r;
  switch (op) {
    case J0: r = j0(x); break;
    case J1: r = j1(x); n = 1; break;
    case Y0: r = y0(x); break;
    case Y1: r = y1(x); n = 1; break;
    case JN: r = jn(k, x); n = fabs((double)k); break;
    case YN: r = yn(k, x); n = fabs((double)k); break;
    default: return 0;
  }
  return bes_near_s(a, r, fabs(x), n, lim);
}
int bes_check_d(int op, uint64_t ab, int k, uint64_t xb, double lim) {
  long double x = bd(xb), r; double n = 0, a = bd(ab);
  switch (op) {
    case J0: r = j0l(x); break;
    case J1: r = j1l(x); n = 1; break;
    case Y0: r = y0l(x); break;
    case Y1: r = y1l(x); n = 1; break;
    case JN: r = jnl(k, x); n = fabs((double)k); break;
    case YN: r = ynl(k, x); n = fabs((double)k); break;
    default: return 0;
  }
  if (r != r) return a != a;
  if (!(fabs(a) < 1e307) || !(fabsl(r) < 1e307L)) return 0;
  long double s = fmaxl(fmaxl(fabsl(r), amp_of(fabs((double)x), n)), 0x1p-1022L);
  return fabsl((long double)a - r) <= 0.5L * lim * 0x1p-52L * s;
}
// lgamma at negative arguments: absolute error against |r| + 1 (the bound proper allows more)
int lgneg_check_s(uint32_t ab, uint32_t xb, double k) {
  double a = bf(ab), r = lg_d(bf(xb));
  if (!(fabs(a) < 1e38) || !(fabs(r) < 1e38)) return isinf(a) && isinf(r) && (a > 0) == (r > 0) && r == floor(r) && bf(xb) == floorf(bf(xb));
  return fabs(a - r) <= 0.5 * k * 0x1p-23 * (fabs(r) + 1);
}
int lgneg_check_d(uint64_t ab, uint64_t xb, double k) {
  double a = bd(ab); long double r = lg_l(bd(xb));
  if (!(fabs(a) < 1e307) || !(fabsl(r) < 1e307L)) return 0;
  return fabsl(a - r) <= 0.5L * k * 0x1p-52L * (fabsl(r) + 1);
}
// Sweep a unary f32 function over `count` patterns start, start+stride, ...; suspicious patterns go to `out`.
// parity 1/2 (odd/even): the pattern with the other sign is checked against this one's result.
enum { SINCOS = 96, FREXP, ILOGB, MODF, LGAMMA_R };
typedef uint32_t (*uf)(uint32_t);
typedef uint32_t (*uff)(uint32_t, uint32_t *);
typedef uint32_t (*ufi)(uint32_t, int32_t *);
typedef int32_t (*ui)(uint32_t);
static inline int nan_s(uint32_t a) { return (a & 0x7fffffff) > 0x7f800000; }
static int two_s(void *f, int op, uint32_t xb, uint32_t n, uint64_t *nt) {
  uint32_t a, aa = xb & 0x7fffffff; float x = bf(xb);
  *nt += aa != 0 && aa < 0x7f800000;
  switch (op) {
    case SINCOS: { uint32_t b; a = ((uff)f)(xb, &b); double s, c; sincos((double)x, &s, &c); return near_s(a, s, n) && near_s(b, c, n); }
    case FREXP: { int32_t e; a = ((ufi)f)(xb, &e); if (aa >= 0x7f800000) return nan_s(xb) ? nan_s(a) : a == xb; int g; float r = frexpf(x, &g); return a == fb(r) && e == g; }
    case ILOGB: { int32_t e = ((ui)f)(xb); if (aa == 0 || nan_s(xb)) return e == INT32_MIN; if (aa == 0x7f800000) return e == INT32_MAX; int k = aa >> 23 ? (int)(aa >> 23) - 127 : 31 - __builtin_clz(aa) - 149; return e == k; }
    case MODF: { uint32_t i; a = ((uff)f)(xb, &i); if (nan_s(xb)) return nan_s(a) && nan_s(i); float t; float r = modff(x, &t); return a == fb(r) && i == fb(t); }
    case LGAMMA_R: { int32_t s; a = ((ufi)f)(xb, &s); int g; double r = lgamma_r((double)x, &g);
      int ok = (xb >> 31) && xb < 0xff800000u ? lgneg_check_s(a, xb, 16) : near_s(a, r, n);
      if (aa < 0x7f800000 && !((xb >> 31) && aa && x == floorf(x)) && s != g) ok = 0;
      return ok; }
  }
  return 0;
}
// the pattern a sweep is executing, for the crash and time-limit reports
static __thread volatile uint32_t sweep_pos;
const volatile uint32_t *vp_sweep_pos(void) { return &sweep_pos; }
uint64_t sweep_s(void *fp, int op, uint64_t start, uint64_t count, uint64_t stride, int parity, uint32_t n, uint32_t *out, uint64_t max,
                 uint64_t *nontrivial) {
  uint64_t k = 0, nt = 0;
  uf f = (uf)fp;
  d1 g = op >= 0 && op < 29 ? D1[op] : 0;
  int bes = op == J0 || op == J1 || op == Y0 || op == Y1, lg = op == LGAMMA;
  for (uint64_t i = 0; i < count; i++) {
    uint32_t xb = (uint32_t)(start + i * stride);
    sweep_pos = xb;
    if (op >= 96) { if (!two_s(fp, op, xb, n, &nt)) { if (k < max) out[k] = xb; k++; } continue; }
    uint32_t a = f(xb);
    uint32_t aa = a & 0x7fffffff, w = aa != 0 && aa < 0x7f800000 && a != xb;
    nt += w;
    int ok = bes ? bes_check_s(op, a, 0, xb, n) : lg && (xb >> 31) && xb < 0xff800000u ? lgneg_check_s(a, xb, 16) : g ? near_s(a, g((double)bf(xb)), n) : ref_check_s(op, a, xb, 0, 0, 0, n);
    if (!ok) { if (k < max) out[k] = xb; k++; }
    if (parity) {
      sweep_pos = xb ^ 0x80000000u;
      uint32_t b = f(xb ^ 0x80000000u);
      nt += w;
      if (b != (parity == 1 ? a ^ 0x80000000u : a) && !(aa > 0x7f800000 && (b & 0x7fffffff) > 0x7f800000)) { if (k < max) out[k] = xb ^ 0x80000000u; k++; }
    }
  }
  *nontrivial += nt;
  return k;
}
