//! Reference results: MPFR (correctly rounded) and integer models of the IEEE 754 operations.
use crate::api::*;
use rug::float::Round::{self, Nearest};
use rug::ops::{AssignRound, PowAssignRound, RemAssignRound};
use rug::{Assign, Float};
use std::cmp::Ordering;

pub fn to_mp(ty: Ty, b: u128) -> Float { to_mp_prec(ty, b, ty.mb() + 1) }
pub fn to_mp_prec(ty: Ty, b: u128, prec: u32) -> Float {
    let mut m = Float::new(prec);
    match ty {
        Ty::F16 => m.assign(f16::from_bits(b as u16)),
        Ty::F32 => m.assign(f32::from_bits(b as u32)),
        Ty::F64 => m.assign(f64::from_bits(b as u64)),
        Ty::F128 => m.assign(f128::from_bits(b)),
    }
    m
}
/// Round a value of the format's precision into the format (subnormals, overflow).
pub fn from_mp(ty: Ty, m: &mut Float, ord: Ordering) -> u128 { from_mp_round(ty, m, ord, Nearest) }
pub fn from_mp_round(ty: Ty, m: &mut Float, ord: Ordering, r: Round) -> u128 {
    debug_assert_eq!(m.prec(), ty.mb() + 1);
    m.subnormalize_ieee_round(ord, r);
    match ty {
        Ty::F16 => m.to_f16_round(r).to_bits() as u128,
        Ty::F32 => m.to_f32_round(r).to_bits() as u128,
        Ty::F64 => m.to_f64_round(r).to_bits() as u128,
        Ty::F128 => m.to_f128_round(r).to_bits(),
    }
}
/// Correctly rounded (any precision) MPFR value into the format.
pub fn round_to(ty: Ty, m: &Float) -> u128 {
    let mut t = Float::new(ty.mb() + 1);
    let o = t.assign_round(m, Nearest);
    from_mp(ty, &mut t, o)
}

/// Apply a unary mathematical function in place, rounding to nearest at the precision of `m`.
pub fn unary(base: &str, m: &mut Float) -> Option<Ordering> {
    Some(match base {
        "acos" => m.acos_round(Nearest), "acosh" => m.acosh_round(Nearest), "asin" => m.asin_round(Nearest),
        "asinh" => m.asinh_round(Nearest), "atan" => m.atan_round(Nearest), "atanh" => m.atanh_round(Nearest),
        "cbrt" => m.cbrt_round(Nearest), "cos" => m.cos_round(Nearest), "cosh" => m.cosh_round(Nearest),
        "erf" => m.erf_round(Nearest), "erfc" => m.erfc_round(Nearest), "exp" => m.exp_round(Nearest),
        "exp10" => m.exp10_round(Nearest), "exp2" => m.exp2_round(Nearest), "expm1" => m.exp_m1_round(Nearest),
        "j0" => m.j0_round(Nearest), "j1" => m.j1_round(Nearest), "y0" => m.y0_round(Nearest), "y1" => m.y1_round(Nearest),
        "lgamma" | "lgamma_r" => {
            if m.is_nan() { Ordering::Equal } else { m.ln_abs_gamma_round(Nearest).1 }
        }
        "log" => m.ln_round(Nearest), "log10" => m.log10_round(Nearest), "log1p" => m.ln_1p_round(Nearest),
        "log2" => m.log2_round(Nearest), "sin" => m.sin_round(Nearest), "sinh" => m.sinh_round(Nearest),
        "tan" => m.tan_round(Nearest), "tanh" => m.tanh_round(Nearest), "tgamma" => m.gamma_round(Nearest),
        "sqrt" => m.sqrt_round(Nearest),
        "ceil" => { m.ceil_mut(); Ordering::Equal } "floor" => { m.floor_mut(); Ordering::Equal }
        "trunc" => { m.trunc_mut(); Ordering::Equal } "round" => { m.round_mut(); Ordering::Equal }
        "rint" | "roundeven" => { m.round_even_mut(); Ordering::Equal }
        _ => return None,
    })
}

fn minmax(ty: Ty, base: &str, x: u128, y: u128) -> u128 {
    let (nx, ny) = (ty.is_nan(x), ty.is_nan(y));
    let is_max = base.starts_with("fmax");
    if base == "fminimum" || base == "fmaximum" {
        if nx || ny { return ty.nan(); }
    } else {
        if nx && ny { return ty.nan(); }
        if nx { return y; }
        if ny { return x; }
    }
    let (ox, oy) = (ty.ord(x), ty.ord(y));
    if ox == 0 && oy == 0 {
        return if is_max { if ty.is_neg(x) { y } else { x } } else if ty.is_neg(x) { x } else { y };
    }
    if (ox > oy) == is_max { x } else { y }
}

fn frexp(ty: Ty, x: u128) -> (u128, i32) {
    if ty.is_nan(x) || ty.is_inf(x) || ty.is_zero(x) { return (x, 0); }
    let s = x & ty.sign();
    let a = ty.abs(x);
    let (e, m) = norm(ty, a);
    (s | (((ty.bias() - 1) as u128) << ty.mb()) | m, e + 1)
}
/// floor(log2|x|) and the mantissa field of the normalised value, for finite non-zero |x|.
pub fn norm(ty: Ty, a: u128) -> (i32, u128) {
    let ef = ty.ef(a);
    if ef != 0 { return (ef - ty.bias(), a & ty.man_mask()); }
    let top = 127 - a.leading_zeros();
    (top as i32 - ty.mb() as i32 + 1 - ty.bias(), (a << (ty.mb() - top)) & ty.man_mask())
}

fn nextafter(ty: Ty, x: u128, y: u128) -> u128 {
    if ty.is_nan(x) || ty.is_nan(y) { return ty.nan(); }
    let (ox, oy) = (ty.ord(x), ty.ord(y));
    if ox == oy { return y; }
    let up = oy > ox;
    let n = if up { ox + 1 } else { ox - 1 };
    if n == 0 { x & ty.sign() } else { ty.from_ord(n) }
}

/// Expected result bits under the reference. NaN results are returned as the canonical NaN.
pub fn expect(f: &FnInfo, a: &Args) -> Ret {
    let ty = f.ty;
    let i32_at = |k: usize| a[k] as u32 as i32;
    match f.base {
        "fabs" => [ty.abs(a[0]), 0],
        "copysign" => [ty.abs(a[0]) | (a[1] & ty.sign()), 0],
        "nextafter" => [nextafter(ty, a[0], a[1]), 0],
        "fmin" | "fmax" | "fminimum" | "fmaximum" | "fminimum_num" | "fmaximum_num" => [minmax(ty, f.base, a[0], a[1]), 0],
        "frexp" => { let (m, e) = frexp(ty, a[0]); [m, e as u32 as u128] }
        "ilogb" => {
            let x = a[0];
            let r = if ty.is_nan(x) || ty.is_zero(x) { i32::MIN } else if ty.is_inf(x) { i32::MAX } else { norm(ty, ty.abs(x)).0 };
            [r as u32 as u128, 0]
        }
        "ldexp" | "scalbn" => {
            let mut m = to_mp(ty, a[0]);
            let n = i32_at(1).clamp(-40000, 40000);
            m <<= n;
            [from_mp(ty, &mut m, Ordering::Equal), 0]
        }
        "modf" => {
            let x = a[0];
            if ty.is_nan(x) { return [ty.nan(), ty.nan()]; }
            let mut ip = to_mp(ty, x);
            ip.trunc_mut();
            let i = from_mp(ty, &mut ip, Ordering::Equal);
            let fr = if ty.is_inf(x) { x & ty.sign() } else {
                let mut fr = to_mp(ty, x);
                fr -= &ip;
                if fr.is_zero() { x & ty.sign() } else { from_mp(ty, &mut fr, Ordering::Equal) }
            };
            [fr, i]
        }
        "sincos" => {
            let mut s = to_mp(ty, a[0]);
            let mut c = s.clone();
            let so = s.sin_round(Nearest);
            let co = c.cos_round(Nearest);
            [from_mp(ty, &mut s, so), from_mp(ty, &mut c, co)]
        }
        "lgamma_r" => {
            let mut m = to_mp(ty, a[0]);
            if m.is_nan() { return [ty.nan(), 1]; }
            let (sg, o) = m.ln_abs_gamma_round(Nearest);
            let s: i32 = if sg == Ordering::Less { -1 } else { 1 };
            [from_mp(ty, &mut m, o), s as u32 as u128]
        }
        "fdim" => {
            let (x, y) = (to_mp(ty, a[0]), to_mp(ty, a[1]));
            if x.is_nan() || y.is_nan() { return [ty.nan(), 0]; }
            if x <= y { return [0, 0]; }
            let mut r = Float::new(ty.mb() + 1);
            let o = r.assign_round(&x - &y, Nearest);
            [from_mp(ty, &mut r, o), 0]
        }
        "fma" => {
            let (mut x, y, z) = (to_mp(ty, a[0]), to_mp(ty, a[1]), to_mp(ty, a[2]));
            let o = x.mul_add_round(&y, &z, Nearest);
            [from_mp(ty, &mut x, o), 0]
        }
        "atan2" => { let (mut y, x) = (to_mp(ty, a[0]), to_mp(ty, a[1])); let o = y.atan2_round(&x, Nearest); [from_mp(ty, &mut y, o), 0] }
        "hypot" => { let (mut y, x) = (to_mp(ty, a[0]), to_mp(ty, a[1])); let o = y.hypot_round(&x, Nearest); [from_mp(ty, &mut y, o), 0] }
        "pow" => { let (mut x, y) = (to_mp(ty, a[0]), to_mp(ty, a[1])); let o = x.pow_assign_round(&y, Nearest); [from_mp(ty, &mut x, o), 0] }
        "fmod" => { let (mut x, y) = (to_mp(ty, a[0]), to_mp(ty, a[1])); let o = x.rem_assign_round(&y, Nearest); [from_mp(ty, &mut x, o), 0] }
        "remainder" => { let (mut x, y) = (to_mp(ty, a[0]), to_mp(ty, a[1])); let o = x.remainder_round(&y, Nearest); [from_mp(ty, &mut x, o), 0] }
        "remquo" => {
            let (mut x, y) = (to_mp(ty, a[0]), to_mp(ty, a[1]));
            let (o, q) = x.remainder_quo31_round(&y, Nearest);
            [from_mp(ty, &mut x, o), q as u32 as u128]
        }
        "jn" | "yn" => {
            let m = bessel_n(f.base == "yn", i32_at(0), &to_mp_prec(ty, a[1], ty.mb() + 100));
            [round_to(ty, &m), 0]
        }
        b => {
            let mut m = to_mp(ty, a[0]);
            let o = unary(b, &mut m).unwrap_or_else(|| panic!("no oracle for {b}"));
            [from_mp(ty, &mut m, o), 0]
        }
    }
}

/// J_n or Y_n by stable recurrences from MPFR's orders 0 and 1, to about 60 bits more than f64 precision.
pub fn bessel_n(second: bool, n: i32, x: &Float) -> Float {
    let p = x.prec();
    let special = |v: rug::float::Special| Float::with_val(p, v);
    use rug::float::Special::*;
    if x.is_nan() { return special(Nan); }
    let odd = n & 1 != 0;
    let an = n.unsigned_abs();
    let neg_order = n < 0 && odd; // f(-n) = (-1)^n f(n)
    let mut r = if second {
        if x.is_sign_negative() && !x.is_zero() { return special(Nan); }
        if x.is_zero() { special(NegInfinity) }
        else if x.is_infinite() { special(Zero) }
        else {
            let (mut y0, mut y1) = (x.clone().y0(), x.clone().y1());
            if an == 0 { y0 } else {
                for k in 1..an {
                    let mut t = Float::with_val(p, 2 * k as u64);
                    t /= x; t *= &y1; t -= &y0;
                    y0 = y1; y1 = t;
                    if y1.is_infinite() { break; }
                }
                y1
            }
        }
    } else {
        if x.is_infinite() { special(Zero) }
        else if x.is_zero() { if an == 0 { Float::with_val(p, 1) } else { special(Zero) } }
        else {
            let ax = x.clone().abs();
            let axf = ax.to_f64();
            let mut v = if an == 0 { ax.clone().j0() } else if an == 1 { ax.clone().j1() }
            else if (an as f64) < axf {
                let (mut a, mut b) = (ax.clone().j0(), ax.clone().j1());
                for k in 1..an {
                    let mut t = Float::with_val(p, 2 * k as u64);
                    t /= &ax; t *= &b; t -= &a;
                    a = b; b = t;
                }
                b
            } else {
                // Miller: start where the ratio to J_n is below 2^-p
                let mut m = an as u64 + 20;
                let mut dec = 0f64;
                while dec < p as f64 + 20.0 { dec += (2.0 * m as f64 / axf).log2().max(0.02); m += 1; }
                let (mut hi, mut lo) = (Float::with_val(p, 0), Float::with_val(p, 1));
                let mut at_n = Float::with_val(p, 0);
                let mut k = m;
                let mut f1 = Float::with_val(p, 0);
                while k >= 1 {
                    // lo = F_k, hi = F_{k+1}
                    if k == an as u64 { at_n = lo.clone(); }
                    if k == 1 { f1 = lo.clone(); }
                    let mut t = Float::with_val(p, 2 * k);
                    t /= &ax; t *= &lo; t -= &hi;
                    hi = lo; lo = t;
                    k -= 1;
                }
                let (j0, j1) = (ax.clone().j0(), ax.clone().j1());
                if j0.clone().abs() > j1.clone().abs() { at_n * j0 / lo } else { at_n * j1 / f1 }
            };
            if x.is_sign_negative() && odd { v = -v; }
            v
        }
    };
    if neg_order { r = -r; }
    r
}
