//! What the documentation or C state exactly of functions that are otherwise allowed an error:
//! special operands, exact cases, saturation exactly where the correctly rounded result saturates, bounds of the range.
use crate::api::*;
use crate::oracle::*;

const LIBM: &[&str] = &["acos", "acosh", "asin", "asinh", "atan", "atanh", "cos", "cosh", "erf", "erfc", "exp", "exp10", "exp2", "expm1", "hypot", "lgamma", "lgamma_r", "log", "log10", "log1p", "log2", "pow",
    "sin", "sincos", "sinh", "tan", "tanh", "tgamma", "atan2", "j0", "j1", "y0", "y1", "jn", "yn"];
pub fn has(f: &FnInfo) -> bool { LIBM.contains(&f.base) }

/// Largest n with n - 1 factorial representable.
fn fact_max(ty: Ty) -> f64 { if ty == Ty::F32 { 14.0 } else { 23.0 } }
/// An integer operand of moderate size.
fn int_at(ty: Ty, x: u128) -> Option<i32> {
    if !ty.is_finite(x) || ty.ef(x) > ty.bias() + 20 { return None; }
    let v = ty.to_f64(x);
    if v == v.trunc() { Some(v as i32) } else { None }
}
/// x is +-2^k.
fn power_of_two(ty: Ty, x: u128) -> bool { let m = ty.abs(x); if ty.ef(x) == 0 { m.count_ones() == 1 } else { ty.is_finite(x) && m & ty.man_mask() == 0 } }

/// Cheap: might one of the exact statements apply to this call, so that the reference has to be asked?
#[inline]
pub fn suspect(f: &FnInfo, a: &Args, r: &Ret) -> bool {
    let ty = f.ty;
    for (i, x) in f.sig.args().iter().enumerate() { if *x && ty.abs(a[i]).wrapping_sub(1) >= ty.inf() - 1 { return has(f); } }
    let (x, y) = (a[0], r[0]);
    let m = ty.abs(y);
    match f.base {
        "exp" | "exp2" | "exp10" => {
            if m <= 1 {
                // far below the last subnormal zero needs no reference
                let lim = match (f.base, ty) { ("exp2", Ty::F32) => -160.0, ("exp2", _) => -1090.0, ("exp", Ty::F32) => -110.0, ("exp", _) => -760.0, (_, Ty::F32) => -50.0, _ => -330.0 };
                return !(y == 0 && ty.to_f64(x) < lim);
            }
            if f.base == "exp2" { if let Some(k) = int_at(ty, x) { return y != crate::judge::scalbn_model(ty, ty.one(), k); } }
            false
        }
        "expm1" => ty.is_neg(y) && m.abs_diff(ty.one()) <= 2 && !(m == ty.one() && ty.to_f64(x) < -45.0),
        "log" | "log10" | "log1p" => false,
        "log2" => power_of_two(ty, x),
        "tanh" => m > ty.one(),
        "tgamma" => (m <= 1 && !(m == 0 && ty.to_f64(x) < -400.0)) || int_at(ty, x).is_some(),
        "erf" => m.abs_diff(ty.one()) <= 2 && !(m == ty.one() && ty.to_f64(ty.abs(x)) > 7.0),
        "erfc" => ty.is_neg(y) || m > ty.one() + (1 << ty.mb()),
        "pow" => ty.abs(x) == ty.one(),
        _ => false,
    }
}
/// What the call `act` breaks of the exact statements, given the correctly rounded result.
pub fn check(f: &FnInfo, a: &Args, act: &Ret, e: &Ret) -> Option<String> {
    if !has(f) { return None; }
    let ty = f.ty;
    let one = ty.one();
    let (x, y, z) = (a[0], act[0], e[0]);
    let exact = |why: &str| -> Option<String> {
        let ok = |p: u128, q: u128| p == q || ty.is_nan(p) && ty.is_nan(q);
        let both = ok(y, z) && (f.sig != Sig::F_FF || ok(act[1], e[1]));
        if both { None } else { Some(format!("{why}: expected exactly {}", show_ret(f, e))) }
    };
    let mut special = false;
    for (i, fl) in f.sig.args().iter().enumerate() { if *fl && (!ty.is_finite(a[i]) || ty.is_zero(a[i])) { special = true; } }
    if special {
        // pi/2 as the result of a general function is subject to its documented error (acosf(0) and atanf(inf) are one ULP below)
        if f.base == "acos" && ty.is_zero(x) || f.base == "atan" && ty.is_inf(x) { return None; }
        if f.base == "atan2" && ty.is_inf(x) && ty.is_finite(a[1]) && !ty.is_zero(a[1]) { return None; }
        // zero of either sign where the standard does not name one
        if matches!(f.base, "j0" | "j1" | "y0" | "y1" | "jn" | "yn") && ty.is_zero(z) && ty.is_zero(y) { return None; }
        return exact("special operand");
    }
    match f.base {
        "exp" | "exp2" | "exp10" => {
            if ty.is_zero(y) != ty.is_zero(z) { return exact("underflow to zero where and only where the rounded result is zero"); }
            if f.base == "exp2" && int_at(ty, x).is_some() { return exact("integral argument"); }
            None
        }
        "expm1" => if (y == ty.neg(one)) != (z == ty.neg(one)) { exact("-1 where and only where the rounded result is") } else { None },
        "log2" if !ty.is_neg(x) && power_of_two(ty, x) => exact("power of two"),
        "log" | "log10" if x == one => exact("logarithm of 1"),
        "tanh" => if ty.abs(y) > one && !ty.is_nan(y) { Some(format!("magnitude above 1: expected {}", show_ret(f, e))) } else { None },
        "tgamma" => {
            if ty.is_zero(y) != ty.is_zero(z) { return exact("underflow to zero where and only where the rounded result is zero"); }
            match int_at(ty, x) { Some(k) if k > 0 && k as f64 <= fact_max(ty) => exact("factorial"), _ => None }
        }
        "erf" => {
            if ty.abs(y) > one { return exact("magnitude above 1"); }
            if (ty.abs(y) == one) != (ty.abs(z) == one) { exact("+-1 where and only where the rounded result is") } else { None }
        }
        "erfc" => if ty.is_neg(y) || y > one + (1 << ty.mb()) { exact("outside [0, 2]") } else { None },
        "pow" if ty.abs(x) == one => exact("base +-1"),
        _ => None,
    }
}

/// Operands around which a unary function's exact statements are decided: integers and quarters, powers of two, and
/// (found by bisection on the reference) the places where the correctly rounded result becomes or stops being 0, +-1, infinite or NaN.
pub fn points(f: &FnInfo) -> (Vec<u128>, Vec<u128>) {
    let ty = f.ty;
    let mut grid: Vec<i128> = vec![];
    for k in 0..2200u32 { for q in 0..4 { grid.push(ty.ord(ty.from_f64(k as f64 + q as f64 / 4.0))); } }
    for k in 1 - ty.bias() - ty.mb() as i32..=ty.bias() { grid.push(ty.ord(ty.build(false, k, 0))); }
    for k in 1..ty.mb() { grid.push(ty.ord(one_minus(ty, k))); }
    grid.push(ty.ord(ty.max()));
    grid.push(ty.ord(ty.inf()));
    let n: Vec<i128> = grid.iter().map(|o| -o).collect();
    grid.extend(n);
    grid.sort();
    grid.dedup();
    let class = |o: i128| -> u8 {
        let r = expect(f, &[ty.from_ord(o), 0, 0])[0];
        if ty.is_nan(r) { 0 } else if ty.is_inf(r) { 1 } else if ty.is_zero(r) { 2 } else if ty.abs(r) == ty.one() { 3 } else if ty.abs(r) < ty.min_normal() { 4 } else if f.base == "erfc" && r == ty.one() + (1 << ty.mb()) { 5 } else { 6 }
    };
    let mut edges = vec![];
    if !matches!(f.base, "j0" | "j1" | "y0" | "y1" | "sin" | "cos" | "tan" | "sincos" | "lgamma" | "lgamma_r") {
        // quarters matter only next to the origin here
        let coarse: Vec<i128> = grid.iter().copied().filter(|o| { let v = ty.to_f64(ty.from_ord(*o)); v.abs() <= 64.0 || v == v.trunc() }).collect();
        let mut prev = (coarse[0], class(coarse[0]));
        for &o in &coarse[1..] {
            let c = class(o);
            if c != prev.1 {
                let (mut lo, mut hi, l) = (prev.0, o, prev.1);
                while hi - lo > 1 { let m = lo + (hi - lo) / 2; if class(m) == l { lo = m } else { hi = m } }
                edges.push(ty.from_ord(hi));
            }
            prev = (o, c);
        }
    }
    (grid.into_iter().map(|o| ty.from_ord(o)).collect(), edges)
}
fn one_minus(ty: Ty, k: u32) -> u128 { ty.one() - (1 << (ty.mb() - k)) }
