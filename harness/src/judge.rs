//! Verdicts for single calls against the reference.
use crate::api::*;
use crate::oracle::*;
use rug::Float;

/// Documented maximum error in ULP against the correctly rounded value.
pub fn tol(f: &FnInfo) -> u64 {
    match f.base {
        "acos" | "asin" | "atan" | "cos" | "cosh" | "erf" | "exp" | "exp2" | "expm1" | "hypot" | "log" | "log10" | "log1p" | "log2" | "pow" | "sin" | "sincos" | "tan" => 1,
        "acosh" | "erfc" => 4,
        "asinh" | "atanh" | "sinh" | "tanh" => 2,
        "atan2" => if f.ty == Ty::F32 { 1 } else { 2 },
        "exp10" => 6,
        "lgamma" | "lgamma_r" => 16,
        "tgamma" => if f.ty == Ty::F32 { 1 } else { 20 },
        "j0" | "j1" | "y0" | "y1" | "jn" | "yn" => 8_000_000,
        _ => 0,
    }
}

unsafe extern "C" {
    fn ref_check_s(op: i32, a: u32, x: u32, y: u32, z: u32, k: i32, n: u32) -> i32;
    fn ref_check_d(op: i32, a: u64, x: u64, y: u64, z: u64, k: i32, n: u64) -> i32;
    fn sweep_s(f: usize, op: i32, start: u64, count: u64, stride: u64, parity: i32, n: u32, out: *mut u32, max: u64, nt: *mut u64) -> u64;
}
pub fn op_id(base: &str) -> i32 {
    const U: [&str; 36] = ["acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "cos", "cosh", "erf", "erfc", "exp", "exp10", "exp2", "expm1", "j0", "j1", "lgamma",
        "log", "log10", "log1p", "log2", "sin", "sinh", "tan", "tanh", "tgamma", "y0", "y1", "sqrt", "ceil", "floor", "trunc", "round", "rint", "fabs"];
    const B: [&str; 11] = ["atan2", "hypot", "pow", "fmod", "remainder", "fdim", "fma", "jn", "yn", "nextafter", "copysign"];
    let base = if base == "roundeven" { "rint" } else { base };
    if let Some(i) = U.iter().position(|b| *b == base) { return i as i32; }
    if let Some(i) = B.iter().position(|b| *b == base) { if i < 10 { return 64 + i as i32; } }
    -1
}
/// Quick screen: true = the result is certainly acceptable, false = ask the reference.
#[inline]
pub fn screen(f: &FnInfo, op: i32, n: u64, a: &Args, r: &Ret) -> bool {
    if op < 0 { return false; }
    let (x, y, z, k) = match f.sig {
        Sig::IF_F => (a[1], 0, 0, a[0] as u32 as i32),
        _ => (a[0], a[1], a[2], 0),
    };
    unsafe {
        match f.ty {
            Ty::F32 => ref_check_s(op, r[0] as u32, x as u32, y as u32, z as u32, k, n as u32) != 0,
            Ty::F64 => ref_check_d(op, r[0] as u64, x as u64, y as u64, z as u64, k, n) != 0,
            _ => false,
        }
    }
}
unsafe extern "C" {
    fn bes_check_s(op: i32, a: u32, k: i32, x: u32, lim: f64) -> i32;
    fn bes_check_d(op: i32, a: u64, k: i32, x: u64, lim: f64) -> i32;
    fn lgneg_check_s(a: u32, x: u32, k: f64) -> i32;
    fn lgneg_check_d(a: u64, x: u64, k: f64) -> i32;
}
/// Native models and screens; true = certainly acceptable.
#[inline]
pub fn fast_ok(f: &FnInfo, op: i32, n: u64, a: &Args, r: &Ret) -> bool {
    let ty = f.ty;
    if crate::clause::suspect(f, a, r) { return false; }
    let eqn = |x: u128, e: u128| x == e || (ty.is_nan(x) && ty.is_nan(e));
    match f.base {
        "ceil" | "floor" | "trunc" | "round" | "rint" | "roundeven" => eqn(r[0], round_model(ty, f.base, a[0])),
        "fabs" => r[0] == ty.abs(a[0]),
        "copysign" => r[0] == ty.abs(a[0]) | (a[1] & ty.sign()),
        "fmin" | "fmax" | "fminimum" | "fmaximum" | "fminimum_num" | "fmaximum_num" | "frexp" | "ilogb" | "nextafter" => {
            let e = expect(f, a);
            let intok = match f.sig { Sig::F_I => return r[0] == e[0], Sig::F_FI => r[1] == e[1] && ty.is_finite(a[0]), _ => true };
            eqn(r[0], e[0]) && intok
        }
        "scalbn" | "ldexp" => eqn(r[0], scalbn_model(ty, a[0], a[1] as u32 as i32)),
        "modf" => {
            let x = a[0];
            if !ty.is_finite(x) { return false; }
            let i = round_model(ty, "trunc", x);
            let fr = if ty == Ty::F32 { (f32::from_bits(x as u32) - f32::from_bits(i as u32)).to_bits() as u128 } else { (f64::from_bits(x as u64) - f64::from_bits(i as u64)).to_bits() as u128 };
            let fr = ty.abs(fr) | (x & ty.sign());
            r[0] == fr && r[1] == i
        }
        "sincos" => screen1(ty, 22, n, a[0], r[0]) && screen1(ty, 7, n, a[0], r[1]),
        "lgamma" | "lgamma_r" => {
            let x = a[0];
            if !ty.is_finite(x) || ty.is_zero(x) { return false; }
            let neg = ty.is_neg(x);
            if f.base == "lgamma_r" {
                let s = if neg { let fl = ty.to_f64(x).floor(); if fl == ty.to_f64(x) { return false; } if fl % 2.0 != 0.0 { -1 } else { 1 } } else { 1 };
                if r[1] as u32 as i32 != s { return false; }
            }
            if neg {
                unsafe { if ty == Ty::F32 { lgneg_check_s(r[0] as u32, x as u32, LGAMMA_NEG_K) != 0 } else { lgneg_check_d(r[0] as u64, x as u64, LGAMMA_NEG_K) != 0 } }
            } else { screen1(ty, 17, n, x, r[0]) }
        }
        "j0" | "j1" | "y0" | "y1" | "jn" | "yn" => {
            let (k, x) = if f.sig == Sig::IF_F { (a[0] as u32 as i32, a[1]) } else { (0, a[0]) };
            let lim = bessel_limit(f, a);
            unsafe { if ty == Ty::F32 { bes_check_s(op, r[0] as u32, k, x as u32, lim) != 0 } else { bes_check_d(op, r[0] as u64, k, x as u64, lim) != 0 } }
        }
        "remquo" => {
            let (x, y) = (a[0], a[1]);
            if !ty.is_finite(x) || !ty.is_finite(y) || ty.is_zero(y) || ty.is_zero(x) { return false; }
            match remquo_model(ty, x, y) { Some((rem, q)) => r[0] == rem && r[1] as u32 as i32 == q, None => false }
        }
        _ => screen(f, op, n, a, r),
    }
}
#[inline]
fn screen1(ty: Ty, op: i32, n: u64, x: u128, r: u128) -> bool {
    unsafe { match ty { Ty::F32 => ref_check_s(op, r as u32, x as u32, 0, 0, 0, n as u32) != 0, _ => ref_check_d(op, r as u64, x as u64, 0, 0, 0, n) != 0 } }
}
/// Rounding to an integral value on the encoding.
pub fn round_model(ty: Ty, base: &str, x: u128) -> u128 {
    let a = ty.abs(x);
    let s = x & ty.sign();
    if a >= ty.inf() { return x; }
    let e = ty.ef(x) - ty.bias();
    let mb = ty.mb() as i32;
    if e >= mb { return x; }
    // up: round the magnitude away from zero
    let decide = |odd: bool, half: std::cmp::Ordering, frac: bool| -> bool {
        use std::cmp::Ordering::*;
        match base {
            "trunc" => false,
            "floor" => s != 0 && frac,
            "ceil" => s == 0 && frac,
            "round" => half != Less,
            _ => half == Greater || (half == Equal && odd),
        }
    };
    if e < 0 {
        let h = ((ty.bias() - 1) as u128) << ty.mb();
        return s | if decide(false, a.cmp(&h), a != 0) { ty.one() } else { 0 };
    }
    let sh = (mb - e) as u32;
    let m = (1u128 << sh) - 1;
    let frac = a & m;
    let up = decide((a >> sh) & 1 != 0, frac.cmp(&(1u128 << (sh - 1))), frac != 0);
    s | ((a & !m) + if up { 1u128 << sh } else { 0 })
}
/// x * 2^n rounded once to nearest even.
pub fn scalbn_model(ty: Ty, x: u128, n: i32) -> u128 {
    let a = ty.abs(x);
    let s = x & ty.sign();
    if a >= ty.inf() || a == 0 { return x; }
    let (e, m) = norm(ty, a);
    let e = e as i64 + n as i64;
    let bias = ty.bias() as i64;
    if e > bias { return s | ty.inf(); }
    if e >= 1 - bias { return s | ((e + bias) as u128) << ty.mb() | m; }
    let sig = m | 1 << ty.mb();
    let sh = 1 - bias - e;
    if sh > ty.mb() as i64 + 1 { return s; }
    let sh = sh as u32;
    let q = sig >> sh;
    let rem = sig & ((1 << sh) - 1);
    let half = 1u128 << (sh - 1);
    s | (q + (rem > half || (rem == half && q & 1 != 0)) as u128)
}
/// Remainder and quotient (modulo 2^31, signed) for moderate exponent gaps.
fn remquo_model(ty: Ty, x: u128, y: u128) -> Option<(u128, i32)> {
    let (ex, mx) = norm(ty, ty.abs(x));
    let (ey, my) = norm(ty, ty.abs(y));
    let gap = ex - ey;
    let one = 1u128 << ty.mb();
    let (mx, my) = (mx | one, my | one);
    if gap < -1 { return Some((x, 0)); }
    if gap > 70 { return None; }
    // in units of 2^(ey - mb - 1)
    let (num, den) = if gap >= 0 { (mx << (gap + 1), my << 1) } else { (mx, my << 1) };
    let (mut q, rem) = (num / den, num % den);
    let mut neg = ty.is_neg(x);
    let half = den / 2;
    let mut mag = rem;
    if rem > half || (rem == half && q & 1 != 0) { q += 1; mag = den - rem; neg = !neg; }
    if mag == 0 { neg = ty.is_neg(x); }
    let qs = (q & 0x7fffffff) as i32;
    let qs = if ty.is_neg(x) != ty.is_neg(y) { -qs } else { qs };
    // mag * 2^(ey - mb - 1) is representable
    let v = if mag == 0 { 0 } else {
        let top = 127 - mag.leading_zeros() as i32;
        let e = ey - ty.mb() as i32 - 1 + top;
        let man = if top <= ty.mb() as i32 { mag << (ty.mb() as i32 - top) } else { mag >> (top - ty.mb() as i32) };
        scalbn_model(ty, ty.build(false, 0, man), e)
    };
    Some((v | if neg { ty.sign() } else { 0 }, qs))
}
/// The native sweep's number for a unary f32 function, if it has one.
pub fn sweep_op(base: &str) -> Option<i32> {
    match base { "sincos" => Some(96), "frexp" => Some(97), "ilogb" => Some(98), "modf" => Some(99), "lgamma_r" => Some(100), _ => Some(op_id(base)).filter(|o| *o >= 0) }
}
/// 1 odd, 2 even, 0 neither.
pub fn parity(base: &str) -> i32 {
    match base { "sin" | "tan" | "asin" | "atan" | "sinh" | "tanh" | "asinh" | "atanh" | "cbrt" | "erf" | "j1" | "trunc" | "round" | "rint" => 1, "cos" | "cosh" | "j0" | "fabs" => 2, _ => 0 }
}
/// Sweep f32 patterns (and, with parity, their negations); returns (suspects, nontrivial count, suspect count).
pub fn sweep(v: &Variant, f: &FnInfo, start: u64, count: u64, stride: u64, parity: i32) -> (Vec<u32>, u64, u64) {
    let mut out = vec![0u32; 2 * count as usize];
    let mut nt = 0;
    let n = if matches!(f.base, "j0" | "j1" | "y0" | "y1") { bessel_limit(f, &[0, 0, 0]) as u64 } else { tol(f) };
    let k = unsafe { sweep_s(v.f[f.id], sweep_op(f.base).unwrap(), start, count, stride, parity, n as u32, out.as_mut_ptr(), out.len() as u64, &mut nt) };
    out.truncate(k as usize);
    (out, nt, k)
}

/// Distance in representable values, or why there is none.
pub fn ulp_diff(ty: Ty, act: u128, exp: u128) -> Result<u128, &'static str> {
    if ty.is_nan(exp) { return if ty.is_nan(act) { Ok(0) } else { Err("expected NaN") }; }
    if ty.is_nan(act) { return Err("unexpected NaN"); }
    if act == exp { return Ok(0); }
    if ty.is_neg(act) != ty.is_neg(exp) { return Err("wrong sign"); }
    if ty.is_inf(act) != ty.is_inf(exp) { return Err("infinity mismatch"); }
    Ok((ty.ord(act) - ty.ord(exp)).unsigned_abs())
}

/// Error of `act` in ULP as reported by the oracle (for surveys).
pub fn error(f: &FnInfo, a: &Args, act: &Ret) -> Result<u128, String> {
    let e = expect(f, a);
    let mut m = 0;
    for (i, fl) in f.sig.rets().iter().enumerate() {
        if *fl { m = m.max(ulp_diff(f.ty, act[i], e[i]).map_err(|s| format!("{s}: expected {}", show_ret(f, &e)))?); }
        else if act[i] != e[i] { return Err(format!("integer: expected {}", show_ret(f, &e))); }
    }
    Ok(m)
}

fn is_pole_or_edge(f: &FnInfo, x: u128) -> bool {
    // lgamma sign unspecified: NaN, infinities, negative integers
    let ty = f.ty;
    if !ty.is_finite(x) { return true; }
    if ty.is_neg(x) && !ty.is_zero(x) { let m = to_mp(ty, x); return m.is_integer(); }
    false
}

/// The full verdict for one call. None = acceptable.
pub fn acc(f: &FnInfo, a: &Args, act: &Ret) -> Option<String> {
    let ty = f.ty;
    let n = tol(f) as u128;
    if crate::clause::suspect(f, a, act) { if let Some(m) = crate::clause::check(f, a, act, &expect(f, a)) { return Some(m); } }
    match f.base {
        "fabs" | "copysign" => { let e = expect(f, a); return if e[0] == act[0] { None } else { Some(format!("expected exactly {}", show_ret(f, &e))) }; }
        "j0" | "j1" | "y0" | "y1" | "jn" | "yn" => return bessel(f, a, act),
        _ => {}
    }
    let e = expect(f, a);
    if (f.base == "fmin" || f.base == "fmax") && ty.is_zero(a[0]) && ty.is_zero(a[1]) {
        return if ty.is_zero(act[0]) && (act[0] == a[0] || act[0] == a[1]) { None } else { Some("expected one of the zeros".into()) };
    }
    if (f.base == "lgamma" || f.base == "lgamma_r") && ty.is_neg(a[0]) && ty.is_finite(a[0]) && !ty.is_zero(a[0]) && ty.is_finite(e[0]) {
        if let Some(m) = lgamma_neg(f, a[0], act[0]) { return Some(m); }
    } else {
        // hypot within its error of the overflow limit: likewise
        let edge = f.base == "hypot" && !ty.is_nan(act[0]) && !ty.is_nan(e[0]) && !ty.is_inf(a[0]) && !ty.is_inf(a[1]);
        // lgamma next to its overflow limit: infinity counts as the value after the largest finite one
        let d = if edge || f.base.starts_with("lgamma") && ty.is_finite(a[0]) && !ty.is_zero(a[0]) && act[0] >> 1 != 0 && !ty.is_nan(act[0]) && ty.ef(a[0]) > ty.bias() + 50 { Ok((ty.ord(act[0]) - ty.ord(e[0])).unsigned_abs()) } else { ulp_diff(ty, act[0], e[0]) };
        match d {
            Err(s) => return Some(format!("{s}: expected {}", show_ret(f, &e))),
            Ok(d) if d > n => return Some(format!("{d} ULP (allowed {n}): expected {}", show_ret(f, &e))),
            _ => {}
        }
    }
    match f.sig {
        Sig::F_FF => match ulp_diff(ty, act[1], e[1]) {
            Err(s) => return Some(format!("second result: {s}: expected {}", show_ret(f, &e))),
            Ok(d) if d > n => return Some(format!("second result: {d} ULP (allowed {n}): expected {}", show_ret(f, &e))),
            _ => {}
        },
        Sig::F_FI => {
            let skip = match f.base { "frexp" => !ty.is_finite(a[0]), "lgamma_r" => is_pole_or_edge(f, a[0]), _ => false };
            if !skip && act[1] != e[1] { return Some(format!("integer result: expected {}", show_ret(f, &e))); }
        }
        Sig::FF_FI => {
            if !ty.is_nan(e[0]) && act[1] != e[1] { return Some(format!("quotient: expected {}", show_ret(f, &e))); }
        }
        Sig::F_I => if act[0] != e[0] { return Some(format!("expected {}", show_ret(f, &e))); },
        _ => {}
    }
    None
}

/// |actual - exact| / (eps * scale), for surveys and bounds.
pub fn lgamma_neg_err(ty: Ty, x: u128, act: u128) -> Option<f64> {
    let p = ty.mb() + 120;
    let m = to_mp_prec(ty, x, p);
    let a = to_mp(ty, act);
    if !a.is_finite() { return None; }
    let exact = m.clone().ln_abs_gamma().0;
    // terms of the reflection formula: log(pi / |x sin(pi x)|) and lgamma(-x)
    let pos = Float::with_val(p, -&m).ln_abs_gamma().0;
    let refl = Float::with_val(p, &exact + &pos);
    let scale = pos.abs().to_f64() + refl.abs().to_f64() + 1.0;
    let d = Float::with_val(p, &a - &exact).abs();
    let eps = 2f64.powi(-(ty.mb() as i32));
    Some(d.to_f64() / eps / scale)
}
pub const LGAMMA_NEG_K: f64 = 16.0;
fn lgamma_neg(f: &FnInfo, x: u128, act: u128) -> Option<String> {
    match lgamma_neg_err(f.ty, x, act) {
        None => Some("not finite".into()),
        Some(k) if k > LGAMMA_NEG_K => Some(format!("absolute error {k:.1} eps-scales (allowed {LGAMMA_NEG_K})")),
        _ => None,
    }
}

/// Bessel: |actual - exact| / (eps * max(|exact|, amplitude)).
pub fn bessel_err(f: &FnInfo, a: &Args, act: u128) -> Option<f64> {
    let ty = f.ty;
    let e = expect(f, a);
    let xi = if f.sig == Sig::IF_F { 1 } else { 0 };
    if ty.is_nan(e[0]) != ty.is_nan(act) { return None; }
    if ty.is_nan(e[0]) { return Some(0.0); }
    if ty.is_inf(e[0]) || ty.is_inf(act) {
        // next to the overflow limit either may be infinite
        let big = ty.max() - (2 << ty.mb());
        return if ty.is_neg(e[0]) == ty.is_neg(act) && (ty.abs(e[0]) == ty.abs(act) || ty.abs(e[0]).min(ty.abs(act)) > big && f.sig == Sig::IF_F) { Some(0.0) } else { None };
    }
    let x = ty.to_f64(ty.abs(a[xi]));
    // amplitude of the oscillation; zero below the turning point x = n, where the function has no zeros
    let n = match f.base { "jn" | "yn" => (a[0] as u32 as i32 as f64).abs(), "j1" | "y1" => 1.0, _ => 0.0 };
    let amp = if x <= n || x == 0.0 { 0.0 } else { (std::f64::consts::FRAC_2_PI.sqrt() / (x - n).powf(0.25) / (x + n).powf(0.25)).min(1.0) };
    let ex = to_mp(ty, e[0]);
    let d = Float::with_val(ty.mb() + 60, &to_mp(ty, act) - &ex).abs().to_f64();
    let eps = 2f64.powi(-(ty.mb() as i32));
    Some(d / ex.abs().to_f64().max(amp).max(2f64.powi(1 - ty.bias())) / eps)
}
/// Allowed error in eps-scales: small for orders 0 and 1, growing with the order for the recurrences.
pub fn bessel_limit(f: &FnInfo, a: &Args) -> f64 {
    if f.sig != Sig::IF_F { return 8.0; }
    let n = (a[0] as u32 as i32 as f64).abs();
    let x = f.ty.to_f64(f.ty.abs(a[1]));
    if x > n { 16.0 + n } else { 64.0 + n }
}
fn bessel(f: &FnInfo, a: &Args, act: &Ret) -> Option<String> {
    let lim = bessel_limit(f, a);
    match bessel_err(f, a, act[0]) {
        None => Some(format!("special value mismatch: expected {}", show_ret(f, &expect(f, a)))),
        Some(k) if k > lim => Some(format!("error {k:.1} eps-amplitudes (allowed {lim}): expected {}", show_ret(f, &expect(f, a)))),
        _ => None,
    }
}
