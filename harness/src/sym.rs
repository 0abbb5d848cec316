//! Exact relations between calls: symmetries, identities, inverses, monotonicity, agreement between formats.
use crate::api::*;
use crate::gen_table::FNS;
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Sym { pub name: &'static str, pub on: &'static [&'static str], pub tys: &'static [Ty], pub check: fn(&Variant, &FnInfo, &Args) -> Option<String> }

pub fn of(base: &'static str, ty: Ty) -> Option<&'static FnInfo> {
    static T: OnceLock<HashMap<(&'static str, Ty), usize>> = OnceLock::new();
    T.get_or_init(|| FNS.iter().map(|f| ((f.base, f.ty), f.id)).collect()).get(&(base, ty)).map(|i| &FNS[*i])
}
const ALL: &[Ty] = &[Ty::F16, Ty::F32, Ty::F64, Ty::F128];
const SD: &[Ty] = &[Ty::F32, Ty::F64];
const SMALL: &[Ty] = &[Ty::F16, Ty::F32, Ty::F64];

/// Equal bits, any NaN equal to any NaN.
fn eq(ty: Ty, x: u128, y: u128) -> bool { x == y || (ty.is_nan(x) && ty.is_nan(y)) }
fn want(f: &FnInfo, what: &str, got: u128, exp: u128) -> Option<String> {
    if eq(f.ty, got, exp) { None } else { Some(format!("{what}: {} against {}", f.ty.show(got), f.ty.show(exp))) }
}
fn neg(ty: Ty, b: u128) -> u128 { ty.neg(b) }
fn c1(v: &Variant, base: &'static str, ty: Ty, x: u128) -> u128 { v.call(of(base, ty).unwrap(), &[x, 0, 0])[0] }
fn c2(v: &Variant, base: &'static str, ty: Ty, x: u128, y: u128) -> u128 { v.call(of(base, ty).unwrap(), &[x, y, 0])[0] }
fn i32_of(x: u128) -> i32 { x as u32 as i32 }
/// Value widened exactly to the next format.
pub fn widen(ty: Ty, b: u128) -> (Ty, u128) {
    match ty {
        Ty::F16 => (Ty::F32, (f16::from_bits(b as u16) as f32).to_bits() as u128),
        Ty::F32 => (Ty::F64, (f32::from_bits(b as u32) as f64).to_bits() as u128),
        Ty::F64 => (Ty::F128, (f64::from_bits(b as u64) as f128).to_bits()),
        Ty::F128 => (Ty::F128, b),
    }
}
fn is_int(ty: Ty, x: u128) -> Option<bool> { // Some(odd) for integral finite x
    if !ty.is_finite(x) { return None; }
    let a = ty.abs(x);
    if a == 0 { return Some(false); }
    let e = ty.ef(a) - ty.bias();
    if e < 0 { return None; }
    let mb = ty.mb() as i32;
    if e > mb { return Some(false); }
    let sh = (mb - e) as u32;
    if a & ((1u128 << sh) - 1) != 0 { return None; }
    let sig = (a & ty.man_mask()) | 1 << ty.mb();
    Some((sig >> sh) & 1 != 0)
}
fn lt(ty: Ty, x: u128, y: u128) -> bool { !ty.is_nan(x) && !ty.is_nan(y) && ty.ord(x) < ty.ord(y) }

const ODD: &[&str] = &["sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "cbrt", "erf", "j1", "trunc", "round", "rint", "roundeven"];
const EVEN: &[&str] = &["cos", "cosh", "j0", "fabs"];

pub static SYMS: &[Sym] = &[
    Sym { name: "odd", on: ODD, tys: ALL, check: |v, f, a| if f.base == "j1" && f.ty.is_inf(a[0]) { None } else { want(f, "f(-x) against -f(x)", v.call1(f, neg(f.ty, a[0])), neg(f.ty, v.call1(f, a[0]))) } },
    Sym { name: "even", on: EVEN, tys: ALL, check: |v, f, a| want(f, "f(-x) against f(x)", v.call1(f, neg(f.ty, a[0])), v.call1(f, a[0])) },
    Sym { name: "sincos-parts", on: &["sincos"], tys: SD, check: |v, f, a| {
        let r = v.call(f, a);
        want(f, "sincos.0 against sin", r[0], c1(v, "sin", f.ty, a[0])).or_else(|| want(f, "sincos.1 against cos", r[1], c1(v, "cos", f.ty, a[0]))) } },
    Sym { name: "sincos-sign", on: &["sincos"], tys: SD, check: |v, f, a| {
        let (r, q) = (v.call(f, a), v.call(f, &[neg(f.ty, a[0]), 0, 0]));
        want(f, "sine odd", q[0], neg(f.ty, r[0])).or_else(|| want(f, "cosine even", q[1], r[1])) } },
    Sym { name: "modf", on: &["modf"], tys: SD, check: |v, f, a| {
        let ty = f.ty; let x = a[0];
        let (r, q) = (v.call(f, a), v.call(f, &[neg(ty, x), 0, 0]));
        if ty.is_nan(x) { return if ty.is_nan(r[0]) && ty.is_nan(r[1]) { None } else { Some("NaN lost".into()) }; }
        want(f, "fraction odd", q[0], neg(ty, r[0])).or_else(|| want(f, "integral part odd", q[1], neg(ty, r[1])))
            .or_else(|| want(f, "integral part against trunc", r[1], c1(v, "trunc", ty, x)))
            .or_else(|| if ty.abs(r[0]) >= ty.one() { Some(format!("fraction {} not below 1", ty.show(r[0]))) } else { None })
            .or_else(|| if ty.is_inf(x) { None } else {
                let s = if ty == Ty::F32 { (f32::from_bits(r[0] as u32) + f32::from_bits(r[1] as u32)).to_bits() as u128 } else { (f64::from_bits(r[0] as u64) + f64::from_bits(r[1] as u64)).to_bits() as u128 };
                want(f, "sum of the parts", s, x) }) } },
    Sym { name: "frexp-inverse", on: &["frexp"], tys: SD, check: |v, f, a| {
        let ty = f.ty; let r = v.call(f, a);
        if !ty.is_finite(a[0]) || ty.is_zero(a[0]) { return want(f, "special value kept", r[0], a[0]); }
        let m = ty.abs(r[0]);
        if ty.ef(m) != ty.bias() - 1 { return Some(format!("fraction {} outside [0.5, 1)", ty.show(r[0]))); }
        want(f, "scalbn(frexp(x))", v.call(of("scalbn", ty).unwrap(), &[r[0], r[1], 0])[0], a[0])
            .or_else(|| { let l = v.call(of("ilogb", ty).unwrap(), a)[0]; if i32_of(l) == i32_of(r[1]) - 1 { None } else { Some(format!("ilogb {} against frexp exponent {}", i32_of(l), i32_of(r[1]))) } })
            .or_else(|| { let q = v.call(f, &[neg(ty, a[0]), 0, 0]); if q[0] == neg(ty, r[0]) && q[1] == r[1] { None } else { Some("frexp(-x) is not the negation".into()) } }) } },
    Sym { name: "ilogb-even", on: &["ilogb"], tys: SD, check: |v, f, a| {
        let (x, y) = (v.call(f, a)[0], v.call(f, &[neg(f.ty, a[0]), 0, 0])[0]);
        if x == y { None } else { Some(format!("ilogb(x) {} against ilogb(-x) {}", i32_of(x), i32_of(y))) } } },
    Sym { name: "ldexp-scalbn", on: &["ldexp"], tys: ALL, check: |v, f, a| {
        let r = v.call(f, a)[0];
        want(f, "ldexp against scalbn", r, v.call(of("scalbn", f.ty).unwrap(), a)[0])
            .or_else(|| want(f, "scaling of -x", v.call(f, &[neg(f.ty, a[0]), a[1], 0])[0], neg(f.ty, r))) } },
    Sym { name: "scalbn-back", on: &["scalbn"], tys: ALL, check: |v, f, a| {
        let ty = f.ty; let n = i32_of(a[1]);
        let r = v.call(f, a)[0];
        if n == i32::MIN || !ty.is_finite(a[0]) || ty.is_zero(a[0]) { return None; }
        let (ea, er) = (ty.ef(a[0]), ty.ef(r));
        if ea == 0 || er <= 1 || !ty.is_finite(r) { return None; }
        want(f, "scaling there and back", v.call(f, &[r, n.wrapping_neg() as u32 as u128, 0])[0], a[0])
            .or_else(|| if er - ea == n && r & ty.man_mask() == a[0] & ty.man_mask() { None } else { Some("not a pure exponent change".into()) }) } },
    Sym { name: "floor-ceil", on: &["floor"], tys: ALL, check: |v, f, a| {
        let ty = f.ty; let x = a[0];
        let lo = v.call1(f, x);
        let hi = c1(v, "ceil", ty, x);
        want(f, "floor(x) against -ceil(-x)", lo, neg(ty, c1(v, "ceil", ty, neg(ty, x)))).or_else(|| {
            if !ty.is_finite(x) { return None; }
            if ty.ord(lo) > ty.ord(x) || ty.ord(hi) < ty.ord(x) { return Some("floor(x) <= x <= ceil(x) violated".into()); }
            let t = c1(v, "trunc", ty, x);
            if t != (if ty.is_neg(x) { hi } else { lo }) { return Some("trunc is neither floor nor ceil on the side of zero".into()); }
            for b in ["round", "rint", "roundeven"] { let r = c1(v, b, ty, x); if r != lo && r != hi { return Some(format!("{b} is neither floor nor ceil")); } }
            if (lo == hi) != is_int(ty, x).is_some() { return Some("integral values and only those are fixed".into()); }
            None }) } },
    Sym { name: "roundeven-rint", on: &["roundeven"], tys: ALL, check: |v, f, a| want(f, "roundeven against rint", v.call1(f, a[0]), c1(v, "rint", f.ty, a[0])) },
    Sym { name: "idempotent", on: &["ceil", "floor", "trunc", "round", "rint", "roundeven", "fabs"], tys: ALL, check: |v, f, a| { let r = v.call1(f, a[0]); want(f, "f(f(x))", v.call1(f, r), r) } },
    Sym { name: "monotone", on: &["sqrt", "cbrt", "ceil", "floor", "trunc", "round", "rint", "roundeven"], tys: ALL, check: |v, f, a| {
        let ty = f.ty; let x = a[0];
        if ty.is_nan(x) || x == ty.inf() { return None; }
        let y = ty.step(x, 1);
        let (p, q) = (v.call1(f, x), v.call1(f, y));
        if lt(ty, q, p) { Some(format!("f({}) = {} exceeds f({}) = {}", ty.show(x), ty.show(p), ty.show(y), ty.show(q))) } else { None } } },
    Sym { name: "scale", on: &["sqrt", "cbrt"], tys: ALL, check: |v, f, a| {
        let ty = f.ty; let x = a[0];
        let k = if f.base == "sqrt" { 2 } else { 3 };
        if ty.ef(x) == 0 || ty.ef(x) + k >= (ty.inf() >> ty.mb()) as i32 { return None; }
        let r = v.call1(f, x);
        if ty.is_nan(r) { return None; }
        want(f, "f(x * 2^k)", v.call1(f, x + ((k as u128) << ty.mb())), r + (1u128 << ty.mb())) } },
    Sym { name: "sqrt-square", on: &["sqrt"], tys: SMALL, check: |v, f, a| {
        // the square of a value with half the significand is exact
        let ty = f.ty;
        let x = ty.abs(a[0]) & !((1u128 << (ty.mb() / 2 + 1)) - 1);
        if ty.ef(x) == 0 || (ty.ef(x) - ty.bias()).abs() > ty.bias() / 2 - 2 { return None; }
        let s = match ty { Ty::F16 => { let t = f16::from_bits(x as u16); (t * t).to_bits() as u128 } Ty::F32 => { let t = f32::from_bits(x as u32); (t * t).to_bits() as u128 } _ => { let t = f64::from_bits(x as u64); (t * t).to_bits() as u128 } };
        want(f, "sqrt(x * x)", v.call1(f, s), x) } },
    Sym { name: "fma-commute", on: &["fma"], tys: ALL, check: |v, f, a| {
        let ty = f.ty;
        let r = v.call(f, a)[0];
        want(f, "fma(y, x, z)", v.call(f, &[a[1], a[0], a[2]])[0], r)
            .or_else(|| want(f, "fma(-x, -y, z)", v.call(f, &[neg(ty, a[0]), neg(ty, a[1]), a[2]])[0], r))
            .or_else(|| if ty.is_zero(r) { None } else { want(f, "fma(-x, y, -z)", v.call(f, &[neg(ty, a[0]), a[1], neg(ty, a[2])])[0], neg(ty, r)) })
            .or_else(|| want(f, "fma(x, 1, -0)", v.call(f, &[a[0], ty.one(), ty.sign()])[0], a[0]))
            .or_else(|| if ty == Ty::F32 { let p = f32::from_bits(a[0] as u32) * f32::from_bits(a[1] as u32); let s = f32::from_bits(a[0] as u32) + f32::from_bits(a[2] as u32);
                    want(f, "fma(x, y, -0) against x * y", v.call(f, &[a[0], a[1], if p.is_sign_negative() { ty.sign() } else { 0 }])[0], p.to_bits() as u128)
                        .or_else(|| want(f, "fma(x, 1, z) against x + z", v.call(f, &[a[0], ty.one(), a[2]])[0], s.to_bits() as u128)) }
                else if ty == Ty::F64 { let p = f64::from_bits(a[0] as u64) * f64::from_bits(a[1] as u64); let s = f64::from_bits(a[0] as u64) + f64::from_bits(a[2] as u64);
                    want(f, "fma(x, y, -0) against x * y", v.call(f, &[a[0], a[1], if p.is_sign_negative() { ty.sign() } else { 0 }])[0], p.to_bits() as u128)
                        .or_else(|| want(f, "fma(x, 1, z) against x + z", v.call(f, &[a[0], ty.one(), a[2]])[0], s.to_bits() as u128)) }
                else { None }) } },
    Sym { name: "hypot", on: &["hypot"], tys: SD, check: |v, f, a| {
        let ty = f.ty;
        let r = v.call(f, a)[0];
        want(f, "hypot(y, x)", v.call(f, &[a[1], a[0], 0])[0], r)
            .or_else(|| want(f, "hypot(-x, y)", v.call(f, &[neg(ty, a[0]), a[1], 0])[0], r))
            .or_else(|| want(f, "hypot(x, -y)", v.call(f, &[a[0], neg(ty, a[1]), 0])[0], r))
            .or_else(|| want(f, "hypot(x, 0)", v.call(f, &[a[0], 0, 0])[0], ty.abs(a[0])))
            .or_else(|| if !ty.is_nan(r) && (lt(ty, r, ty.abs(a[0])) || lt(ty, r, ty.abs(a[1]))) { Some(format!("{} below an operand", ty.show(r))) } else { None }) } },
    Sym { name: "minmax-commute", on: &["fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num"], tys: ALL, check: |v, f, a| {
        let ty = f.ty;
        let (r, q) = (v.call(f, a)[0], v.call(f, &[a[1], a[0], 0])[0]);
        let free = matches!(f.base, "fmin" | "fmax") && ty.is_zero(r) && ty.is_zero(q);
        if !free { if let Some(m) = want(f, "swapped operands", q, r) { return Some(m); } }
        let dual = match f.base { "fmin" => "fmax", "fmax" => "fmin", "fminimum" => "fmaximum", "fmaximum" => "fminimum", "fminimum_num" => "fmaximum_num", _ => "fminimum_num" };
        let d = neg(ty, c2(v, dual, ty, neg(ty, a[0]), neg(ty, a[1])));
        if free && ty.is_zero(d) { return None; }
        if ty.is_nan(d) && ty.is_nan(r) { return None; }
        want(f, "dual on negated operands", d, r) } },
    Sym { name: "minmax-same", on: &["fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num"], tys: ALL, check: |v, f, a| want(f, "f(x, x)", v.call(f, &[a[0], a[0], 0])[0], a[0]) },
    Sym { name: "fdim", on: &["fdim"], tys: ALL, check: |v, f, a| {
        let ty = f.ty;
        let (r, q) = (v.call(f, a)[0], v.call(f, &[a[1], a[0], 0])[0]);
        if ty.is_nan(a[0]) || ty.is_nan(a[1]) { return if ty.is_nan(r) && ty.is_nan(q) { None } else { Some("NaN lost".into()) }; }
        if r != 0 && q != 0 { return Some(format!("both differences positive: {} and {}", ty.show(r), ty.show(q))); }
        want(f, "fdim(-y, -x)", v.call(f, &[neg(ty, a[1]), neg(ty, a[0]), 0])[0], r) } },
    Sym { name: "copysign", on: &["copysign"], tys: ALL, check: |v, f, a| {
        let ty = f.ty;
        let r = v.call(f, a)[0];
        let back = v.call(f, &[r, a[0], 0])[0];
        if back != a[0] { return Some(format!("copysign there and back gives {}", ty.show(back))); }
        let p = v.call(f, &[a[0], ty.one(), 0])[0];
        if p != c1(v, "fabs", ty, a[0]) { return Some("copysign(x, 1) differs from fabs(x)".into()); }
        None } },
    Sym { name: "nextafter-back", on: &["nextafter"], tys: SD, check: |v, f, a| {
        let ty = f.ty;
        let r = v.call(f, a)[0];
        if ty.is_nan(a[0]) || ty.is_nan(a[1]) || ty.ord(a[0]) == ty.ord(a[1]) || ty.is_zero(a[0]) { return None; }
        let b = v.call(f, &[r, a[0], 0])[0];
        want(f, "there and back", b, a[0]).or_else(|| if (ty.ord(r) - ty.ord(a[0])).abs() == 1 { None } else { Some("not one step".into()) }) } },
    Sym { name: "rem-signs", on: &["fmod", "remainder"], tys: ALL, check: |v, f, a| {
        let ty = f.ty;
        let r = v.call(f, a)[0];
        want(f, "f(-x, y)", v.call(f, &[neg(ty, a[0]), a[1], 0])[0], neg(ty, r))
            .or_else(|| want(f, "f(x, -y)", v.call(f, &[a[0], neg(ty, a[1]), 0])[0], r))
            .or_else(|| want(f, "remainder of the remainder", v.call(f, &[r, a[1], 0])[0], r)) } },
    Sym { name: "rem-scale", on: &["fmod", "remainder"], tys: ALL, check: |v, f, a| {
        let ty = f.ty;
        let top = (ty.inf() >> ty.mb()) as i32;
        let ok = |b: u128| ty.ef(b) > 0 && ty.ef(b) + 1 < top;
        if !ok(a[0]) || !ok(a[1]) { return None; }
        let one = 1u128 << ty.mb();
        let r = v.call(f, a)[0];
        if ty.ef(r) == 0 { return None; }
        want(f, "f(2x, 2y)", v.call(f, &[a[0] + one, a[1] + one, 0])[0], r + one) } },
    Sym { name: "remquo", on: &["remquo"], tys: SD, check: |v, f, a| {
        let ty = f.ty;
        let r = v.call(f, a);
        let e = want(f, "remquo.0 against remainder", r[0], c2(v, "remainder", ty, a[0], a[1]));
        if e.is_some() || ty.is_nan(r[0]) { return e; }
        let (p, q) = (v.call(f, &[neg(ty, a[0]), a[1], 0]), v.call(f, &[a[0], neg(ty, a[1]), 0]));
        let (i, j, k) = (i32_of(r[1]), i32_of(p[1]), i32_of(q[1]));
        if j != i.wrapping_neg() || k != i.wrapping_neg() { return Some(format!("quotients {i}, {j} (-x), {k} (-y)")); }
        want(f, "f(-x, y)", p[0], neg(ty, r[0])).or_else(|| want(f, "f(x, -y)", q[0], r[0])) } },
    Sym { name: "fmod-remainder", on: &["remainder"], tys: SD, check: |v, f, a| {
        // they differ by 0 or by |y| towards zero
        let ty = f.ty;
        let (r, m) = (v.call(f, a)[0], c2(v, "fmod", ty, a[0], a[1]));
        if ty.is_nan(r) || ty.is_nan(m) { return if ty.is_nan(r) && ty.is_nan(m) { None } else { Some("NaN from only one of them".into()) }; }
        if r == m { return None; }
        let (rf, mf, y) = (ty.to_f64(r), ty.to_f64(m), ty.to_f64(ty.abs(a[1])));
        // r = m - sign(m) * y, exact
        let d = if ty == Ty::F32 { ((mf - mf.signum() * y) as f32).to_bits() as u128 } else { (mf - mf.signum() * y).to_bits() as u128 };
        let _ = rf;
        if ty.is_zero(d) && ty.is_zero(r) { None } else { want(f, "remainder against fmod - |y|", r, d) } } },
    Sym { name: "atan2-signs", on: &["atan2"], tys: SD, check: |v, f, a| want(f, "atan2(-y, x)", v.call(f, &[neg(f.ty, a[0]), a[1], 0])[0], neg(f.ty, v.call(f, a)[0])) },
    Sym { name: "pow", on: &["pow"], tys: SD, check: |v, f, a| {
        let ty = f.ty;
        let r = v.call(f, a)[0];
        let n = v.call(f, &[neg(ty, a[0]), a[1], 0])[0];
        if !ty.is_nan(a[0]) {
            if let Some(odd) = is_int(ty, a[1]) { if let Some(m) = want(f, "pow(-x, integer)", n, if odd { neg(ty, r) } else { r }) { return Some(m); } }
        }
        want(f, "pow(x, 1)", v.call(f, &[a[0], ty.one(), 0])[0], a[0])
            .or_else(|| want(f, "pow(x, 0)", v.call(f, &[a[0], a[1] & ty.sign(), 0])[0], ty.one()))
            .or_else(|| want(f, "pow(1, y)", v.call(f, &[ty.one(), a[1], 0])[0], ty.one())) } },
    Sym { name: "lgamma_r", on: &["lgamma_r"], tys: SD, check: |v, f, a| want(f, "lgamma against lgamma_r", c1(v, "lgamma", f.ty, a[0]), v.call(f, a)[0]) },
    Sym { name: "gamma-sign", on: &["lgamma_r"], tys: SD, check: |v, f, a| {
        // where tgamma is finite and non-zero its sign is the reported one
        let ty = f.ty;
        let t = c1(v, "tgamma", ty, a[0]);
        if !ty.is_finite(t) || ty.is_zero(t) { return None; }
        let s = i32_of(v.call(f, a)[1]);
        if (s < 0) == ty.is_neg(t) && s.abs() == 1 { None } else { Some(format!("sign {s} while tgamma gives {}", ty.show(t))) } } },
    Sym { name: "bessel-parity", on: &["jn", "yn"], tys: SD, check: |v, f, a| {
        let ty = f.ty; let n = i32_of(a[0]);
        let r = v.call(f, a)[0];
        let s = |b: u128| if n & 1 != 0 { neg(ty, b) } else { b };
        let z = |x: u128, y: u128| ty.is_zero(x) && ty.is_zero(y);
        let m = v.call(f, &[n.wrapping_neg() as u32 as u128, a[1], 0])[0];
        if n != i32::MIN && !z(m, s(r)) { if let Some(e) = want(f, "order -n", m, s(r)) { return Some(e); } }
        if f.base == "jn" { let m = v.call(f, &[a[0], neg(ty, a[1]), 0])[0]; if !z(m, s(r)) { if let Some(e) = want(f, "argument -x", m, s(r)) { return Some(e); } } }
        let (b0, b1) = if f.base == "jn" { ("j0", "j1") } else { ("y0", "y1") };
        want(f, "order 0", v.call(f, &[0, a[1], 0])[0], c1(v, b0, ty, a[1]))
            .or_else(|| { let (p, q) = (v.call(f, &[1, a[1], 0])[0], c1(v, b1, ty, a[1])); if z(p, q) { None } else { want(f, "order 1", p, q) } }) } },
    Sym { name: "formats-1", on: &["ceil", "floor", "trunc", "round", "rint", "roundeven", "fabs"], tys: SMALL, check: |v, f, a| {
        let (wt, wx) = widen(f.ty, a[0]);
        let r = v.call1(f, a[0]);
        if f.ty.is_nan(a[0]) { return None; }
        let (_, wr) = widen(f.ty, r);
        let q = c1(v, f.base, wt, wx);
        if eq(wt, wr, q) { None } else { Some(format!("{} gives {}, the wider format {}", f.name, f.ty.show(r), wt.show(q))) } } },
    Sym { name: "formats-2", on: &["fmod", "fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "copysign"], tys: SMALL, check: |v, f, a| {
        let ((wt, wx), (_, wy)) = (widen(f.ty, a[0]), widen(f.ty, a[1]));
        let r = v.call(f, a)[0];
        let (_, wr) = widen(f.ty, r);
        let q = c2(v, f.base, wt, wx, wy);
        let z = matches!(f.base, "fmin" | "fmax") && wt.is_zero(wr) && wt.is_zero(q);
        if z || eq(wt, wr, q) { None } else { Some(format!("{} gives {}, the wider format {}", f.name, f.ty.show(r), wt.show(q))) } } },
];
