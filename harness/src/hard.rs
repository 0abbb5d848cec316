//! Constructed hard cases: arguments whose root is extremely close to a rounding boundary.
use crate::api::*;
use crate::engine::*;
use crate::rng::Rng;
use rug::Integer;
use std::sync::Arc;

/// x with sqrt(x) within about 2^-p of a midpoint between two p-bit values (or of a p-bit value): solves t^2 = c (mod 2^s).
pub fn sqrt_hard(r: &mut Rng, ty: Ty) -> Option<u128> {
    let p = ty.mb() + 1;
    // t has p+1 bits and is odd (midpoint), c small with c = 1 mod 8
    let s = p + 1 + r.below(2) as u32;
    let c = Integer::from((r.range(-64, 64)) * 8 + 1);
    // Hensel: root of c modulo 2^s
    let mut t = Integer::from(1);
    for k in 3..s {
        let d = Integer::from(&t * &t) - &c;
        if d.is_divisible_2pow(k + 1) { continue; }
        t += Integer::from(1) << (k - 1);
    }
    let m = Integer::from(1) << s;
    let half = Integer::from(1) << (s - 1);
    let mut t = t.modulo(&m);
    if r.bool() { t = Integer::from(&m - &t); }
    if r.bool() { t = (t + &half).modulo(&m); }
    // bring t into [2^p, 2^(p+1))
    let lo = Integer::from(1) << p;
    let hi = Integer::from(1) << (p + 1);
    let mut t = t;
    while t >= hi { t -= &m; }
    while t < lo { t += &m; }
    if t >= hi || t < lo { return None; }
    let x = Integer::from(&t * &t) - &c;
    let mm = x >> s;
    let top = Integer::from(1) << p;
    let bot = Integer::from(1) << (p - 1);
    if mm < bot || mm >= top { return None; }
    let man = mm.to_u128()? & ty.man_mask();
    // x = mm * 2^s must have sqrt = t, so the exponent of x is even relative to s: value mm * 2^(s + 2j)
    let (emin, emax) = (1 - ty.bias(), ty.bias());
    let j = r.range(((emin - (p as i32 - 1) - s as i32) / 2 - 1) as i64, ((emax - (p as i32 - 1) - s as i32) / 2 + 1) as i64) as i32;
    let e = p as i32 - 1 + s as i32 + 2 * j;
    if e < emin || e > emax { return None; }
    Some(ty.step(ty.build(false, e, man), if r.chance(1, 4) { r.range(-1, 1) as i128 } else { 0 }))
}
pub fn sqrt_task(_w: &World, f: &'static FnInfo, rule: Arc<dyn Rule>, n: u64) -> Task {
    let per = 4096;
    let ty = f.ty;
    Task { name: format!("near-midpoint:{}", rule.id()), phase: 1, chunks: n.div_ceil(per), run: Box::new(move |_, ctx| {
        let mut r = ctx.rng.clone();
        for _ in 0..per { if let Some(x) = sqrt_hard(&mut r, ty) { ctx.class("constructed near-midpoint square roots", 1); ctx.case(&rule, &[x, 0, 0]); } }
    }) }
}

/// Within a window of consecutive midpoints t, the one whose cube is closest to a representable value (first-order search).
pub fn cbrt_hard(r: &mut Rng, ty: Ty) -> Option<u128> {
    let p = ty.mb() + 1;
    // t: odd multiples of 2^-1 in units of the last place, i.e. integer with p+1 bits; x = t^3 / 8 scaled
    let k = r.below(3) as u32; // cube root in [1, 2): x in [1, 8): exponent 0, 1, 2
    let t0 = (Integer::from(1) << p) + Integer::from(r.u128() & ((1u128 << p) - 1));
    let t0 = t0 | 1u32;
    // t^3 has 3p+1 .. 3p+3 bits; x keeps p of them: modulus 2^(2p+1+k)
    let cube = Integer::from(&t0 * &t0) * &t0;
    let bits = cube.significant_bits();
    let s = bits - p;
    let _ = k;
    let m = Integer::from(1) << s;
    // f(i) = (t0 + 2i)^3 mod 2^s, linear part: a + b i, fractions of 2^s
    let frac = |z: Integer| -> f64 { let z = z.modulo(&m); if s > 900 { 0.0 } else { z.to_f64() / m.to_f64() } };
    let a = frac(cube);
    let b = frac(Integer::from(&t0 * &t0) * 6);
    let q = frac(Integer::from(&t0 * 12u32));
    // search i up to a bound where the quadratic term stays small, by direct iteration
    let n = if ty == Ty::F64 { 4096 } else { 64 };
    let (mut best, mut bi) = (1.0f64, 0i64);
    for i in 0..n {
        let v = a + b * i as f64 + q * (i * i) as f64;
        let d = (v - v.round()).abs();
        if d < best { best = d; bi = i; }
    }
    let t = t0 + 2 * bi;
    let c = Integer::from(&t * &t) * &t;
    let sh = c.significant_bits() - p;
    let x = (c + (Integer::from(1) << (sh - 1))) >> sh;
    let bits = x.significant_bits();
    if bits != p { return None; }
    let man = x.to_u128()? & ty.man_mask();
    // exponent of x relative to the cube must be a multiple of 3
    let e0 = (sh + p - 1) as i32 - 3 * (p as i32); // x ~ (t / 2^p)^3 in [1, 8)
    let j = r.range(((1 - ty.bias() - e0) / 3) as i64, ((ty.bias() - e0) / 3) as i64) as i32;
    let e = e0 + 3 * j;
    if e < 1 - ty.bias() || e > ty.bias() { return None; }
    Some(ty.build(r.bool(), e, man))
}
pub fn cbrt_task(_w: &World, f: &'static FnInfo, rule: Arc<dyn Rule>, n: u64) -> Task {
    let per = 4096;
    let ty = f.ty;
    Task { name: format!("near-midpoint:{}", f.name), phase: 1, chunks: n.div_ceil(per), run: Box::new(move |_, ctx| {
        let mut r = ctx.rng.clone();
        for _ in 0..per { if let Some(x) = cbrt_hard(&mut r, ty) { ctx.class("searched near-midpoint cube roots", 1); ctx.case(&rule, &[x, 0, 0]); } }
    }) }
}
