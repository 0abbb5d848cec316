//! Stepping through floats, spacing of floats and integers.
use crate::eng::*;
use crate::rng::*;
use libm_test::{FloatExt, f8, linear_ints, logspace};

macro_rules! want { ($what:expr, $got:expr, $want:expr) => { { let (g, w) = ($got, $want); if g != w { return Err(format!("{} gives {g:x?}, expected {w:x?}", $what)); } } } }

#[derive(Clone, Copy)]
struct Fm { bits: u32, sig: u32 }
impl Fm {
    fn inf(&self) -> u128 { ((1 << (self.bits - 1 - self.sig)) - 1) << self.sig }
    fn sign(&self) -> u128 { 1 << (self.bits - 1) }
    fn nan(&self, b: u128) -> bool { b & !self.sign() > self.inf() }
    /// Position among the floats, zeros at 0.
    fn ord(&self, b: u128) -> i128 { let a = (b & !self.sign()) as i128; if b & self.sign() != 0 { -a } else { a } }
    fn clamp(&self, up: bool, o: i128, n: u128) -> i128 {
        let m = self.inf() as i128;
        // n may exceed everything
        let room = if up { (m as u128).wrapping_sub(o as u128) } else { (m as u128).wrapping_add(o as u128) };
        if n >= room { if up { m } else { -m } } else if up { o.wrapping_add(n as i128) } else { o.wrapping_sub(n as i128) }
    }
}

macro_rules! float_rules {
    ($f:ident, $u:ident, $bits:expr, $sig:expr) => {{
        fn check(c: &[V]) -> Verdict {
            let m = Fm { bits: $bits, sig: $sig };
            let (a, n) = (c[0].n() as $u, c[1].n() as $u);
            let x = <$f as libm_test::Float>::from_bits(a);
            let b = |v: $f| libm_test::Float::to_bits(v) as u128;
            let got = [b(FloatExt::next_up(x)), b(FloatExt::next_down(x)), b(FloatExt::n_up(x, n)), b(FloatExt::n_down(x, n))];
            if m.nan(a as u128) { want!("a step from NaN", got, [a as u128; 4]); return Ok(false); }
            let o = m.ord(a as u128);
            for g in got { if m.nan(g) { return Err(format!("a step from 0x{a:x} gives NaN 0x{g:x} ({got:x?})")); } }
            want!(format!("positions after next_up, next_down, n_up, n_down by {n}"), got.map(|g| m.ord(g)), [m.clamp(true, o, 1), m.clamp(false, o, 1), m.clamp(true, o, n as u128), m.clamp(false, o, n as u128)]);
            if n == 0 { want!("no steps", [got[2], got[3]], [a as u128; 2]); }
            // there and back
            let up = m.clamp(true, o, n as u128);
            if up < m.inf() as i128 || (up as u128).wrapping_sub(o as u128) == n as u128 { want!("n_up then n_down", m.ord(b(FloatExt::n_down(FloatExt::n_up(x, n), n))), o); }
            let dn = m.clamp(false, o, n as u128);
            if dn > -(m.inf() as i128) || (o as u128).wrapping_sub(dn as u128) == n as u128 { want!("n_down then n_up", m.ord(b(FloatExt::n_up(FloatExt::n_down(x, n), n))), o); }
            Ok(n != 0 && o != 0 && o.unsigned_abs() < m.inf())
        }
        fn consts(_: &[V]) -> Verdict {
            let m = Fm { bits: $bits, sig: $sig };
            let c = <$f as FloatExt>::consts();
            let b = |v: $f| libm_test::Float::to_bits(v) as u128;
            let q = 1u128 << ($sig - 1);
            let w = [m.inf() | q, m.inf() | q | m.sign(), m.inf() | ((1 << $sig) - 1), m.inf() | 1, m.inf() | (q - 1), m.inf() | ((1 << $sig) - 1) | m.sign(), m.inf() | 1 | m.sign(), m.inf() | (q - 1) | m.sign()];
            want!("NaN constants", [c.pos_nan, c.neg_nan, c.max_qnan, c.min_snan, c.max_snan, c.neg_max_qnan, c.neg_min_snan, c.neg_max_snan].map(b), w);
            let mut it: Vec<u128> = c.iter().map(b).collect();
            let mut w = w.to_vec();
            it.sort(); w.sort();
            want!("listed constants", it, w);
            want!("smallest subnormal", <$f as FloatExt>::TINY_BITS, 1);
            Ok(true)
        }
        let (bits, sig) = ($bits, $sig);
        let gen_n = move |r: &mut Rng, a: u128| -> u128 {
            let m = Fm { bits, sig };
            let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
            let abs = a & !m.sign();
            mask & match r.below(8) { 0 => 0, 1 => r.below(5) as u128, 2 | 3 => abs.wrapping_add(r.below(5) as u128).wrapping_sub(2), 4 => m.inf().wrapping_sub(abs).wrapping_add(r.below(5) as u128).wrapping_sub(2), 5 => m.inf().wrapping_add(abs).wrapping_add(r.below(5) as u128).wrapping_sub(2), 6 => mask - r.below(4) as u128, _ => r.u128() >> r.below(bits as u64) }
        };
        let mut v = vec![rule(&format!("step:f{bits}"), 4_000_000, 300_000_000, move |r| { let a = crate::floatbits(r, bits, sig); let n = gen_n(r, a); vec![V::N(a), V::N(n)] }, check),
            rule(&format!("constants:f{bits}"), 1, 1, |_| vec![], consts).guided(0)];
        if bits == 8 { v[0].all = Some((65536, Box::new(|i| vec![V::N((i & 255) as u128), V::N((i >> 8) as u128)]))); }
        v
    }};
}
macro_rules! space_rule {
    ($f:ident, $u:ident, $bits:expr, $sig:expr) => {{
        fn check(c: &[V]) -> Verdict {
            let m = Fm { bits: $bits, sig: $sig };
            let (a, z, n) = (c[0].n() as $u, c[1].n() as $u, c[2].n() as $u);
            if m.nan(a as u128) || m.nan(z as u128) || m.ord(a as u128) > m.ord(z as u128) || n < 2 { return Ok(false); }
            let (oa, oz) = (m.ord(a as u128), m.ord(z as u128));
            // differences of f128 positions do not overflow: |ord| < 2^127
            let between = (oz as u128).wrapping_sub(oa as u128);
            let (it, len) = logspace(<$f as libm_test::Float>::from_bits(a), <$f as libm_test::Float>::from_bits(z), n);
            let steps = (n as u128 - 1).min(between);
            let spacing = (between / (n as u128 - 1)).max(1);
            want!("length", len as u128, steps + 1);
            let again = it.clone();
            let mut k = 0u128;
            for v in it.take(400) {
                let o = m.ord(libm_test::Float::to_bits(v) as u128);
                want!(format!("position of element {k}"), o, oa.wrapping_add((k * spacing) as i128));
                if o > oz { return Err(format!("element {k} is beyond the end")); }
                k += 1;
            }
            want!("elements (up to 400)", k, (steps + 1).min(400));
            if k == steps + 1 { want!("count of a clone", again.count() as u128, k); }
            Ok(between > 0 && oa != 0)
        }
        let (bits, sig) = ($bits, $sig);
        let mut q = rule(&format!("logspace:f{bits}"), 200_000, 10_000_000, move |r| {
            let m = Fm { bits, sig };
            let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
            let mut a = crate::floatbits(r, bits, sig);
            if m.nan(a) { a &= !m.inf() | m.sign(); }
            let mut z = match r.below(3) { 0 => { let k = r.below(600) as u128; let o = m.clamp(true, m.ord(a), k); if o < 0 { o.unsigned_abs() | m.sign() } else { o as u128 } } _ => crate::floatbits(r, bits, sig) };
            if m.nan(z) { z &= !m.inf() | m.sign(); }
            if m.ord(a) > m.ord(z) { std::mem::swap(&mut a, &mut z); }
            let n = match r.below(4) { 0 => 2 + r.below(6) as u128, 1 => 2 + r.below(500) as u128, 2 => r.u128() >> r.below(128), _ => mask - r.below(3) as u128 } & mask;
            vec![V::N(a), V::N(z), V::N(n.max(2) & mask)]
        }, check);
        if bits == 8 { q.all = Some((1 << 16, Box::new(|i| vec![V::N((i & 255) as u128), V::N((i >> 8) as u128), V::N(2 + (i.wrapping_mul(2654435761) >> 7) as u128 % 250)]))); }
        q
    }};
}
fn ints(c: &[V]) -> Verdict {
    let (a, z, n) = (c[0].n() as u32 as i32, c[1].n() as u32 as i32, c[2].n() as u64);
    if a > z || n < 2 { return Ok(false); }
    let between = (z as i64 - a as i64) as u64;
    let spacing = (between / (n - 1)).max(1);
    let steps = (n - 1).min(between);
    let (it, len) = linear_ints(a..=z, n);
    want!("length", len, steps + 1);
    let mut k = 0u64;
    for v in it.clone().take(400) {
        want!(format!("element {k}"), v as i64, a as i64 + (k * spacing) as i64);
        if v > z { return Err(format!("element {k} is beyond the end")); }
        k += 1;
    }
    want!("elements (up to 400)", k, (steps + 1).min(400));
    if steps < 400 { want!("count of a clone", it.count() as u64, k); }
    Ok(between > 0)
}
/// Range and count whose spacing does not fit i32 (two elements, more than i32::MAX apart).
fn wide(a: u32, z: u32, n: u64) -> bool { n == 2 && (z as i32 as i64 - a as i32 as i64) > i32::MAX as i64 }
fn int_range(r: &mut Rng) -> Case {
    loop {
        let p = |r: &mut Rng| -> u32 { match r.below(4) { 0 => *r.pick(&[i32::MIN, i32::MAX, 0, -1, 1, i32::MIN + 1, i32::MAX - 1]) as u32, 1 => r.range(-300, 300) as i32 as u32, _ => r.u64() as u32 } };
        let (a, z) = (p(r), p(r));
        let (a, z) = if (a as i32) <= z as i32 { (a, z) } else { (z, a) };
        let n = match r.below(4) { 0 => 2 + r.below(6), 1 => 2 + r.below(700), 2 => (r.u64() >> r.below(64)).max(2), _ => (z as i32 as i64 - a as i32 as i64) as u64 + r.below(4) };
        let n = n.max(2);
        if !wide(a, z, n) { return vec![V::N(a as u128), V::N(z as u128), V::N(n as u128)]; }
    }
}
fn order8(c: &[V]) -> Verdict {
    let m = Fm { bits: 8, sig: 3 };
    let (a, b) = (c[0].n() & 255, c[1].n() & 255);
    let (x, y) = (<f8 as libm_test::Float>::from_bits(a as u8), <f8 as libm_test::Float>::from_bits(b as u8));
    let w = if m.nan(a) || m.nan(b) { None } else { Some(m.ord(a).cmp(&m.ord(b))) };
    want!("f8 comparison", x.partial_cmp(&y), w);
    want!("f8 equality", x == y, w == Some(std::cmp::Ordering::Equal));
    want!("f8 negation", libm_test::Float::to_bits(-x) as u128, a ^ 128);
    Ok(true)
}
fn list8(_: &[V]) -> Verdict {
    let m = Fm { bits: 8, sig: 3 };
    let got: Vec<u128> = f8::ALL.iter().map(|x| libm_test::Float::to_bits(*x) as u128).collect();
    let mut w: Vec<u128> = (0..256).filter(|b| b & 0x78 != 0x78).collect();
    w.sort_by_key(|b| (m.ord(*b), (b & 128 == 0) as u8));
    want!("f8::ALL", got, w);
    Ok(true)
}

pub fn rules() -> Vec<Rule> {
    let mut v = vec![];
    v.extend(float_rules!(f8, u8, 8, 3));
    v.extend(float_rules!(f16, u16, 16, 10));
    v.extend(float_rules!(f32, u32, 32, 23));
    v.extend(float_rules!(f64, u64, 64, 52));
    v.extend(float_rules!(f128, u128, 128, 112));
    v.push(space_rule!(f8, u8, 8, 3));
    v.push(space_rule!(f16, u16, 16, 10));
    v.push(space_rule!(f32, u32, 32, 23));
    v.push(space_rule!(f64, u64, 64, 52));
    v.push(space_rule!(f128, u128, 128, 112));
    v.push(rule("linear_ints", 1_000_000, 60_000_000, int_range, |c| if wide(c[0].n() as u32, c[1].n() as u32, c[2].n() as u64) { Ok(false) } else { ints(c) }));
    // the one class the general rule leaves out (see known-findings.txt)
    v.push(rule("linear_ints:far2", 0, 0, int_range, ints).every(1, |_| vec![V::N(i32::MIN as u32 as u128), V::N(i32::MAX as u32 as u128), V::N(2)]).guided(0));
    v.push(rule("f8:order", 0, 0, |_| vec![], order8).every(1 << 16, |i| vec![V::N((i & 255) as u128), V::N((i >> 8) as u128)]).guided(0));
    v.push(rule("f8:list", 1, 1, |_| vec![], list8).guided(0));
    v
}
