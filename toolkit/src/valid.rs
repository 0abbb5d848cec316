//! Acceptance of a result against an expectation, and how values are printed.
use crate::eng::*;
use libm_test::{CheckBasis, CheckCtx, CheckOutput, GeneratorKind, Hex, Identifier as Id};

fn kind(k: u128) -> (GeneratorKind, CheckBasis) {
    ([GeneratorKind::EdgeCases, GeneratorKind::Extensive, GeneratorKind::QuickSpaced, GeneratorKind::Random, GeneratorKind::List][(k % 5) as usize], [CheckBasis::Mpfr, CheckBasis::None][(k / 5 % 2) as usize].clone())
}
/// Whether two results agree within `ulp`.
fn agree(a: u128, b: u128, bits: u32, sig: u32, ulp: u32, exact_nan: bool) -> bool {
    let sign = 1u128 << (bits - 1);
    let inf = ((1u128 << (bits - 1 - sig)) - 1) << sig;
    let (ma, mb) = (a & !sign, b & !sign);
    match (ma > inf, mb > inf) {
        (true, true) => return !exact_nan || a == b,
        (false, false) => {}
        _ => return false,
    }
    (a ^ b) & sign == 0 && (ma == inf) == (mb == inf) && ma.abs_diff(mb) <= ulp as u128
}
fn ctx(id: Id, k: u128, ulp: u32) -> CheckCtx {
    let (g, b) = kind(k);
    let mut c = CheckCtx::new(id, b, g);
    c.ulp = ulp;
    c
}
macro_rules! one {
    ($f:ident, $u:ident, $bits:expr, $sig:expr, $id:expr) => {{
        fn check(c: &[V]) -> Verdict {
            let (a, b, ulp, k) = (c[0].n() as $u, c[1].n() as $u, c[2].n() as u32, c[3].n());
            let (g, bs) = kind(k);
            let want = agree(a as u128, b as u128, $bits, $sig, ulp, g == GeneratorKind::List && bs == CheckBasis::None);
            let got = <$f>::from_bits(a).validate(<$f>::from_bits(b), (<$f>::from_bits(1),), &ctx($id, k, ulp)).is_ok();
            if got != want { return Err(format!("result 0x{a:x} for expected 0x{b:x} at {ulp} ULP ({g:?}, {bs:?}) is {}", if got { "accepted" } else { "rejected" })); }
            // printing
            let h = <$f>::from_bits(a).hex();
            if h.len() != 2 + $bits / 4 || !h.starts_with("0x") || $u::from_str_radix(&h[2..], 16) != Ok(a) { return Err(format!("0x{a:x} prints as {h}")); }
            if <$f>::from_bits(a).hexf() != format!("{}", libm::support::Hexf(<$f>::from_bits(a))) { return Err(format!("0x{a:x} prints as {}", <$f>::from_bits(a).hexf())); }
            Ok(a != b)
        }
        rule(concat!("accept:", stringify!($f)), 150_000, 20_000_000, |r| {
            let a = crate::floatbits(r, $bits, $sig);
            let ulp = match r.below(4) { 0 => 0, 1 => r.below(20), 2 => r.u64() as u32 as u64, _ => (r.u64() as u32 >> r.below(32)) as u64 };
            let mask = if $bits == 128 { u128::MAX } else { (1u128 << $bits) - 1 };
            let d = (ulp as u128).wrapping_add(*r.pick(&[0u128, 0, 1, 1, 2, u128::MAX])).wrapping_add(if r.chance(1, 8) { r.u128() >> r.below(127) } else { 0 });
            let b = match r.below(6) { 0 => a, 1 => crate::floatbits(r, $bits, $sig), 2 => a ^ (1 << ($bits - 1)), 3 => a.wrapping_sub(d), 4 => (((1u128 << ($bits - 1 - $sig)) - 1) << $sig) | (a & 1) | a & (1 << ($bits - 1)), _ => a.wrapping_add(d) } & mask;
            vec![V::N(a), V::N(b), V::N(ulp as u128), V::N(r.below(10) as u128)]
        }, check)
    }};
}
macro_rules! pair {
    ($f:ident, $u:ident, $bits:expr, $sig:expr, $two:expr, $int:expr) => {{
        fn check(c: &[V]) -> Verdict {
            let (a, b, ulp, k) = (c[0].n() as $u, c[1].n() as $u, c[2].n() as u32, c[3].n());
            let (a2, b2) = (c[4].n() as $u, c[5].n() as $u);
            let (i, j) = (c[6].n() as u32 as i32, c[7].n() as u32 as i32);
            let (g, bs) = kind(k);
            let en = g == GeneratorKind::List && bs == CheckBasis::None;
            let (w1, w2) = (agree(a as u128, b as u128, $bits, $sig, ulp, en), agree(a2 as u128, b2 as u128, $bits, $sig, ulp, en));
            let f = <$f>::from_bits;
            let got = (f(a), f(a2)).validate((f(b), f(b2)), (f(1),), &ctx($two, k, ulp)).is_ok();
            if got != (w1 && w2) { return Err(format!("pair is {}, parts agree: {w1} {w2}", if got { "accepted" } else { "rejected" })); }
            let got = (f(a), i).validate((f(b), j), (f(1),), &ctx($int, k, ulp)).is_ok();
            if got != (w1 && i == j) { return Err(format!("float and integer are {}, parts agree: {w1} {}", if got { "accepted" } else { "rejected" }, i == j)); }
            let got = i.validate(j, (f(1),), &ctx($int, k, ulp)).is_ok();
            if got != (i == j) { return Err(format!("integer {i} for {j} is {}", if got { "accepted" } else { "rejected" })); }
            let h = i.hex();
            if h != format!("0x{:08x}", i) { return Err(format!("{i} prints as {h}")); }
            let h = (f(a), i).hex();
            if h != format!("({}, {})", f(a).hex(), i.hex()) { return Err(format!("pair prints as {h}")); }
            Ok(a != b || i != j)
        }
        rule(concat!("accept pair:", stringify!($f)), 50_000, 5_000_000, |r| {
            let ulp = r.below(6);
            let mut v = vec![];
            for _ in 0..2 {
                let a = crate::floatbits(r, $bits, $sig);
                let b = match r.below(4) { 0 | 1 => a, 2 => a.wrapping_add(r.below(8) as u128), _ => crate::floatbits(r, $bits, $sig) } & ((1u128 << $bits) - 1);
                v.push((a, b));
            }
            let i = r.u64() as u32;
            let j = if r.bool() { i } else { i.wrapping_add(r.below(3) as u32) };
            vec![V::N(v[0].0), V::N(v[0].1), V::N(ulp as u128), V::N(r.below(10) as u128), V::N(v[1].0), V::N(v[1].1), V::N(i as u128), V::N(j as u128)]
        }, check)
    }};
}
pub fn rules() -> Vec<Rule> {
    vec![one!(f16, u16, 16, 10, Id::Ceilf16), one!(f32, u32, 32, 23, Id::Atanf), one!(f64, u64, 64, 52, Id::Atan), one!(f128, u128, 128, 112, Id::Ceilf128),
        pair!(f32, u32, 32, 23, Id::Modff, Id::Frexpf), pair!(f64, u64, 64, 52, Id::Modf, Id::Frexp)]
}
