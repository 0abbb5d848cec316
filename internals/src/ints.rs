//! C24: the 256-bit integers against arbitrary-precision integers.
use crate::eng::*;
use crate::rng::*;
use libm::support::{DInt, HInt, MinInt, i256, u256};
use rug::Integer;

fn u(lo: u128, hi: u128) -> Integer { (Integer::from(hi) << 128) + lo }
fn s(lo: u128, hi: u128) -> Integer { let v = u(lo, hi); if hi >> 127 != 0 { v - (Integer::from(1) << 256) } else { v } }
fn wrap(v: Integer) -> (u128, u128) {
    let m = Integer::from(1) << 256;
    let v = v.modulo(&m);
    let lo = Integer::from(&v & u128::MAX).to_u128().unwrap();
    (lo, (v >> 128u32).to_u128().unwrap())
}
fn limb(r: &mut Rng) -> u128 {
    match r.below(9) {
        0 => 0, 1 => u128::MAX, 2 => 1u128 << r.below(128), 3 => (1u128 << r.below(128)).wrapping_sub(1),
        4 => !(1u128 << r.below(128)), 5 => r.u128() >> r.below(128), 6 => (r.u64() as u128) << 64 | *r.pick(&[0u128, u64::MAX as u128, 1]), 7 => (*r.pick(&[u64::MAX, 1, 1 << 63, u64::MAX - 1]) as u128) << 64 | r.u64() as u128,
        _ => r.u128(),
    }
}
macro_rules! want { ($what:expr, $got:expr, $want:expr) => { { let (g, w) = ($got, $want); if g != w { return Err(format!("{} gives {g:x?}, expected {w:x?}", $what)); } } } }

fn check(c: &[V]) -> Verdict {
    let (al, ah, bl, bh, k) = (c[0].n(), c[1].n(), c[2].n(), c[3].n(), (c[4].n() & 255) as u32);
    let (a, b) = (u256 { lo: al, hi: ah }, u256 { lo: bl, hi: bh });
    let (sa, sb) = (i256 { lo: al, hi: ah }, i256 { lo: bl, hi: bh });
    let (ia, ib) = (u(al, ah), u(bl, bh));
    let p = |x: u256| (x.lo, x.hi);
    let q = |x: i256| (x.lo, x.hi);
    want!("a + b", p(a + b), wrap(Integer::from(&ia + &ib)));
    want!(format!("a >> {k}"), p(a >> k), wrap(Integer::from(&ia >> k)));
    want!("a | b", p(a | b), wrap(Integer::from(&ia | &ib)));
    want!("!a", p(!a), (!al, !ah));
    want!("signed a | b", q(sa | sb), (al | bl, ah | bh));
    want!("signed !a", q(!sa), (!al, !ah));
    want!("a == b", a == b, ia == ib);
    want!("a == a", a == a.clone(), true);
    want!("signed a == b", sa == sb, ia == ib);
    want!("a cmp b", a.partial_cmp(&b), Some(ia.cmp(&ib)));
    want!("a < b", (a < b, a <= b, a > b, a >= b), (ia < ib, ia <= ib, ia > ib, ia >= ib));
    let (xa, xb) = (s(al, ah), s(bl, bh));
    want!("signed a cmp b", sa.partial_cmp(&sb), Some(xa.cmp(&xb)));
    want!("a.signed()", q(a.signed()), (al, ah));
    want!("a.unsigned()", p(sa.unsigned()), (al, ah));
    want!("lo, hi", (DInt::lo(a), DInt::hi(a), a.lo_hi()), (al, ah, (al, ah)));
    want!("signed lo, hi", (DInt::lo(sa), DInt::hi(sa), sa.lo_hi()), (al as i128, ah as i128, (al as i128, ah as i128)));
    // widening products
    let prod = Integer::from(al) * bl;
    want!("zero_widen_mul", p(al.zero_widen_mul(bl)), wrap(prod.clone()));
    want!("widen_mul", p(al.widen_mul(bl)), wrap(prod.clone()));
    want!("widen_mul(hi)", p(ah.widen_mul(bh)), wrap(Integer::from(ah) * bh));
    want!("widen_mul().lo_hi()", al.widen_mul(bl).lo_hi(), wrap(prod.clone()));
    want!("signed zero_widen_mul", q((al as i128).zero_widen_mul(bl as i128)), wrap(prod.clone()));
    want!("widen", p(al.widen()), (al, 0));
    want!("zero_widen", p(al.zero_widen()), (al, 0));
    want!("signed widen", q((al as i128).widen()), wrap(Integer::from(al as i128)));
    want!("signed zero_widen", q((al as i128).zero_widen()), (al, 0));
    // as the wide routines combine them
    want!("(product + b) >> k", p((al.widen_mul(ah) + b) >> k), { let (l, h) = wrap(Integer::from(al) * ah + &ib); wrap(u(l, h) >> k) });
    Ok(al > 1 && bl > 1 && (ah != 0 || bh != 0))
}
fn consts(_: &[V]) -> Verdict {
    want!("u256 constants", ((u256::ZERO.lo, u256::ZERO.hi), (u256::ONE.lo, u256::ONE.hi), (<u256 as MinInt>::MIN.lo, <u256 as MinInt>::MIN.hi), (<u256 as MinInt>::MAX.lo, <u256 as MinInt>::MAX.hi), (u256::MAX.lo, u256::MAX.hi), u256::BITS, u256::SIGNED), ((0, 0), (1, 0), (0, 0), (u128::MAX, u128::MAX), (u128::MAX, u128::MAX), 256, false));
    want!("i256 constants", ((i256::ZERO.lo, i256::ZERO.hi), (i256::ONE.lo, i256::ONE.hi), (i256::MIN.lo, i256::MIN.hi), (i256::MAX.lo, i256::MAX.hi), i256::BITS, i256::SIGNED), ((0, 0), (1, 0), (0, 1 << 127), (u128::MAX, u128::MAX >> 1), 256, true));
    Ok(true)
}

pub fn prop() -> Prop {
    let m = 1_000_000;
    let g = |r: &mut Rng| { let mut v: Case = (0..4).map(|_| V::N(limb(r))).collect(); if r.chance(1, 8) { v[2] = v[0].clone(); } if r.chance(1, 8) { v[3] = v[1].clone(); } if r.chance(1, 10) { v[2] = V::N((!v[0].n()).wrapping_add(r.below(3) as u128)); } v.push(V::N(r.below(256) as u128)); v };
    let rules = vec![
        rule("ops", 30 * m, 600 * m, g, check),
        rule("shifts", 0, 0, g, check).every(256 * 64, |i| { let mut r = Rng::new(1, 24, i >> 8); let mut v: Case = (0..4).map(|_| V::N(limb(&mut r))).collect(); v.push(V::N((i & 255) as u128)); v }),
        rule("constants", 1, 1, |_| vec![], consts),
    ];
    Prop { id: "C24", rules, text: "Cases: pairs of 256-bit values from structured limbs (all ones, single bits, runs, complements, equal halves, half-word patterns) and a shift amount; every shift amount for 64 operands. Each case evaluates all operators against arbitrary-precision integers. Non-trivial: both low limbs exceed 1 and one high limb is non-zero. Distinct counts are a lower bound from a hash bitmap.",
        assumptions: &["left shifts of the 256-bit types, and the 128-bit signed widening product, are declared unimplemented and excluded; so is a shift by 256 or more"] }
}
