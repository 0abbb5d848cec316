#![feature(f16, f128)]
#![allow(clippy::all)]
mod eng;
#[cfg(feature = "cov")]
mod guided;
mod hexf;
mod ints;
mod rng;
mod traits;
mod watch;

/// Bit patterns of a float format with structure.
pub fn floatbits(r: &mut rng::Rng, bits: u32, sig: u32) -> u128 {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let ew = bits - 1 - sig;
    let s = (r.below(2) as u128) << (bits - 1);
    let e = match r.below(8) { 0 => 0, 1 => (1u128 << ew) - 1, 2 => 1, 3 => (1 << ew) - 2, 4 => (1 << (ew - 1)) - 1 + r.below(9) as u128 - 4, _ => r.u128() & ((1 << ew) - 1) };
    let m = match r.below(6) { 0 => 0, 1 => (1u128 << sig) - 1, 2 => 1 << r.below(sig as u64), 3 => { let k = r.below(sig as u64 + 1); ((1u128 << sig) - 1) >> k << k } _ => r.u128() & ((1 << sig) - 1) };
    if r.chance(1, 8) { return r.u128() & mask; }
    (s | e << sig | m) & mask
}

fn more(mut p: eng::Prop, k: u64) -> eng::Prop { for r in &mut p.rules { if r.quick > 1000 { r.quick *= k; } } p }
fn main() { eng::main_with(|id| match id { "C23" => Some(more(hexf::prop(), 2)), "C24" => Some(more(ints::prop(), 2)), "C25" => Some(more(traits::prop(), 2)), _ => None }) }
