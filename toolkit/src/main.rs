//! C27: the comparison toolkit of the test crate against exact arithmetic.
#![feature(f16, f128)]
#![allow(clippy::all, dead_code, unexpected_cfgs)]
#[path = "../../harness/src/api.rs"]
mod api;
#[path = "../../internals/src/eng.rs"]
mod eng;
#[cfg(feature = "cov")]
#[path = "../../internals/src/guided.rs"]
mod guided;
mod eval;
#[path = "../../harness/src/gen.rs"]
mod gen_table;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
mod macros;
mod ops;
#[path = "../../internals/src/rng.rs"]
mod rng;
mod sets;
mod steps;
mod valid;
#[path = "../../internals/src/watch.rs"]
mod watch;

/// Bit patterns of a float format with structure.
pub fn floatbits(r: &mut rng::Rng, bits: u32, sig: u32) -> u128 {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let ew = bits - 1 - sig;
    let s = (r.below(2) as u128) << (bits - 1);
    let e = match r.below(8) { 0 => 0, 1 => (1u128 << ew) - 1, 2 => 1, 3 => (1 << ew) - 2, 4 => (1 << (ew - 1)) - 1 + r.below(9) as u128 - 4, _ => r.u128() & ((1 << ew) - 1) };
    let m = match r.below(6) { 0 => 0, 1 => (1u128 << sig) - 1, 2 => 1 << r.below(sig as u64), 3 => { let k = r.below(sig as u64 + 1); ((1u128 << sig) - 1) >> k << k } _ => r.u128() & ((1 << sig) - 1) };
    if r.chance(1, 8) { return r.u128() & mask; }
    (s | e << sig | m) & mask
}

fn prop() -> eng::Prop {
    let mut rules = steps::rules();
    rules.extend(valid::rules());
    rules.extend(ops::rules());
    eng::Prop { id: "C27", rules, text: "Cases: float pairs, step counts and ranges in f8, f16, f32, f64 and f128 (8-bit floats exhaustively), structured around zero, the subnormal limit, infinity and wrap-around; pairs of results at, just inside and just outside the allowed distance; arguments of every tabulated operation for its MPFR reference and its function binding. Non-trivial: the operands are finite and non-zero and the step count is not zero; for results, the pair differs. Distinct counts are a lower bound from a hash bitmap.",
        assumptions: &["MPFR is correctly rounded", "default tolerances and expected-failure lists of the test suite are policy, not measured here"] }
}
fn prop29() -> eng::Prop {
    eng::Prop { id: "C29", rules: sets::rules(), text: "Cases: an operation of the table and a number of iterations (small, near squares, cubes and 2^16, otherwise log-uniform up to 2^14), for which the whole generated set is examined; every operation's edge cases and default set; pairs of processes with one seed. Non-trivial: more than four iterations (all edge, default and seed cases).",
        assumptions: &["domains are the mathematical ones the table of domains names; lgamma is taken on positive arguments", "optimised build of the test crate"] }
}
fn prop30() -> eng::Prop {
    eng::Prop { id: "C30", rules: eval::rules(), text: "Cases: an operation of the table, a basis, and for each argument a value written in one of the accepted notations (bit patterns, hexadecimal literals with any grouping, decimals in full, shortened, half-way between floats or next to that, infinities, NaN), about one in twelve spoiled; and names that are no operation or basis. Each is one run of the tool as a process. Non-trivial: runs that must print a result, or, under refused, be refused.",
        assumptions: &["decimals and hexadecimal literals mean the rational number written; how the tool prints a value is the formatter of C23", "musl, whose sources are not here, is left out"] }
}
fn prop31() -> eng::Prop {
    eng::Prop { id: "C31", rules: macros::rules(), text: "Cases: invocations of for_each_function with random lists to skip, to restrict to and to give attributes, requested types in any order, extra expressions using the magic names, per-function matches, and fields in any order, about a quarter of them to be refused; each is compiled and run. Strings at and next to the names of operations for the enums of names. Non-trivial: an accepted invocation that calls back at least once or one that must be refused; every string.",
        assumptions: &["the table of functions, signatures and base names of the checks is right (it is what C01 to C21 call the functions by)", "the order of the callbacks and of the attributes of one function are left open"] }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|s| s == "seedhash") { sets::seedhash(&a[2..]); return; }
    eng::main_with(|id| match id { "C27" => Some(prop()), "C29" => Some(prop29()), "C30" => Some(prop30()), "C31" => Some(prop31()), _ => None })
}
