//! The generators of test inputs: how many cases, which, and whether they come out the same again.
use crate::api::{Args, FnInfo, Sig, by_name};
use crate::eng::*;
use crate::rng::*;
use libm_test::generate::{edge_cases, random, spaced};
use libm_test::{CheckBasis, CheckCtx, GeneratorKind as G, Identifier, MathOp};
use std::collections::{BTreeSet, HashSet};

trait Bits: Copy { fn to(self) -> u128; }
macro_rules! bits { ($($t:ident)*) => { $(impl Bits for $t { fn to(self) -> u128 { self.to_bits() as u128 } })* } }
bits!(f16 f32 f64 f128);
impl Bits for i32 { fn to(self) -> u128 { self as u32 as u128 } }
trait Pack { fn pack(self) -> Args; }
impl<A: Bits> Pack for (A,) { fn pack(self) -> Args { [self.0.to(), 0, 0] } }
impl<A: Bits, B: Bits> Pack for (A, B) { fn pack(self) -> Args { [self.0.to(), self.1.to(), 0] } }
impl<A: Bits, B: Bits, C: Bits> Pack for (A, B, C) { fn pack(self) -> Args { [self.0.to(), self.1.to(), self.2.to()] } }

type Seen<'a> = &'a mut dyn FnMut(Args) -> bool;
/// Announced count; each case to the visitor until it returns false.
type Run = fn(&CheckCtx, Seen) -> u64;
struct Op { name: &'static str, id: Identifier, edge: Run, random: Run, spaced: Run }
macro_rules! table {
    (fn_name: $n:ident, attrs: [$($attr:meta),*],) => {
        #[allow(non_snake_case)]
        pub fn $n() -> Op {
            type O = libm_test::op::$n::Routine;
            fn edge(c: &CheckCtx, f: Seen) -> u64 { let (i, n) = edge_cases::get_test_cases::<O>(c); each(i, n, f) }
            fn rand(c: &CheckCtx, f: Seen) -> u64 { let (i, n) = random::get_test_cases::<<O as MathOp>::RustArgs>(c); each(i, n, f) }
            fn spac(c: &CheckCtx, f: Seen) -> u64 { let (i, n) = spaced::get_test_cases::<O>(c); each(i, n, f) }
            Op { name: stringify!($n), id: <O as MathOp>::IDENTIFIER, edge, random: rand, spaced: spac }
        }
    };
}
fn each<T: Pack>(i: impl Iterator<Item = T>, n: u64, f: Seen) -> u64 { for x in i { if !f(x.pack()) { break; } } n }
#[allow(unused)]
mod per { use super::*; libm_macros::for_each_function! { callback: table, emit_types: [] } }
macro_rules! list { ($($n:ident)*) => { fn ops() -> &'static [Op] { static L: std::sync::LazyLock<Vec<Op>> = std::sync::LazyLock::new(|| vec![$(per::$n()),*]); &L } } }
include!("list.rs");

fn ctx(op: &Op, k: G, n: Option<u64>) -> CheckCtx {
    let mut c = CheckCtx::new(op.id, CheckBasis::Mpfr, k);
    if let Some(n) = n { c.override_iterations(n); }
    c
}
fn pick(c: &[V]) -> (&'static Op, &'static FnInfo) { let op = &ops()[c[0].n() as usize % ops().len()]; (op, by_name(op.name)) }

/// Where the function is defined, in positions among the floats.
fn domain(f: &FnInfo) -> (i128, i128) {
    let t = f.ty;
    let (one, inf) = (t.one() as i128, t.inf() as i128);
    match f.base {
        "acos" | "asin" => (-one, one),
        "acosh" => (one, inf),
        "atanh" => (1 - one, one - 1),
        "log" | "log2" | "log10" | "lgamma" | "lgamma_r" => (1, inf),
        "log1p" => (1 - one, inf),
        "sqrt" => (0, inf),
        _ => (-inf, inf),
    }
}
fn order_range(base: &str, k: G) -> (i64, i64) {
    if base != "jn" && base != "yn" { (i32::MIN as i64, i32::MAX as i64) } else if k == G::Extensive { (-0xfff, 0xfffff) } else { (-0xff, 0xffff) }
}
/// Least k with k^args >= n.
fn per_axis(args: usize, n: u64) -> u64 { let mut k = ((n as f64).powf(1.0 / args as f64) as u64).saturating_sub(2); while k.checked_pow(args as u32).is_some_and(|p| p < n) { k += 1; } k }

/// An axis is start, start+gap, ..: `k` values from lo towards hi.
fn axis(lo: i128, hi: i128, k: u128) -> (u128, u128) {
    let between = (hi as u128).wrapping_sub(lo as u128);
    ((between / (k - 1)).max(1), (k - 1).min(between) + 1)
}
fn spaced_set(c: &[V]) -> Verdict {
    let (op, f) = pick(c);
    let n = (c[1].n() as u64).clamp(2, 1 << 20);
    let kind = if c[2].n() & 1 == 0 { G::QuickSpaced } else { G::Extensive };
    let x = ctx(op, kind, Some(n));
    let na = f.sig.args().len();
    let k = per_axis(na, n);
    if k < 2 { return Ok(false); }
    let total = 1u128 << f.ty.bits().min(127);
    // the number of floats of f16 can be reached
    let all = |ax: usize| f.sig.args()[ax] && f.ty.bits() <= 16 && k as u128 >= total;
    let mut want: Vec<Vec<u128>> = vec![];
    for ax in 0..na {
        want.push(if !f.sig.args()[ax] {
            let (lo, hi) = order_range(f.base, kind);
            let (gap, len) = axis(lo as i128, hi as i128, k as u128);
            if gap > i32::MAX as u128 { return Ok(false); } // known-findings.txt
            (0..len).map(|i| (lo as i128 + (i * gap) as i128) as i32 as u32 as u128).collect()
        } else if all(ax) { (0..total).collect() } else {
            let (lo, hi) = domain(f);
            let (gap, len) = axis(lo, hi, k as u128);
            (0..len).map(|i| { let o = lo.wrapping_add((i * gap) as i128); if o < 0 { o.unsigned_abs() | f.ty.sign() } else { o as u128 } }).collect()
        });
    }
    // which of the two zeros is met is left open
    let z = |ax: usize, b: u128| if f.sig.args()[ax] && f.ty.is_zero(b) && !all(ax) { 0 } else { b };
    let count = want.iter().map(|w| w.len() as u128).product::<u128>();
    let mut got: Vec<Args> = vec![];
    let said = (op.spaced)(&x, &mut |a| { got.push(a); got.len() as u128 <= count });
    if said as u128 != count || got.len() as u128 != count { return Err(format!("{n} iterations: {said} cases announced, {}{} produced, expected {count}", got.len(), if got.len() as u128 > count { " or more" } else { "" })); }
    for a in &mut got { for ax in 0..na { a[ax] = z(ax, a[ax]); } }
    let mut exp: Vec<Args> = vec![[0; 3]];
    for ax in 0..na { exp = exp.into_iter().flat_map(|e| want[ax].iter().map(move |w| { let mut e = e; e[ax] = z(ax, *w); e })).collect(); }
    got.sort_unstable(); exp.sort_unstable();
    if got != exp { let i = (0..got.len()).find(|i| got[*i] != exp[*i]).unwrap(); return Err(format!("{n} iterations: of the cases in order, number {i} is {:x?}, expected {:x?}", got[i], exp[i])); }
    Ok(n > 4)
}

fn random_set(c: &[V]) -> Verdict {
    let (op, f) = pick(c);
    let n = (c[1].n() as u64).clamp(1, 1 << 20);
    let x = ctx(op, G::Random, Some(n));
    let na = f.sig.args().len();
    let mut got: Vec<Args> = vec![];
    let lim = (n as usize + 10) * 8;
    let said = (op.random)(&x, &mut |a| { got.push(a); got.len() <= lim });
    if said != got.len() as u64 { return Err(format!("{n} iterations: {said} cases announced, {} produced", got.len())); }
    let k = per_axis(na, n);
    // rounding of the cube root may add one
    if said != k.pow(na as u32) && !(na == 3 && said == (k + 1).pow(3)) { return Err(format!("{n} iterations: {said} cases, expected {}", k.pow(na as u32))); }
    let mut i = 0;
    let mut diff = None;
    (op.random)(&x, &mut |a| { if got.get(i) != Some(&a) { diff = Some((i, a)); return false; } i += 1; true });
    if let Some((i, a)) = diff { return Err(format!("{n} iterations: case {i} is {:x?} and, generated again, {a:x?}", got.get(i))); }
    for ax in 0..na {
        let vals: HashSet<u128> = got.iter().map(|a| a[ax]).collect();
        if !f.sig.args()[ax] {
            let (lo, hi) = order_range(f.base, G::Random);
            if let Some(v) = vals.iter().find(|v| { let v = **v as u32 as i32 as i64; v < lo || v > hi }) { return Err(format!("integer argument {} outside {lo}..={hi}", *v as u32 as i32)); }
            if vals.len() >= 200 && f.sig == Sig::IF_F {
                // 200 draws: all below an eighth of the range, or none in the lowest half, has probability below 2^-190
                if !vals.iter().any(|v| (*v as i32 as i64) > hi / 2) || !vals.iter().any(|v| (*v as i32 as i64) < hi / 2) { return Err("integer arguments are not spread over their range".into()); }
            }
            if vals.len() < 256 || f.sig == Sig::IF_F { continue; }
        }
        if vals.len() < 256 { continue; }
        let bits = if f.sig.args()[ax] { f.ty.bits() } else { 32 };
        let (or, and) = vals.iter().fold((0, u128::MAX), |s, v| (s.0 | v, s.1 & v));
        let full = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
        if or != full || and & full != 0 { return Err(format!("argument {ax}: in {} different values, bits {:x} are never set, bits {:x} always", vals.len(), full & !or, and & full)); }
    }
    Ok(n > 4)
}

fn edges(c: &[V]) -> Verdict {
    let (op, f) = pick(c);
    let x = ctx(op, G::EdgeCases, None);
    let na = f.sig.args().len();
    let t = f.ty;
    let mut axes: Vec<HashSet<u128>> = vec![HashSet::new(); na];
    let mut last: Args = [u128::MAX; 3];
    let (mut seen, mut n) = (HashSet::new(), 0u64);
    let mut twice = None;
    let said = (op.edge)(&x, &mut |a| {
        n += 1;
        for ax in 0..na { if a[ax] != last[ax] || n == 1 { axes[ax].insert(a[ax]); } }
        last = a;
        if na == 1 && !seen.insert(a) { twice = Some(a); }
        true
    });
    if let Some(a) = twice { return Err(format!("case {:x?} occurs twice", &a[..na])); }
    if said != n { return Err(format!("{said} cases announced, {n} produced")); }
    let prod = axes.iter().map(|a| a.len() as u64).product::<u64>();
    if prod != n { return Err(format!("{n} cases, but the arguments have {:?} different values", axes.iter().map(|a| a.len()).collect::<Vec<_>>())); }
    for ax in 0..na {
        let have = &axes[ax];
        let mut want: Vec<(u128, &str)> = vec![];
        if f.sig.args()[ax] {
            let mut near = |o: i128, up: i128, down: i128, why: &'static str| for k in -down..=up {
                let p = o + k;
                if p.unsigned_abs() <= t.inf() { want.push((t.from_ord(p), why)); }
            };
            let (lo, hi) = domain(f);
            let inf = t.inf() as i128;
            for (o, why) in [(0, "zero"), (t.one() as i128, "one"), (-(t.one() as i128), "minus one"), (t.man_mask() as i128, "the largest subnormal"), (-(t.man_mask() as i128), "the negative of the largest subnormal")] { near(o, 7, 7, why); }
            near(inf, 0, 7, "infinity");
            near(-inf, 7, 0, "minus infinity");
            if lo > -inf { near(lo, 7, 7, "the start of the domain"); }
            if hi < inf { near(hi, 7, 7, "the end of the domain"); }
            match f.base {
                "sin" | "cos" | "tan" | "sincos" => for p in [std::f64::consts::PI, std::f64::consts::FRAC_PI_2] {
                    let b = if t == Ty32 { (p as f32).to_bits() as u128 } else { p.to_bits() as u128 } as i128;
                    near(b, 7, 7, "a multiple of half pi"); near(-b, 7, 7, "a multiple of half pi");
                },
                "tgamma" => for k in 0..4 { near(-(t.from_f64(k as f64) as i128), 7, 7, "a pole"); },
                _ => {}
            }
            want.push((t.sign(), "minus zero"));
            let q = 1u128 << (t.mb() - 1);
            for s in [0, t.sign()] { for m in [q, t.man_mask(), 1, q - 1] { want.push((s | t.inf() | m, "NaNs")); } }
        } else {
            let mut around = |v: i64| for k in -7..=7 { if let Ok(v) = i32::try_from(v + k) { want.push((v as u32 as u128, "an integer of interest")); } };
            around(i32::MIN as i64); around(i32::MAX as i64); around(0);
            if matches!(f.base, "scalbn" | "ldexp") {
                let (hi, lo, sub) = (t.bias() as i64, 1 - t.bias() as i64, 1 - t.bias() as i64 - t.mb() as i64);
                for v in [hi, lo, sub, -sub, hi - lo, lo - hi, hi - sub, sub - hi] { around(v); }
            }
        }
        for (w, why) in want { if !have.contains(&w) { return Err(format!("argument {ax} never is 0x{w:x} ({why} and what is near it)")); } }
    }
    Ok(true)
}
use crate::api::Ty::F32 as Ty32;

/// Without an override: never a token number of cases, and the same number for every run.
fn default_count(c: &[V]) -> Verdict {
    let (op, f) = pick(c);
    for (k, run) in [(G::QuickSpaced, op.spaced), (G::Random, op.random)] {
        let mut n = 0u64;
        let said = run(&ctx(op, k, None), &mut |_| { n += 1; n < 10_000 });
        if said < 10_000 { return Err(format!("{k:?} announces only {said} cases")); }
        if n < 10_000 { return Err(format!("{k:?} announces {said} cases and produces {n}")); }
        if f.ty.bits() <= 16 && f.sig.args().len() == 1 && k == G::QuickSpaced && said != 1 << 16 { return Err(format!("{said} cases instead of all f16 values")); }
    }
    Ok(true)
}

/// `seedhash <op index> <n>`: what another process with the same LIBM_SEED generates.
pub fn seedhash(a: &[String]) {
    let (i, n): (usize, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let op = &ops()[i];
    let mut h = 7u64;
    (op.random)(&ctx(op, G::Random, Some(n)), &mut |a| { for x in a { h = mix(mix(h, x as u64), (x >> 64) as u64); } true });
    println!("{h:x}");
}
fn reseed(c: &[V]) -> Verdict {
    let i = c[0].n() as usize % ops().len();
    let n = (c[1].n() as u64).clamp(64, 4096);
    let seed = |s: u128| -> String { (0..32).map(|k| char::from(b"abcdefghijklmnopqrstuvwxyzABCDEF"[(s >> (k % 25 * 5)) as usize & 31])).collect() };
    let run = |s: u128| -> String {
        let o = std::process::Command::new("/proc/self/exe").args(["seedhash", &i.to_string(), &n.to_string()]).env("LIBM_SEED", seed(s)).stderr(std::process::Stdio::null()).output().unwrap();
        if o.status.success() { String::from_utf8_lossy(&o.stdout).trim().to_string() } else { format!("failure: {}", o.status) }
    };
    let (a, b, d) = (run(c[2].n()), run(c[2].n()), run(c[2].n() ^ 0x1_8421));
    if a.is_empty() || a.starts_with("failure") { return Err(format!("with LIBM_SEED={}: {a}", seed(c[2].n()))); }
    if a != b { return Err(format!("two processes with LIBM_SEED={} generate different cases", seed(c[2].n()))); }
    if a == d { return Err("two seeds give the same cases".into()); }
    Ok(true)
}

pub fn rules() -> Vec<Rule> {
    let m = ops().len() as u64;
    let sizes = |r: &mut Rng| -> u128 { match r.below(5) { 0 => 2 + r.below(12), 1 => { let k = 2 + r.below(60); (k * k).saturating_add(r.below(3)).saturating_sub(1) } 2 => { let k = 2 + r.below(12); (k * k * k + r.below(3)).saturating_sub(1) } 3 => 65530 + r.below(12), _ => { let s = 3 + r.below(12); r.below(1 << s) } }.max(2) as u128 };
    let one = |i: u64| vec![V::N(i as u128)];
    vec![
        rule("spaced", 40_000, 1_000_000, move |r| vec![V::N(r.below(m) as u128), V::N(sizes(r)), V::N(r.below(2) as u128)], spaced_set),
        rule("random", 20_000, 500_000, move |r| vec![V::N(r.below(m) as u128), V::N(sizes(r))], random_set),
        rule("edges", 0, 0, |_| vec![], edges).every(m, one),
        rule("default count", 0, 0, |_| vec![], default_count).every(m, one),
        rule("reseed", 4096, 40_000, move |r| vec![V::N(r.below(m) as u128), V::N(64 + r.below(1000) as u128), V::N(r.u128())], reseed),
    ]
}
