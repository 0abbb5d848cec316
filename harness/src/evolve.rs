//! Coverage- and comparison-guided search for inputs on the instrumented build.
use crate::api::*;
use crate::engine::*;
use crate::gens::Gen;
use crate::rng::Rng;
use std::ffi::c_void;
use std::sync::Arc;

unsafe extern "C" {
    fn cov_run(f: extern "C" fn(*mut c_void), p: *mut c_void, lim: u64) -> i64;
    fn cov_merge(acc: *mut u8, vacc: *mut u8) -> i32;
    fn cov_cmps(a: *mut u64, b: *mut u64) -> u32;
    fn cov_branches(acc: *const u8) -> u32;
}
const NCMP: usize = 192; // as in cov.c
extern "C" fn go(p: *mut c_void) { let j = unsafe { &mut *(p as *mut &mut dyn FnMut()) }; j(); }

/// Run `body` on the instrumented build; number of branch events used (None: limit exceeded).
pub fn watched(mut body: impl FnMut(), limit: u64) -> Option<u64> {
    let mut d: &mut dyn FnMut() = &mut body;
    let n = unsafe { cov_run(go, &mut d as *mut &mut dyn FnMut() as *mut c_void, limit) };
    if n < 0 { None } else { Some(n as u64) }
}
/// Steps used by one call (None: limit exceeded) and its result.
pub fn observed(v: &Variant, f: &FnInfo, a: &Args, limit: u64) -> (Option<u64>, Ret) {
    let mut r = [0; 2];
    let n = watched(|| r = v.call(f, a), limit);
    (n, r)
}
/// Upper bound on branch events for one call: generous, but finite and independent of time.
pub fn step_limit(f: &FnInfo, a: &Args) -> u64 {
    let n = match f.base { "jn" | "yn" => (a[0] as u32 as i32).unsigned_abs() as u64, _ => 0 };
    4_000_000 + 1024 * n
}

const M: usize = 65536;
/// An input that reached something new, with the unequal comparison operands its execution met.
struct Entry { a: Args, branch: bool, cmps: Vec<(u64, u64)> }
/// One evolution run. `fresh` makes a new input, `probe` is what is observed on the instrumented build; every executed
/// input is judged by `rules`.
pub fn evolve(ctx: &mut Ctx, g: &Gen, fresh: &dyn Fn(&mut Rng) -> Args, probe: &dyn Fn(&Args), rules: &[Arc<dyn Rule>], execs: u64) {
    let f = g.f;
    let mut acc = vec![0u8; M];
    let mut vacc = vec![0u8; M];
    let mut corpus: Vec<Entry> = vec![];
    let mut branchy: Vec<u32> = vec![];
    let (mut ca, mut cb) = ([0u64; NCMP], [0u64; NCMP]);
    let mut rng = ctx.rng.clone();
    for k in 0..execs {
        let a = if corpus.is_empty() || k < execs / 16 || rng.chance(1, 12) { fresh(&mut rng) } else {
            let n = corpus.len() as u64;
            let i = match rng.below(4) { 0 => rng.below(n), 1 if !branchy.is_empty() => *rng.pick(&branchy) as u64, 2 if !branchy.is_empty() => { let m = branchy.len() as u64; branchy[(m - 1 - rng.below(m.min(16))) as usize] as u64 } _ => n - 1 - rng.below(n.min(64)) };
            let o = corpus[rng.below(n) as usize].a;
            let e = &corpus[i as usize];
            mutate(&mut rng, g, &e.a, &o, &e.cmps)
        };
        crate::watch::enter(&*rules[0], &a);
        watched(|| probe(&a), step_limit(f, &a));
        let new = unsafe { cov_merge(acc.as_mut_ptr(), vacc.as_mut_ptr()) };
        if new != 0 && corpus.len() < 20000 {
            let n = unsafe { cov_cmps(ca.as_mut_ptr(), cb.as_mut_ptr()) } as usize;
            let mut cmps: Vec<(u64, u64)> = (0..n).map(|i| (ca[i], cb[i])).collect();
            cmps.sort(); cmps.dedup();
            if new & 2 != 0 { branchy.push(corpus.len() as u32); }
            corpus.push(Entry { a, branch: new & 2 != 0, cmps });
        }
        let mut failed = false;
        for r in rules { failed |= !ctx.case(r, &a); }
        if failed && ctx.fails.len() >= 4 { break; }
    }
    ctx.class("guided executions", execs);
    ctx.class("guided corpus entries", corpus.len() as u64);
    ctx.class("guided corpus entries with a new branch", corpus.iter().filter(|c| c.branch).count() as u64);
    ctx.class("branches reached (summed over functions)", unsafe { cov_branches(acc.as_ptr()) } as u64);
}

/// Move an argument so that a comparison with operands `p`, `q` may come out the other way.
fn solve(r: &mut Rng, g: &Gen, x: u128, w: u32, float: bool, p: u64, q: u64) -> Option<u128> {
    let ty = g.f.ty;
    let (p, q) = if r.bool() { (p, q) } else { (q, p) };
    let q = match r.below(6) { 0 => q.wrapping_add(1), 1 => q.wrapping_sub(1), _ => q };
    let abs = if float { ty.abs(x) } else { x };
    if p != 0 && (abs as u64 == p || x as u64 == p) && r.chance(3, 4) { return Some(if w == 128 { (x & !(u64::MAX as u128)) | q as u128 } else { (x & if float { ty.sign() } else { 0 }) | q as u128 }); }
    match r.below(4) {
        // an operand is a bit field of the argument: put the other operand there
        0 | 1 => {
            let big = p.max(q);
            if big >> 63 != 0 { return None; }
            let need = 64 - big.leading_zeros();
            let width = need.max(*r.pick(&[1, 4, 8, 10, 11, 12, 15, 16, 20, 21, 24, 26, 32, 48, 52, 63]));
            if width >= w { return None; }
            let m = (1u128 << width) - 1;
            let at: Vec<u32> = (0..=w - width).filter(|s| (x >> s) & m == p as u128).collect();
            if at.is_empty() { return None; }
            let s = match r.below(4) { 0 => at[0], 1 => at[at.len() - 1], _ => *r.pick(&at) };
            Some((x & !(m << s)) | (q as u128 & m) << s)
        }
        // an exponent, biased or not
        2 if float => {
            let ef = ty.ef(x) as u64;
            let t = if ef == p { q } else if ef.wrapping_sub(ty.bias() as u64) == p { q.wrapping_add(ty.bias() as u64) } else { return None };
            if t as u128 <= ty.inf() >> ty.mb() { Some((x & (ty.man_mask() | ty.sign())) | (t as u128) << ty.mb()) } else { None }
        }
        // a sum or difference that involves a field
        _ => {
            let d = (q as i64).wrapping_sub(p as i64) as i128;
            let d = if d.unsigned_abs() > 1 << 31 { (q as i32).wrapping_sub(p as i32) as i128 } else { d };
            let s = if float { *r.pick(&[0, ty.mb(), ty.mb(), w / 2, if w > 32 { w - 32 } else { 0 }]) } else { 0 };
            Some(x.wrapping_add((d << s) as u128))
        }
    }
}

fn mutate(r: &mut Rng, g: &Gen, b: &Args, other: &Args, cmps: &[(u64, u64)]) -> Args {
    let f = g.f;
    let mut a = *b;
    let args = f.sig.args();
    let n = if r.chance(2, 3) { 1 } else { 1 + r.below(3) };
    for _ in 0..n {
        let i = r.below(args.len() as u64) as usize;
        let w = if args[i] { f.ty.bits() } else { 32 };
        let mask = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        let mut x = a[i];
        match r.below(18) {
            0 | 1 => x ^= 1 << r.below(w as u64),
            2 => { let d = 1u128 << r.below(w as u64); x = if r.bool() { x.wrapping_add(d) } else { x.wrapping_sub(d) }; }
            3 => { let d = r.below(16) as u128; x = if r.bool() { x.wrapping_add(d) } else { x.wrapping_sub(d) }; }
            4 => x = other[i],
            5 if args[i] => { let m = f.ty.man_mask(); x = (x & !m) | (other[i] & m); }
            6 if args[i] => { let m = f.ty.man_mask(); x = (x & !m) | (r.u128() & m); }
            7 if args[i] => x = g.w.pick(r) | (x & f.ty.sign()),
            8 if args[i] && f.ty == Ty::F64 => x = (x & 0xffffffff00000000) | (r.u64() as u32 as u128),
            9..=16 if !cmps.is_empty() => {
                for _ in 0..12 {
                    let (p, q) = *r.pick(cmps);
                    if let Some(y) = solve(r, g, x, w, args[i], p, q) { x = y; break; }
                }
            }
            _ => x = if args[i] { f.ty.step(x, r.range(-8, 8) as i128) } else { r.u64() as u128 },
        }
        a[i] = x & mask;
    }
    g.fit(r, a)
}
