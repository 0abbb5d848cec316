//! Which cases are generated for which property.
use crate::api::*;
use crate::clause;
use crate::engine::*;
use crate::evolve;
use crate::gen_table::{FNS, HELPERS};
use crate::gens::*;
use crate::hard;
use crate::judge;
use crate::rules::*;
use crate::sym;
use std::sync::Arc;

pub struct Plan { pub tasks: Vec<Task>, pub rule: &'static str, pub level: &'static str, pub assumptions: &'static [&'static str] }

type R = Arc<dyn Rule>;
fn acc_rule(w: &World, f: &'static FnInfo, v: &str) -> R { Arc::new(Acc::new(f, w.var(v))) }

const CHUNK: u64 = 16384;
fn random(w: &World, name: String, f: &'static FnInfo, rules: Vec<R>, cases: u64) -> Task {
    let g = Gen::new(f, &w.dict);
    let cases = (cases as f64 * w.scale).ceil() as u64;
    Task { name, phase: 1, chunks: cases.div_ceil(CHUNK), run: Box::new(move |_, ctx| {
        let mut r = ctx.rng.clone();
        for _ in 0..CHUNK { let a = g.args(&mut r); for q in &rules { ctx.case(q, &a); } if ctx.fails.len() >= 8 { break; } }
    }) }
}
/// Every constant of the source (and of the tree the checks were written for), its neighbours and its image at other exponents.
fn dictionary(w: &World, name: String, f: &'static FnInfo, rules: Vec<R>, cap: u64) -> Task {
    let g = Gen::new(f, &w.dict);
    let ty = f.ty;
    let nf = f.sig.args().iter().filter(|x| **x).count();
    let all: Vec<u128> = g.w.all.clone();
    let near: Vec<u128> = { let mut v = g.w.near.clone(); v.extend(specials(ty)); v.sort(); v.dedup(); v };
    let chunks = 16;
    let cap = (cap as f64 * w.scale).ceil() as u64;
    Task { name, phase: 1, chunks, run: Box::new(move |c, ctx| {
        let mut r = ctx.rng.clone();
        if f.sig == Sig::F_F || nf == 1 {
            let int_at = f.sig.args().iter().position(|x| !*x);
            let fl_at = f.sig.args().iter().position(|x| *x).unwrap();
            for (i, x) in all.iter().enumerate() {
                if i as u64 % chunks != c { continue; }
                for k in -3i128..=3 {
                    for s in [false, true] {
                        let mut a = [0; 3];
                        let v = ty.step(*x, k);
                        a[fl_at] = if s { ty.neg(v) } else { v };
                        if let Some(p) = int_at { a[p] = if f.sig == Sig::IF_F { (r.range(-12, 12) as i32) as u32 as u128 } else { (g.args(&mut r))[p] }; a = g.fit(&mut r, a); }
                        for q in &rules { ctx.case(q, &a); }
                    }
                }
                if ctx.fails.len() >= 8 { return; }
            }
            // mantissas of constants at every exponent of the domain
            let n = (cap / chunks) as usize;
            for _ in 0..n {
                let m = *r.pick(&near) & ty.man_mask();
                let e = r.range(g.dom.e.0 as i64, g.dom.e.1 as i64) as i32;
                let mut a = g.args(&mut r);
                a[fl_at] = ty.step(ty.build(r.bool(), e, m), if r.bool() { 0 } else { r.range(-1, 1) as i128 });
                let a = g.fit(&mut r, a);
                for q in &rules { ctx.case(q, &a); }
            }
        } else {
            for _ in 0..cap / chunks {
                let mut a = [0; 3];
                for i in 0..nf {
                    let v = ty.step(if r.chance(3, 4) { *r.pick(&near) } else { *r.pick(&all) }, if r.bool() { 0 } else { r.range(-2, 2) as i128 });
                    a[i] = if r.chance(1, 3) { ty.neg(v) } else { v };
                }
                if r.bool() { let b = g.args(&mut r); let i = r.below(nf as u64) as usize; a[i] = b[i]; }
                for q in &rules { ctx.case(q, &a); }
                if ctx.fails.len() >= 8 { return; }
            }
        }
    }) }
}
/// All (or every stride-th) patterns of a 32-bit unary function, natively screened. `zones`: (up to this magnitude, stride).
fn sweep32(w: &World, f: &'static FnInfo, v: &str, zones: &[(u64, u64)]) -> Task {
    let rule = acc_rule(w, f, v);
    let var = w.var(v);
    let parity = judge::parity(f.base);
    let mut items: Vec<(u64, u64, u64)> = vec![];
    let mut lo = 0u64;
    for &(hi, stride) in zones {
        for sign in 0..if parity == 0 { 2u64 } else { 1 } {
            let step = (1u64 << 22) * stride.min(8);
            let mut a = lo;
            while a < hi { let b = (a + step).min(hi); items.push((sign << 31 | a, sign << 31 | b, stride)); a = b; }
        }
        lo = hi;
    }
    // negative zone ends carry the sign bit; 2^31 itself overflows into it
    for it in &mut items { if it.1 <= it.0 { it.1 = (it.0 & !0x7fff_ffff) + (1 << 31); } }
    let seed = w.seed;
    let zs: Vec<String> = zones.iter().map(|z| z.1.to_string()).collect();
    Task { name: format!("sweep:{}@{v} stride {}", f.name, zs.join("/")), phase: 1, chunks: items.len() as u64, run: Box::new(move |c, ctx| {
        let (lo, hi, stride) = items[c as usize];
        let mut start = lo.div_ceil(stride) * stride + seed % stride;
        while start < hi {
            let n = (hi - start).div_ceil(stride).min(32768);
            crate::watch::enter_sweep(&*rule);
            let (sus, nt, k) = judge::sweep(&var, f, start, n, stride, parity);
            crate::watch::leave();
            ctx.swept(&rule, if parity == 0 { n } else { 2 * n }, nt, &sus);
            ctx.class("sweep cases decided by the reference", k);
            start += n * stride;
            if ctx.fails.len() >= 8 { return; }
        }
    }) }
}
/// Patterns start, start+stride, ... of a 16- or 32-bit unary function through arbitrary rules.
fn sweep_rules(_w: &World, name: String, f: &'static FnInfo, rules: Vec<R>, stride: u64, seed: u64) -> Task {
    let n = 1u64 << f.ty.bits();
    let chunks = if n > 1 << 20 { 256 } else { 4 };
    let per = n / chunks;
    Task { name, phase: 1, chunks, run: Box::new(move |c, ctx| {
        let mut x = c * per + (seed % stride);
        while x < (c + 1) * per {
            for q in &rules { ctx.case(q, &[x as u128, 0, 0]); }
            x += stride;
            if ctx.fails.len() >= 8 { return; }
        }
    }) }
}
/// f16 pairs on a lattice (exhaustive when stride is 1).
fn pairs16(w: &World, name: String, rules: Vec<R>, stride: u64) -> Task {
    let seed = w.seed;
    Task { name, phase: 1, chunks: 256, run: Box::new(move |c, ctx| {
        let mut p = c * (1 << 24) + seed.wrapping_mul(7919) % stride;
        while p < (c + 1) << 24 {
            // spread the low index over both operands
            let (x, y) = ((p >> 16) & 0xffff, (p ^ (p >> 16).wrapping_mul(40503)) & 0xffff);
            for q in &rules { ctx.case(q, &[x as u128, y as u128, 0]); }
            p += stride;
            if ctx.fails.len() >= 8 { return; }
        }
    }) }
}
fn guided(w: &World, f: &'static FnInfo, rules: Vec<R>, phase: u32, execs: u64, runs: u64) -> Task {
    let g = Gen::new(f, &w.dict);
    let v = w.var(if w.variants.contains_key("cov") { "cov" } else { "gencov" });
    let execs = (execs as f64 * w.scale).ceil() as u64;
    Task { name: format!("guided:{}", f.name), phase, chunks: runs, run: Box::new(move |_, ctx| evolve::evolve(ctx, &g, &|r| g.args(r), &|a| { v.call(f, a); }, &rules, execs)) }
}
/// Guided search that observes `probe` (a rule on the instrumented build) instead of one call, from inputs of `fresh`.
fn guided_rule(w: &World, name: String, f: &'static FnInfo, fresh: fn(&mut crate::rng::Rng, &Gen) -> Args, probe: R, rules: Vec<R>, execs: u64, runs: u64) -> Task {
    let g = Gen::new(f, &w.dict);
    let execs = (execs as f64 * w.scale).ceil() as u64;
    Task { name, phase: 1, chunks: runs, run: Box::new(move |_, ctx| evolve::evolve(ctx, &g, &|r| fresh(r, &g), &|a| { probe.quick(a, &mut Seen::default()); }, &rules, execs)) }
}
/// Operands at which something is stated exactly, their neighbours, and the windows in which the rounded result changes its kind.
fn clauses(w: &World, f: &'static FnInfo, rule: R) -> Task {
    let ty = f.ty;
    let chunks = 16u64;
    let k = if w.thorough { 20 } else { 1 };
    let g = Gen::new(f, &w.dict);
    let pts: std::sync::OnceLock<(Vec<u128>, Vec<u128>)> = Default::default();
    let heavy = weight(f) > 1.0;
    Task { name: format!("exact:{}", f.name), phase: 1, chunks, run: Box::new(move |c, ctx| {
        let mut r = ctx.rng.clone();
        let fl: Vec<usize> = f.sig.args().iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
        if fl.len() == 2 {
            let sp = specials(ty);
            for (i, x) in sp.iter().enumerate() {
                if i as u64 % chunks != c { continue; }
                for y in &sp { ctx.case(&rule, &[*x, *y, 0]); }
                for _ in 0..2000 * k { let b = g.args(&mut r); let p = r.below(2) as usize; let mut a = b; a[p] = *x; ctx.case(&rule, &a); }
                if ctx.fails.len() >= 8 { return; }
            }
            return;
        }
        if f.sig == Sig::IF_F {
            for (i, x) in specials(ty).iter().enumerate() {
                if i as u64 % chunks != c { continue; }
                for n in -40i32..=40 { ctx.case(&rule, &[n as u32 as u128, *x, 0]); }
                if ctx.fails.len() >= 8 { return; }
            }
            return;
        }
        let (grid, edges) = pts.get_or_init(|| clause::points(f));
        for (i, x) in grid.iter().enumerate() {
            if i as u64 % chunks != c { continue; }
            let n = if heavy { 1 } else { 2 };
            for d in -n..=n { ctx.case(&rule, &[ty.step(*x, d), 0, 0]); }
            if ctx.fails.len() >= 8 { return; }
        }
        ctx.class("places where the rounded result changes its kind", if c == 0 { edges.len() as u64 } else { 0 });
        for (i, x) in edges.iter().enumerate() {
            for d in -128i128..=128 { if (d + 128) as u64 % chunks == c { ctx.case(&rule, &[ty.step(*x, d), 0, 0]); } }
            for _ in 0..if edges.len() > 40 { 4 } else { 200 } * k {
                let b = r.below(ty.mb() as u64 - 1);
                let d = (r.u64() >> (63 - b)) as i128;
                ctx.case(&rule, &[ty.step(*x, if r.bool() { d } else { -d }), 0, 0]);
            }
            let _ = i;
            if ctx.fails.len() >= 8 { return; }
        }
    }) }
}
/// Exact relations of sym.rs that belong to the property itself.
fn relate(w: &World, p: &mut Plan, names: &[&str], bases: &[&str]) {
    for s in sym::SYMS.iter().filter(|s| names.contains(&s.name)) {
        for f in FNS.iter().filter(|f| s.on.contains(&f.base) && s.tys.contains(&f.ty) && bases.contains(&f.base)) {
            let rule: R = Arc::new(SymRule { s, f, v: w.var("arch") });
            let k = match f.base { "jn" | "yn" => 0.06, _ => 1.0 };
            p.tasks.push(random(w, format!("{}:{}", s.name, f.name), f, vec![rule.clone()], (w.work(4_000_000, 200_000_000) as f64 * k / w.scale) as u64));
            p.tasks.push(dictionary(w, format!("dictionary:{}:{}", s.name, f.name), f, vec![rule.clone()], (200_000.0 * k) as u64));
            if f.ty == Ty::F32 && f.sig.args().len() == 1 { p.tasks.push(sweep_rules(w, format!("sweep:{}:{}", s.name, f.name), f, vec![rule.clone()], if w.thorough { 3 } else { 199 }, w.seed)); }
            let (n, e) = effort(w, f);
            p.tasks.push(guided_rule(w, format!("guided:{}:{}", s.name, f.name), f, usual, Arc::new(SymRule { s, f, v: w.var("cov") }), vec![rule.clone()], n / 4, e / 2));
        }
    }
}
fn usual(r: &mut crate::rng::Rng, g: &Gen) -> Args { g.args(r) }
/// Executions per guided run and number of runs.
fn effort(w: &World, f: &FnInfo) -> (u64, u64) {
    let (n, k) = match f.base { "jn" | "yn" => (20_000, 4), "j0" | "j1" | "y0" | "y1" => (60_000, 4), "fmod" if f.ty == Ty::F128 => (8_000, 4), "fmod" | "remainder" | "remquo" => (100_000, 4), _ => (250_000, 8) };
    (if w.thorough { 8 * n } else { n }, if w.thorough { 4 * k } else { k })
}

/// Cost class of one judged case (for dividing the work).
fn weight(f: &FnInfo) -> f64 {
    match f.base { "pow" | "jn" | "yn" => 8.0, "lgamma" | "lgamma_r" | "tgamma" | "erf" | "erfc" => 2.0, "j0" | "j1" | "y0" | "y1" => 3.0, _ => if f.ty == Ty::F128 { 3.0 } else { 1.0 } }
}

/// The plan shared by all accuracy properties.
fn accuracy(w: &World, bases: &[&str], vars: &[&str], cases: u64, sweep_quick: u64) -> Vec<Task> {
    let fs: Vec<&'static FnInfo> = FNS.iter().filter(|f| bases.contains(&f.base)).collect();
    let mut t = vec![];
    let share = |f: &FnInfo| -> u64 {
        let swept = f.ty == Ty::F32 && f.sig.args().len() == 1;
        let unit = if swept { 0.05 } else { match f.ty { Ty::F16 => 0.3, _ => 1.0 } };
        let tot: f64 = fs.iter().map(|g| { let s = g.ty == Ty::F32 && g.sig.args().len() == 1; (if s { 0.05 } else if g.ty == Ty::F16 { 0.3 } else { 1.0 }) * weight(g) }).sum();
        (w.work(cases, cases * 30) as f64 / w.scale * unit / tot) as u64
    };
    for f in &fs {
        for (vi, v) in vars.iter().enumerate() {
            let rule = acc_rule(w, f, v);
            let n = share(f) / if vi == 0 { 1 } else { 2 };
            t.push(random(w, format!("random:{}@{v}", f.name), f, vec![rule.clone()], n));
            t.push(dictionary(w, format!("dictionary:{}@{v}", f.name), f, vec![rule.clone()], (n / 4).min(4_000_000)));
            if f.ty == Ty::F16 && f.sig.args().len() == 1 { t.push(sweep_rules(w, format!("all:{}@{v}", f.name), f, vec![rule.clone()], 1, 0)); }
            if f.ty == Ty::F16 && f.sig == Sig::FF_F { t.push(pairs16(w, format!("pairs:{}@{v}", f.name), vec![rule.clone()], if w.thorough { 1 } else { 509 })); }
            if f.ty == Ty::F32 && f.sig.args().len() == 1 && (vi == 0 || w.thorough) {
                let s = if w.thorough { 1 } else { sweep_quick };
                if judge::sweep_op(f.base).is_some() { t.push(sweep32(w, f, v, &zones(f.base, s))); } else { t.push(sweep_rules(w, format!("sweep:{}@{v} stride {}", f.name, s * 5), f, vec![rule.clone()], if w.thorough { 1 } else { s * 5 }, w.seed)); }
            }
        }
        if clause::has(f) { t.push(clauses(w, f, acc_rule(w, f, vars[0]))); }
        if w.variants.contains_key("cov") || w.variants.contains_key("gencov") {
            let rules: Vec<R> = vec![acc_rule(w, f, vars[0])];
            let (n, k) = effort(w, f);
            t.push(guided(w, f, rules, 1, n, k));
        }
    }
    t
}

/// Where a full sweep would be spent on argument reduction or on plain zeros, take larger steps.
fn zones(base: &str, s: u64) -> Vec<(u64, u64)> {
    match base {
        "sin" | "cos" | "tan" | "sincos" => vec![(0x4e00_0000, s), (1 << 31, s * 8)],
        _ => vec![(1 << 31, s)],
    }
}

const MATH_RULE: &str = "Cases: every (or every k-th) 32-bit pattern of unary f32 functions; every 16-bit pattern; for the rest exponent-stratified and structured patterns, windows around the domain, constants of the source and their neighbours, operand tuples built around cancellation, ties, thresholds and reduction boundaries, and inputs found by branch- and comparison-guided search. Non-trivial: every float argument is finite and non-zero and the result is neither NaN, infinite nor zero. Distinct counts are a lower bound from a hash bitmap.";
const MATH_ASM: &[&str] = &["MPFR is correctly rounded", "a native screen (glibc in the next wider format) may accept a case on its own only when well inside the bound; 1 in 1024 of those is re-decided by MPFR", "x86-64, nightly-2025-04-20"];

pub fn variants_for(prop: &str) -> Vec<&'static str> {
    match prop {
        "C01" => vec!["arch", "soft", "intr", "cov"],
        "C03" => vec!["arch", "soft", "intr", "cov", "i586"],
        "C19" => vec!["checked", "cov"],
        "C26" => vec!["gener", "gencov"],
        "C20" => vec!["arch", "soft", "intr", "unopt", "checked", "cov"],
        "C28" => vec!["arch", "capi", "capicov"],
        _ => vec!["arch", "cov"],
    }
}

pub fn plan(w: &World) -> Plan {
    let m = 1_000_000u64;
    let acc = |bases: &[&str], vars: &[&str], cases: u64, sw: u64| Plan { tasks: accuracy(w, bases, vars, cases, sw), rule: MATH_RULE, level: "exploration", assumptions: MATH_ASM };
    match w.prop.as_str() {
        "C01" => {
            let mut p = acc(&["sqrt"], &["soft", "arch", "intr"], 150 * m, 1);
            for f in by_base("sqrt") { for v in ["soft", "arch"] { p.tasks.push(hard::sqrt_task(w, f, acc_rule(w, f, v), w.work(200_000, 4 * m))); } }
            p
        }
        "C02" => acc(&["fma"], &["arch"], 500 * m, 1),
        "C03" => {
            let mut p = acc(&["ceil", "floor", "trunc", "round", "rint", "roundeven"], &["arch", "soft", "intr"], 150 * m, 1);
            // the sources for 32-bit x86 without SSE2, which has its own two functions
            if w.variants.contains_key("i586") { for f in ["ceil", "floor"].map(by_name) {
                let rule = acc_rule(w, f, "i586");
                p.tasks.push(random(w, format!("random:{}@i586", f.name), f, vec![rule.clone()], 20 * m));
                p.tasks.push(dictionary(w, format!("dictionary:{}@i586", f.name), f, vec![rule], 2 * m));
            } }
            p
        }
        "C04" => acc(&["fmod", "remainder", "remquo"], &["arch"], 200 * m, 1),
        "C05" => acc(&["frexp", "ilogb", "scalbn", "ldexp", "modf"], &["arch"], 500 * m, 1),
        "C06" => acc(&["fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "fdim"], &["arch"], 700 * m, 1),
        "C07" => acc(&["fabs", "copysign", "nextafter"], &["arch"], 700 * m, 1),
        "C08" => { let mut p = acc(&["sin", "cos", "tan", "sincos"], &["arch"], 240 * m, 1); relate(w, &mut p, &["sincos-parts"], &["sincos"]); p }
        "C09" => acc(&["asin", "acos", "atan", "atan2"], &["arch"], 240 * m, 1),
        "C10" => acc(&["exp", "exp2", "exp10", "expm1"], &["arch"], 240 * m, 1),
        "C11" => acc(&["log", "log2", "log10", "log1p"], &["arch"], 240 * m, 1),
        "C12" => acc(&["pow"], &["arch"], 3000 * m, 1),
        "C13" => acc(&["sinh", "cosh", "tanh", "asinh", "acosh", "atanh"], &["arch"], 240 * m, 1),
        "C14" => {
            let mut p = acc(&["cbrt", "hypot"], &["arch"], 400 * m, 1);
            for f in by_base("cbrt") { p.tasks.push(hard::cbrt_task(w, f, acc_rule(w, f, "arch"), w.work(400_000, 10 * m))); }
            relate(w, &mut p, &["hypot"], &["hypot"]);
            p
        }
        "C15" => acc(&["tgamma", "lgamma", "lgamma_r"], &["arch"], 180 * m, 3),
        "C16" => { let mut p = acc(&["erf", "erfc"], &["arch"], 400 * m, 1); relate(w, &mut p, &["odd"], &["erf"]); p }
        "C17" => { let mut p = acc(&["j0", "j1", "y0", "y1", "jn", "yn"], &["arch"], 90 * m, 13); relate(w, &mut p, &["bessel-parity"], &["jn", "yn"]); p }
        "C18" => special_values(w),
        "C19" => totality(w),
        "C20" => purity(w),
        "C21" => forwarding(w),
        "C22" => symmetry(w),
        "C26" => acc(&["ceil", "floor", "trunc", "round", "rint", "sqrt", "fmod", "scalbn", "copysign", "fabs", "fdim", "fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num"], &["gener"], 200 * m, 1),
        "C28" => c_interface(w),
        p => { eprintln!("no plan for {p}"); std::process::exit(3) }
    }
}

fn special_values(w: &World) -> Plan {
    let mut tasks = vec![];
    for f in FNS {
        let rule = acc_rule(w, f, "arch");
        let g = Gen::new(f, &w.dict);
        let n = w.work(400_000, 20_000_000);
        let ty = f.ty;
        tasks.push(Task { name: format!("special:{}", f.name), phase: 1, chunks: n.div_ceil(CHUNK), run: Box::new(move |_, ctx| {
            let mut r = ctx.rng.clone();
            for _ in 0..CHUNK {
                let a = special_args(&mut r, &g);
                let nan = f.sig.args().iter().enumerate().any(|(i, fl)| *fl && ty.is_nan(a[i]));
                if nan { ctx.class("cases with a NaN operand", 1); }
                if f.sig.args().iter().enumerate().any(|(i, fl)| *fl && ty.is_inf(a[i])) { ctx.class("cases with an infinite operand", 1); }
                if f.sig.args().iter().enumerate().any(|(i, fl)| *fl && ty.is_zero(a[i])) { ctx.class("cases with a zero operand", 1); }
                ctx.case(&rule, &a);
                if ctx.fails.len() >= 8 { break; }
            }
        }) });
    }
    for f in FNS {
        let spec: R = Arc::new(Spec(Acc::new(f, w.var("arch"))));
        let (n, k) = effort(w, f);
        tasks.push(guided_rule(w, format!("guided:{}", f.name), f, special_args, Arc::new(Spec(Acc::new(f, w.var("cov")))), vec![spec], n / 2, k));
    }
    Plan { tasks, rule: "Cases: tuples with at least one NaN (any sign, payload, signalling bit), infinity, signed zero or out-of-domain argument, in every position, the others general; plus domain edges and their neighbours. Non-trivial: as counted, cases whose operands are all finite and non-zero and whose result is finite and non-zero, i.e. the domain-edge cases; the classes count the NaN, infinity and zero cases.", level: "exploration", assumptions: MATH_ASM }
}
/// NaN-, infinity-, zero- and domain-biased tuples.
fn special_args(r: &mut crate::rng::Rng, g: &Gen) -> Args {
    let f = g.f;
    let ty = f.ty;
    let mut a = g.args(r);
    let fl: Vec<usize> = f.sig.args().iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
    for &i in &fl {
        if r.chance(1, 3) && fl.len() > 1 { continue; }
        let s = if r.bool() { ty.sign() } else { 0 };
        a[i] = match r.below(12) {
            0..=2 => { // NaNs of all kinds
                let m = match r.below(4) { 0 => 1u128 << r.below(ty.mb() as u64), 1 => ty.man_mask(), 2 => 1 << (ty.mb() - 1), _ => r.u128() & ty.man_mask() };
                s | ty.inf() | if m == 0 { 1 } else { m }
            }
            3 => s | ty.inf(),
            4 => s,
            5 => s | ty.one(),
            6 => s | ty.step(ty.one(), r.range(-3, 3) as i128),
            7 => s | ty.step(ty.max(), -(r.below(4) as i128)),
            8 => s | (1 + r.below(4)) as u128,
            9 => strat(r, ty, -ty.bias() - ty.mb() as i32, ty.bias()),
            10 => { // integers, halves
                let k = r.below(ty.mb() as u64 + 3); let i = (r.u64() as u128) & ((1u128 << k.min(63)) - 1); s | ty.step(int_plus(ty, i, r.below(4) as u32), if r.bool() { 0 } else { r.range(-1, 1) as i128 })
            }
            _ => { // negative or beyond one, moderate
                s | ty.abs(strat(r, ty, -3, 12))
            }
        };
    }
    g.fit(r, a)
}

fn totality(w: &World) -> Plan {
    let mut tasks = vec![];
    for f in FNS {
        let obs: R = Arc::new(Total { f, v: w.var("cov"), observed: true });
        let (n, k) = effort(w, f);
        tasks.push(guided(w, f, vec![obs.clone()], 0, n / 6, k / 2));
        let g = Gen::new(f, &w.dict);
        let n = w.work(60_000, 2_000_000);
        // observed: any bit pattern, including extreme integers where the function does not loop over them
        let rule = obs.clone();
        tasks.push(Task { name: format!("steps:{}", f.name), phase: 0, chunks: n.div_ceil(CHUNK), run: Box::new(move |_, ctx| {
            let mut r = ctx.rng.clone();
            for _ in 0..CHUNK { let a = wild(&mut r, &g); ctx.case(&rule, &a); if ctx.fails.len() >= 4 { break; } }
        }) });
        let chk: R = Arc::new(Total { f, v: w.var("checked"), observed: false });
        let g = Gen::new(f, &w.dict);
        let n = w.work((6_000_000.0 / weight(f)) as u64, (300_000_000.0 / weight(f)) as u64);
        let rule = chk.clone();
        tasks.push(Task { name: format!("checked:{}", f.name), phase: 1, chunks: n.div_ceil(CHUNK), run: Box::new(move |_, ctx| {
            let mut r = ctx.rng.clone();
            for _ in 0..CHUNK { let a = wild(&mut r, &g); ctx.case(&rule, &a); if ctx.fails.len() >= 4 { break; } }
        }) });
        tasks.push(dictionary(w, format!("dictionary:{}", f.name), f, vec![chk.clone()], 100_000));
        if f.ty.bits() <= 32 && f.sig.args().len() == 1 { tasks.push(sweep_rules(w, format!("sweep:{}", f.name), f, vec![chk.clone()], if f.ty == Ty::F16 { 1 } else if w.thorough { 5 } else { 997 }, w.seed)); }
    }
    Plan { tasks, rule: "Cases: arbitrary bit patterns and extreme integers, the structured and source-constant inputs of the other checks, strided sweeps of 32-bit functions, and inputs found by branch- and comparison-guided search, on a build with debug assertions and overflow checks; on the instrumented build every call must return within 4000000 + 1024*|order| branch events. Non-trivial: every float argument finite and non-zero, result finite and non-zero.", level: "exploration",
        assumptions: &["a panic is what the run-time checks of the debug-assertion and overflow-check build raise; undefined behaviour that no check catches is visible only as a crash", "orders of jn and yn up to about 10^5 (they loop over the order)"] }
}
fn wild(r: &mut crate::rng::Rng, g: &Gen) -> Args {
    let f = g.f;
    if r.chance(1, 2) { return g.args(r); }
    let mut a = [0u128; 3];
    for (i, fl) in f.sig.args().iter().enumerate() {
        a[i] = if *fl { match r.below(4) { 0 => r.u128() & f.ty.mask(), 1 => *r.pick(&specials(f.ty)), _ => strat(r, f.ty, -f.ty.bias() - f.ty.mb() as i32, f.ty.bias()) } }
            else { match r.below(4) { 0 => *r.pick(&[0, 1, i32::MIN, i32::MAX, -1, i32::MIN + 1, i32::MAX - 1]) as u32 as u128, 1 => r.u64() as u32 as u128, 2 => (r.u64() as u32 >> r.below(32)) as u128, _ => (((r.u64() as u32 >> r.below(32)) as i32).wrapping_neg()) as u32 as u128 } };
    }
    if f.sig == Sig::IF_F {
        // the loops run over the order: cap it, except where the argument ends the call at once
        let quick = f.ty.is_nan(a[1]) || (f.base == "jn" && (f.ty.is_zero(a[1]) || f.ty.is_inf(a[1])));
        if !quick { let lim = if r.chance(1, 256) { 100_000 } else { 2_000 }; a[0] = ((a[0] as u32 as i32) % lim) as u32 as u128; }
    }
    a
}

/// Argument tuples close to `a` in one of the ways a memo, a cached reduction or a left-over state could confuse.
fn related(r: &mut crate::rng::Rng, f: &FnInfo, a: &Args) -> Args {
    let mut b = *a;
    let ty = f.ty;
    let n = f.sig.args().len();
    let half = ty.bits() / 2;
    let lo = (1u128 << half) - 1;
    for _ in 0..1 + r.below(2) {
        let i = r.below(n as u64) as usize;
        if !f.sig.args()[i] { let v = b[i] as u32 as i32; b[i] = match r.below(4) { 0 => v.wrapping_neg(), 1 => v.wrapping_add(1), 2 => v.wrapping_sub(1), _ => !v } as u32 as u128; if f.sig == Sig::IF_F { b[i] = ((b[i] as u32 as i32) % 2000) as u32 as u128; } continue; }
        b[i] = match r.below(10) {
            0..=2 => ty.neg(b[i]),
            3 => ty.step(b[i], if r.bool() { 1 } else { -1 }),
            4 => (b[i] & !lo) | (r.u128() & lo),          // the other low half
            5 => (b[i] & lo) | (r.u128() & ty.mask() & !lo), // the other high half
            6 => (b[i] >> half | b[i] << half) & ty.mask(),  // halves exchanged
            7 => b[i] ^ ((1 << ty.mb()) << r.below(3)),      // another exponent, same significand
            8 => b[i] ^ (1 << r.below(ty.mb() as u64)),
            _ => { let j = r.below(n as u64) as usize; if f.sig.args()[j] { b.swap(i, j); } b[i] }
        };
    }
    b
}
/// The same call before and after other calls: arbitrary ones first, then related ones.
pub struct Hist { pub f: &'static FnInfo, pub v: Arc<Variant>, kin: Vec<&'static FnInfo>, pub seen: std::sync::atomic::AtomicBool }
impl Hist {
    pub fn new(f: &'static FnInfo, v: Arc<Variant>) -> Hist { Hist { f, v, kin: FNS.iter().filter(|g| g.ty == f.ty && g.sig.args() == f.sig.args()).collect(), seen: false.into() } }
    fn perturb(&self, a: &Args, k: u64) {
        let mut r = crate::rng::Rng::new(k, a[0] as u64, a[1] as u64);
        // calls of any function, half of them of the same one: they displace whatever is remembered of this call
        for _ in 0..1 + r.below(4) {
            let g = if r.bool() { self.f } else { &FNS[r.below(FNS.len() as u64) as usize] };
            let mut b = [0u128; 3];
            for (i, fl) in g.sig.args().iter().enumerate() { b[i] = if *fl { let m = if r.bool() { 20 } else { g.ty.bias() }; strat(&mut r, g.ty, -m, m) } else { r.below(20) as u128 }; }
            self.v.call(g, &b);
        }
        // calls of this function or one with the same arguments, with related operands
        for _ in 0..r.below(4) {
            let g = if r.chance(2, 3) { self.f } else { *r.pick(&self.kin) };
            let b = if r.chance(1, 4) { *a } else { related(&mut r, self.f, a) };
            self.v.call(g, &b);
        }
    }
}
impl Rule for Hist {
    fn id(&self) -> String { format!("hist:{}@{}", self.f.name, self.v.name) }
    fn f(&self) -> &'static FnInfo { self.f }
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        let r = self.v.call(self.f, a);
        st.nontrivial = plain(self.f, a, &r);
        for k in 1..3 {
            self.perturb(a, k);
            let q = self.v.call(self.f, a);
            if !same(self.f, a, &r, &q) { self.seen.store(true, std::sync::atomic::Ordering::Relaxed); return false; }
        }
        true
    }
    fn eval(&self, a: &Args) -> Option<String> {
        // once a difference has been seen, long histories too: it may come back only after very many calls
        for k in 0..if self.seen.load(std::sync::atomic::Ordering::Relaxed) { 60_000 } else { 64 } {
            let r = self.v.call(self.f, a);
            self.perturb(a, k);
            let q = self.v.call(self.f, a);
            if !same(self.f, a, &r, &q) { return Some(format!("returned {} and, after other calls, {}", show_ret(self.f, &r), show_ret(self.f, &q))); }
        }
        None
    }
}
/// The same calls made by one thread and by four at once.
pub struct Conc { pub f: &'static FnInfo, pub v: Arc<Variant>, kin: Vec<&'static FnInfo> }
impl Conc {
    pub fn new(f: &'static FnInfo, v: Arc<Variant>) -> Conc { Conc { f, v, kin: FNS.iter().filter(|g| g.ty == f.ty && g.sig.args() == f.sig.args() && g.base != "jn" && g.base != "yn").collect() } }
    fn burst(&self, a: &Args, k: u64, rounds: u64) -> Option<String> {
        let mut r = crate::rng::Rng::new(k, a[0] as u64, 0xc0c0);
        let mut calls: Vec<(&'static FnInfo, Args, Ret)> = vec![];
        for i in 0..32 {
            let g = if i < 24 || self.kin.is_empty() { self.f } else { *r.pick(&self.kin) };
            let b = match i % 4 { 0 => *a, 1 => related(&mut r, self.f, a), _ => { let mut b = *a; for (i, fl) in self.f.sig.args().iter().enumerate() { if *fl { let m = if r.bool() { 20 } else { self.f.ty.bias() }; b[i] = strat(&mut r, self.f.ty, -m, m); } } b } };
            calls.push((g, b, self.v.call(g, &b)));
        }
        // once more by this thread alone: a difference here is one of history, reported as such
        for (g, b, x) in &calls { let q = self.v.call(g, b); if !same(g, b, x, &q) { return Some(format!("{} returned {} and, repeated after other calls, {}", show_args(g, b), show_ret(g, x), show_ret(g, &q))); } }
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|s| {
            for t in 0..4u64 {
                let (calls, bad, v) = (&calls, &bad, &self.v);
                s.spawn(move || {
                    let _reg = crate::watch::thread();
                    crate::watch::enter(self, a);
                    let mut r = crate::rng::Rng::new(k, t, 0xc0c1);
                    for _ in 0..rounds {
                        for _ in 0..calls.len() {
                            let (g, b, x) = r.pick(calls);
                            let q = v.call(g, b);
                            if !same(g, b, x, &q) { *bad.lock().unwrap() = Some(format!("{} {} returned {} alone and {} with other threads calling", g.name, show_args(g, b), show_ret(g, x), show_ret(g, &q))); return; }
                        }
                    }
                });
            }
        });
        bad.into_inner().unwrap()
    }
}
impl Rule for Conc {
    fn id(&self) -> String { format!("conc:{}@{}", self.f.name, self.v.name) }
    fn f(&self) -> &'static FnInfo { self.f }
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        st.nontrivial = plain(self.f, a, &self.v.call(self.f, a));
        self.burst(a, 1, 4).is_none()
    }
    fn eval(&self, a: &Args) -> Option<String> { (0..40).find_map(|k| self.burst(a, k, 100)) }
}

fn purity(w: &World) -> Plan {
    let mut tasks = vec![];
    let vs: Vec<Arc<Variant>> = ["arch", "soft", "intr", "checked"].iter().map(|v| w.var(v)).collect();
    let slow: Vec<Arc<Variant>> = ["arch", "unopt"].iter().map(|v| w.var(v)).collect();
    for f in FNS {
        let fast: R = Arc::new(Conf { f, vs: vs.clone() });
        let all: R = Arc::new(Conf { f, vs: slow.clone() });
        let k = 1.0 / weight(f);
        tasks.push(random(w, format!("builds:{}", f.name), f, vec![fast.clone()], (w.work(2_500_000, 120_000_000) as f64 * k / w.scale) as u64));
        tasks.push(random(w, format!("optimisation:{}", f.name), f, vec![all.clone()], (w.work(300_000, 15_000_000) as f64 * k / w.scale) as u64));
        tasks.push(dictionary(w, format!("dictionary:{}", f.name), f, vec![fast.clone(), all.clone()], 60_000));
        if f.ty.bits() <= 32 && f.sig.args().len() == 1 { tasks.push(sweep_rules(w, format!("sweep:{}", f.name), f, vec![fast.clone()], if f.ty == Ty::F16 { 1 } else if w.thorough { 7 } else { 1499 }, w.seed)); }
        let (n, e) = effort(w, f);
        tasks.push(guided(w, f, vec![fast.clone()], 1, n / 4, e / 2));
        for v in ["arch", "soft"] {
            let h: R = Arc::new(Hist::new(f, w.var(v)));
            tasks.push(random(w, format!("history:{}@{v}", f.name), f, vec![h], (w.work(200_000, 8_000_000) as f64 * k / w.scale) as u64));
            let c: R = Arc::new(Conc::new(f, w.var(v)));
            let g = Gen::new(f, &w.dict);
            let n = w.work(16, 1000);
            tasks.push(Task { name: format!("concurrent:{}@{v}", f.name), phase: 2, chunks: n, run: Box::new(move |_, ctx| {
                let mut r = ctx.rng.clone();
                for _ in 0..8 { let a = g.args(&mut r); ctx.case(&c, &a); if !ctx.fails.is_empty() { break; } }
            }) });
        }
    }
    Plan { tasks, rule: "Cases: structured, source-constant and strided-sweep inputs of every public function, compared bit for bit between the arch, force-soft-floats, unstable-intrinsics, overflow-checked and unoptimised builds; and call histories: a call, one to four arbitrary calls and up to three related ones (same or kindred function; negated, swapped, neighbouring, half-equal operands), the same call again; and batches of 32 calls made by one thread, then by four at once. Non-trivial: every float argument finite and non-zero, result finite and non-zero.", level: "exploration",
        assumptions: &["builds for x86-64 only; other architectures' code paths are not compiled here", "fmin and fmax of zeros of opposite sign may return either zero; NaNs compare equal except for fabs and copysign"] }
}

fn forwarding(w: &World) -> Plan {
    let mut tasks = vec![];
    for h in 0..HELPERS.len() {
        let rule: R = Arc::new(Fwd::new(h, w.var("arch")));
        let f = rule.f();
        let n = (w.work(1_500_000, 60_000_000) as f64 / weight(f)) as u64;
        let g = Gen::new(f, &w.dict);
        let q = rule.clone();
        tasks.push(Task { name: format!("forward:{}", HELPERS[h].0), phase: 1, chunks: n.div_ceil(CHUNK), run: Box::new(move |_, ctx| {
            let mut r = ctx.rng.clone();
            for i in 0..CHUNK { let a = if i % 4 == 0 { special_args(&mut r, &g) } else { g.args(&mut r) }; ctx.case(&q, &a); if ctx.fails.len() >= 4 { break; } }
        }) });
        tasks.push(dictionary(w, format!("dictionary:{}", HELPERS[h].0), f, vec![rule.clone()], 60_000));
        let (n, k) = effort(w, f);
        tasks.push(guided_rule(w, format!("guided:{}", HELPERS[h].0), f, special_args, Arc::new(Fwd::new(h, w.var("cov"))), vec![rule.clone()], n / 4, k / 2));
    }
    Plan { tasks, rule: "Cases: structured, special and source-constant argument tuples of each of the forwarding methods; the method must return the bits of the free function of the same operation and type. Non-trivial: every float argument finite and non-zero, result finite and non-zero.", level: "exploration", assumptions: &["the table of methods is the one of the pinned commit"] }
}

fn symmetry(w: &World) -> Plan {
    let mut tasks = vec![];
    for s in sym::SYMS {
        for f in FNS.iter().filter(|f| s.on.contains(&f.base) && s.tys.contains(&f.ty)) {
            let rule: R = Arc::new(SymRule { s, f, v: w.var("arch") });
            let k = match f.base { "pow" => 0.25, "jn" | "yn" => 0.06, "fma" if f.ty == Ty::F128 => 0.4, "fmod" if f.ty == Ty::F128 => 0.05, _ => 1.0 };
            tasks.push(random(w, format!("{}:{}", s.name, f.name), f, vec![rule.clone()], (w.work(2_500_000, 200_000_000) as f64 * k / w.scale) as u64));
            tasks.push(dictionary(w, format!("dictionary:{}:{}", s.name, f.name), f, vec![rule.clone()], (100_000.0 * k) as u64));
            if f.ty.bits() <= 32 && f.sig.args().len() == 1 { tasks.push(sweep_rules(w, format!("sweep:{}:{}", s.name, f.name), f, vec![rule.clone()], if f.ty == Ty::F16 { 1 } else if w.thorough { 3 } else { 499 }, w.seed)); }
            let (n, e) = effort(w, f);
            tasks.push(guided_rule(w, format!("guided:{}:{}", s.name, f.name), f, usual, Arc::new(SymRule { s, f, v: w.var("cov") }), vec![rule.clone()], n / 4, e / 2));
        }
    }
    Plan { tasks, rule: "Cases: structured, source-constant and strided-sweep inputs; each relation is evaluated on the results of two or more calls. Non-trivial: every float argument is finite and non-zero.", level: "exploration", assumptions: &["relations are those IEEE 754 or C state exactly, or that follow from correct rounding"] }
}

fn c_interface(w: &World) -> Plan {
    let mut tasks = vec![];
    for f in FNS.iter().filter(|f| crate::gen_table::C_API.contains(&f.name)) {
        let rule: R = Arc::new(Sym { f, v: w.var("arch"), c: w.var("capi") });
        let n = (w.work(2_500_000, 100_000_000) as f64 / weight(f)) as u64;
        let g = Gen::new(f, &w.dict);
        let q = rule.clone();
        tasks.push(Task { name: format!("symbol:{}", f.name), phase: 1, chunks: n.div_ceil(CHUNK), run: Box::new(move |_, ctx| {
            let mut r = ctx.rng.clone();
            for i in 0..CHUNK { let a = if i % 4 == 0 { special_args(&mut r, &g) } else { g.args(&mut r) }; ctx.case(&q, &a); if ctx.fails.len() >= 4 { break; } }
        }) });
        tasks.push(dictionary(w, format!("dictionary:{}", f.name), f, vec![rule.clone()], 60_000));
        if f.ty.bits() <= 32 && f.sig.args().len() == 1 { tasks.push(sweep_rules(w, format!("sweep:{}", f.name), f, vec![rule.clone()], if f.ty == Ty::F16 { 1 } else if w.thorough { 7 } else { 499 }, w.seed)); }
        let (n, k) = effort(w, f);
        tasks.push(guided_rule(w, format!("guided:{}", f.name), f, special_args, Arc::new(Sym { f, v: w.var("capicov"), c: w.var("capicov") }), vec![rule.clone()], n / 2, k / 2));
    }
    Plan { tasks, rule: "Cases: structured, special, source-constant and strided-sweep argument tuples of each of the 128 symbols, called through the C calling convention and compared bit for bit (every result, including those stored through pointers) with the Rust function. Non-trivial: every float argument finite and non-zero, result finite and non-zero.", level: "exploration", assumptions: &["the list of symbols is the one of the pinned commit; each must be defined by the crate", "x86-64 System V calling convention"] }
}
