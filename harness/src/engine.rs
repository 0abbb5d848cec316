//! Runs generated cases against rules, counts them, shrinks failures, writes replay files and evidence.
use crate::api::*;
use crate::mine::Dict;
use crate::rng::*;
use crate::watch;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

/// One executable statement about calls with a given argument tuple.
pub trait Rule: Send + Sync {
    fn id(&self) -> String;
    fn f(&self) -> &'static FnInfo;
    /// Quick verdict; true = certainly holds. Sets `st.nontrivial`.
    fn quick(&self, a: &Args, st: &mut Seen) -> bool;
    /// Full verdict; None = holds.
    fn eval(&self, a: &Args) -> Option<String>;
}
#[derive(Default)]
pub struct Seen { pub nontrivial: bool, pub second_opinion: bool }

pub struct World { pub seed: u64, pub thorough: bool, pub prop: String, pub dir: String, pub variants: BTreeMap<String, Arc<Variant>>, pub dict: Dict, pub known: Vec<(String, String)>, pub scale: f64 }
impl World {
    pub fn var(&self, n: &str) -> Arc<Variant> { self.variants.get(n).unwrap_or_else(|| { eprintln!("variant {n} was not loaded"); std::process::exit(3) }).clone() }
    /// Work amount for this tier.
    pub fn work(&self, quick: u64, thorough: u64) -> u64 { ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64 }
}

pub struct Bitmap(Vec<AtomicU64>);
impl Bitmap {
    pub fn new(bits: u32) -> Bitmap { Bitmap((0..1usize << (bits - 6)).map(|_| AtomicU64::new(0)).collect()) }
    #[inline]
    fn insert(&self, h: u64) -> bool {
        let n = (self.0.len() as u64) * 64;
        let i = h & (n - 1);
        let w = &self.0[(i >> 6) as usize];
        let b = 1u64 << (i & 63);
        w.load(Relaxed) & b == 0 && w.fetch_or(b, Relaxed) & b == 0
    }
}

#[derive(Default, Clone)]
pub struct Agg { pub evals: u64, pub nontrivial: u64, pub distinct: u64, pub reference: u64, pub swept: u64, pub per: BTreeMap<String, [u64; 2]>, pub classes: BTreeMap<&'static str, u64>, pub samples: Vec<(u64, String)> }
impl Agg {
    fn merge(&mut self, o: Agg) {
        self.evals += o.evals; self.nontrivial += o.nontrivial; self.distinct += o.distinct; self.reference += o.reference; self.swept += o.swept;
        for (k, v) in o.per { let e = self.per.entry(k).or_default(); e[0] += v[0]; e[1] += v[1]; }
        for (k, v) in o.classes { *self.classes.entry(k).or_default() += v; }
        self.samples.extend(o.samples);
        self.samples.sort();
        self.samples.truncate(24);
    }
}

pub struct Ctx<'a> { pub w: &'a World, pub rng: Rng, pub agg: Agg, pub fails: Vec<(Arc<dyn Rule>, Args)>, bm: &'a Bitmap, n: u64 }
impl Ctx<'_> {
    #[inline]
    pub fn case(&mut self, rule: &Arc<dyn Rule>, a: &Args) -> bool {
        let mut s = Seen::default();
        watch::enter(&**rule, a);
        let mut ok = rule.quick(a, &mut s);
        self.n += 1;
        self.agg.evals += 1;
        // a fixed share of the quickly accepted cases gets the full verdict as well
        if !ok || s.second_opinion || self.n & 1023 == 0 {
            self.agg.reference += 1;
            ok = match rule.eval(a) { None => true, Some(_) => { if self.fails.len() < 16 { self.fails.push((rule.clone(), *a)); } false } };
        }
        if s.nontrivial {
            self.agg.nontrivial += 1;
            let f = rule.f();
            let mut h = mix(f.id as u64, 77);
            for (i, _) in f.sig.args().iter().enumerate() { h = mix(h, a[i] as u64); if f.ty == Ty::F128 { h = mix(h, (a[i] >> 64) as u64); } }
            if self.bm.insert(h) { self.agg.distinct += 1; }
            if self.n & 0x3fff == 5 || self.agg.samples.is_empty() { let h2 = mix(h, 99); self.sample(h2, rule, a); }
        }
        watch::leave();
        ok
    }
    fn sample(&mut self, key: u64, rule: &Arc<dyn Rule>, a: &Args) {
        if self.agg.samples.len() >= 6 && self.agg.samples.iter().all(|(k, _)| *k <= key) { return; }
        let s = format!("{} {}", rule.id(), show_args(rule.f(), a));
        self.agg.samples.push((key, s));
        self.agg.samples.sort();
        self.agg.samples.truncate(6);
    }
    pub fn class(&mut self, c: &'static str, n: u64) { *self.agg.classes.entry(c).or_default() += n; }
    /// Account for a native sweep: `count` distinct cases of which `nt` were non-trivial; `suspects` get the full verdict.
    pub fn swept(&mut self, rule: &Arc<dyn Rule>, count: u64, nt: u64, suspects: &[u32]) {
        self.agg.evals += count; self.agg.nontrivial += nt; self.agg.distinct += nt; self.agg.swept += count;
        for x in suspects {
            self.agg.reference += 1;
            let a = [*x as u128, 0, 0];
            watch::enter(&**rule, &a);
            if rule.eval(&a).is_some() && self.fails.len() < 16 { self.fails.push((rule.clone(), a)); }
        }
        watch::leave();
    }
}

/// Quick runs start no further work after this many seconds.
const SOFT_LIMIT: u64 = 600;
pub struct Task { pub name: String, pub chunks: u64, pub phase: u32, pub run: Box<dyn Fn(u64, &mut Ctx) + Send + Sync> }

/// Result of a whole check.
pub fn run(w: &World, tasks: Vec<Task>, rule_text: &str, level: &str, assumptions: &[&str], parse: &dyn Fn(&str) -> Arc<dyn Rule>) -> i32 {
    let t0 = std::time::Instant::now();
    // development aid: run only the tasks whose name contains this
    let tasks: Vec<Task> = match std::env::var("VERIF_ONLY") { Ok(s) => tasks.into_iter().filter(|t| t.name.contains(&s)).collect(), Err(_) => tasks };
    watch::install(&w.dir, &w.prop);
    let _reg = watch::thread();
    let bm = Bitmap::new(if w.thorough { 33 } else { 31 });
    let total = Mutex::new(Agg::default());
    let fails: Mutex<Vec<(Arc<dyn Rule>, Args)>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let cut = AtomicU64::new(0);
    let mut phases: Vec<u32> = tasks.iter().map(|t| t.phase).collect();
    phases.sort(); phases.dedup();
    let verbose = std::env::var("VERIF_VERBOSE").is_ok();
    let times: Mutex<BTreeMap<String, f64>> = Mutex::new(BTreeMap::new());
    for ph in phases {
        if stop.load(Relaxed) { break; }
        let mut items: Vec<(usize, u64)> = vec![];
        let ts: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].phase == ph).collect();
        let maxc = ts.iter().map(|i| tasks[*i].chunks).max().unwrap_or(0);
        for c in 0..maxc { for &i in &ts { if c < tasks[i].chunks { items.push((i, c)); } } }
        let next = AtomicU64::new(0);
        let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                    let _reg = watch::thread();
                    loop {
                        if stop.load(Relaxed) { break; }
                        if !w.thorough && t0.elapsed().as_secs() > SOFT_LIMIT { cut.fetch_add(1, Relaxed); break; }
                        let k = next.fetch_add(1, Relaxed) as usize;
                        if k >= items.len() { break; }
                        let (ti, c) = items[k];
                        let t = &tasks[ti];
                        let tt = std::time::Instant::now();
                        let mut ctx = Ctx { w, rng: Rng::new(w.seed, hash_str(&t.name), c), agg: Agg::default(), fails: vec![], bm: &bm, n: 0 };
                        (t.run)(c, &mut ctx);
                        if take_panics() > 0 && ctx.fails.is_empty() { ctx.class("panicking calls", 1); }
                        let e = ctx.agg.per.entry(t.name.clone()).or_default();
                        e[0] += ctx.agg.evals; e[1] += ctx.agg.distinct;
                        if verbose { *times.lock().unwrap().entry(t.name.clone()).or_default() += tt.elapsed().as_secs_f64(); }
                        if !ctx.fails.is_empty() {
                            let mut l = fails.lock().unwrap();
                            for f in ctx.fails { if !known(w, &f.0.id(), &f.1) { stop.store(true, Relaxed); } l.push(f); }
                        }
                        total.lock().unwrap().merge(ctx.agg);
                    }
                }).unwrap();
            }
        });
    }
    let mut agg = total.into_inner().unwrap();
    if cut.load(Relaxed) > 0 { agg.classes.insert("stopped early: out of time", 1); }
    if verbose { for (k, v) in times.into_inner().unwrap() { eprintln!("{v:8.2} cpu-s {:>12} evals {k}", agg.per.get(&k).map(|e| e[0]).unwrap_or(0)); } }
    // judge the failures
    let mut viol = 0;
    let mut printed: Vec<String> = vec![];
    let mut fs = fails.into_inner().unwrap();
    fs.sort_by_key(|(r, a)| (r.id(), *a));
    // the findings listed as known, re-evaluated each run
    for (id, args) in &w.known {
        let r = parse(id);
        let Some(a) = parse_args(r.f(), args) else { eprintln!("bad known finding {id} {args}"); return 3 };
        if let Some(m) = r.eval(&a) { println!("KNOWN-FINDING: property={} {} {}: {m}", w.prop, id, show_args(r.f(), &a)); }
    }
    for (r, a) in fs {
        let id = r.id();
        if known(w, &id, &a) { continue; }
        viol += 1;
        if printed.contains(&id) || printed.len() >= 5 { continue; }
        printed.push(id.clone());
        let (m, msg) = shrink(&*r, &a);
        let m = if known(w, &id, &m) { a } else { m };
        let path = replay_file(w, &id, r.f(), &m, &msg);
        println!("{} {}: {msg}", id, show_args(r.f(), &m));
        println!("VIOLATION property={} replay={path}", w.prop);
    }
    let wall = t0.elapsed().as_secs_f64();
    let js = |s: &str| format!("{s:?}").replace("\\'", "'");
    let per: Vec<String> = agg.per.iter().map(|(k, v)| format!("{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}}}", js(k), v[0], v[1])).collect();
    let cls: Vec<String> = agg.classes.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    let smp: Vec<String> = agg.samples.iter().map(|(_, s)| js(s)).collect();
    let asm: Vec<String> = assumptions.iter().map(|s| js(s)).collect();
    let vars: Vec<String> = w.variants.keys().map(|s| js(s)).collect();
    let ev = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"nontrivial_evaluations\": {}, \"full_verdicts\": {}, \"from_exhaustive_or_strided_sweeps\": {},\n  \"rule\": {},\n  \"builds\": [{}],\n  \"per_task\": {{{}}},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(&w.prop), js(if w.thorough { "thorough" } else { "quick" }), w.seed, js(level), agg.evals, agg.distinct, agg.nontrivial, agg.reference, agg.swept, js(rule_text), vars.join(", "), per.join(", "), cls.join(", "), smp.join(", "), asm.join(", "), wall, viol);
    let _ = std::fs::create_dir_all(format!("{}/evidence", w.dir));
    if std::fs::write(format!("{}/evidence/{}.json", w.dir, w.prop), ev).is_err() { eprintln!("cannot write evidence"); return 3; }
    println!("{}: {} cases, {} distinct non-trivial, {} full verdicts, {} violating, {wall:.1} s", w.prop, agg.evals, agg.distinct, agg.reference, viol);
    if viol > 0 { 1 } else { 0 }
}

fn known(w: &World, id: &str, a: &Args) -> bool {
    if w.known.is_empty() { return false; }
    w.known.iter().any(|(i, s)| i == id && *s == fmt_args_raw(a))
}
pub fn fmt_args_raw(a: &Args) -> String { format!("{:x},{:x},{:x}", a[0], a[1], a[2]) }
pub fn parse_args(_f: &FnInfo, s: &str) -> Option<Args> {
    let v: Vec<u128> = s.split(',').map(|x| u128::from_str_radix(x.trim(), 16)).collect::<Result<_, _>>().ok()?;
    (v.len() == 3).then(|| [v[0], v[1], v[2]])
}

fn replay_file(w: &World, id: &str, f: &FnInfo, a: &Args, msg: &str) -> String {
    let dir = format!("{}/replays", w.dir);
    let _ = std::fs::create_dir_all(&dir);
    let h = mix(hash_str(id), hash_str(&fmt_args_raw(a)));
    let p = format!("{dir}/{}-{:08x}.replay", w.prop, h as u32);
    let _ = std::fs::write(&p, format!("property {}\nrule {id}\nargs {}\n# {}\n# {msg}\n# re-run: ./check {} --replay {p}\n", w.prop, fmt_args_raw(a), show_args(f, a), w.prop));
    p
}

/// Complexity of a tuple; smaller is simpler.
fn cost(f: &FnInfo, a: &Args) -> u64 {
    let mut c = 0u64;
    for (i, fl) in f.sig.args().iter().enumerate() {
        if *fl {
            let ty = f.ty;
            let b = ty.abs(a[i]);
            c += (ty.is_neg(a[i])) as u64;
            if b == 0 || b == ty.inf() { c += 3; continue; }
            if ty.is_nan(b) { c += 4 + (b != ty.nan()) as u64; continue; }
            let m = b & ty.man_mask();
            let used = if m == 0 { 0 } else { ty.mb() - m.trailing_zeros() };
            c += 8 + 8 * used as u64 + m.count_ones() as u64 + 4 * ((ty.ef(b) - ty.bias()).unsigned_abs() as u64).ilog2_or0() + ((ty.ef(b) - ty.bias()).unsigned_abs() as u64);
        } else { c += (a[i] as u32 as i32).unsigned_abs() as u64 * 2 + ((a[i] as u32 as i32) < 0) as u64; }
    }
    c
}
trait Log0 { fn ilog2_or0(self) -> u64; }
impl Log0 for u64 { fn ilog2_or0(self) -> u64 { if self == 0 { 0 } else { self.ilog2() as u64 } } }

fn shrink(r: &dyn Rule, a: &Args) -> (Args, String) {
    let f = r.f();
    let eval = |a: &Args| { watch::enter(r, a); let v = r.eval(a); watch::leave(); v };
    let Some(mut msg) = eval(a) else { return (*a, "failed during the run but not when repeated (result depends on history)".into()) };
    let mut best = *a;
    let mut budget = 4000;
    let t0 = std::time::Instant::now();
    loop {
        let mut cands: Vec<Args> = vec![];
        for (i, fl) in f.sig.args().iter().enumerate() {
            let mut put = |v: u128| { let mut c = best; c[i] = v; cands.push(c); };
            if *fl {
                let ty = f.ty;
                let b = best[i];
                put(ty.abs(b));
                for v in [0, ty.one(), ty.from_f64(2.0), ty.from_f64(0.5), ty.from_f64(3.0), ty.inf(), ty.nan()] { put(v); put(ty.neg(v)); }
                for k in (0..=ty.mb()).rev() { let m = (1u128 << k) - 1; put(b & !m); put((b & !m).wrapping_add(m + 1) & ty.mask()); }
                let m = b & ty.man_mask();
                let hi = b & !ty.man_mask();
                for k in 0..ty.mb() { if m >> k & 1 != 0 { put(hi | (m & !(1 << k))); } }
                let s = b & ty.sign();
                let e = ty.ef(b) as i64;
                let bias = ty.bias() as i64;
                for d in [0i64, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096] {
                    let ne = if e > bias { (bias + d).min(e) } else { (bias - d).max(e) };
                    if ne >= 0 { put(s | (ne as u128) << ty.mb() | m); }
                    let ne = if e > bias { e - d.max(1) } else { e + d.max(1) };
                    if ne >= 0 && ne <= (ty.inf() >> ty.mb()) as i64 { put(s | (ne as u128) << ty.mb() | m); }
                }
            } else {
                let n = best[i] as u32 as i32;
                for v in [0, 1, -1, 2, n / 2, n / 4 * 3, n.saturating_sub(n.signum()), n.wrapping_neg()] { put(v as u32 as u128); }
            }
        }
        let cur = cost(f, &best);
        let mut cands: Vec<(u64, Args)> = cands.into_iter().map(|c| (cost(f, &c), c)).filter(|c| c.0 < cur).collect();
        cands.sort(); cands.dedup();
        let mut found = false;
        for (_, c) in cands {
            if budget == 0 || t0.elapsed().as_secs() > 60 { break; }
            budget -= 1;
            if let Some(m) = eval(&c) { best = c; msg = m; found = true; break; }
        }
        if !found { return (best, msg); }
    }
}
