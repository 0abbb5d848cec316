//! A small property-based testing engine: typed cases, deterministic generators, shrinking, replay files, evidence.
use crate::rng::*;
use crate::watch;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

/// One value of a case.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum V { N(u128), S(String) }
impl V {
    pub fn n(&self) -> u128 { match self { V::N(n) => *n, V::S(_) => 0 } }
    pub fn s(&self) -> &str { match self { V::S(s) => s, V::N(_) => "" } }
}
pub type Case = Vec<V>;
/// Ok(non-trivial) or what is wrong.
pub type Verdict = Result<bool, String>;

pub struct Rule {
    pub id: String,
    pub generate: Box<dyn Fn(&mut Rng) -> Case + Send + Sync>,
    pub check: Box<dyn Fn(&[V]) -> Verdict + Send + Sync>,
    /// Enumerate: (number of cases, i-th case), on top of the generated ones.
    pub all: Option<(u64, Box<dyn Fn(u64) -> Case + Send + Sync>)>,
    pub quick: u64,
    pub thorough: u64,
    /// Executions per run of the guided search.
    pub guided: u64,
    /// Cases from one stream of random numbers.
    pub chunk: u64,
}
pub fn rule(id: &str, quick: u64, thorough: u64, generate: impl Fn(&mut Rng) -> Case + Send + Sync + 'static, check: impl Fn(&[V]) -> Verdict + Send + Sync + 'static) -> Rule {
    Rule { id: id.into(), generate: Box::new(generate), check: Box::new(check), all: None, quick, thorough, guided: 20_000, chunk: 4096 }
}
impl Rule { pub fn chunk(mut self, n: u64) -> Rule { self.chunk = n; self } pub fn guided(mut self, n: u64) -> Rule { self.guided = n; self } pub fn every(mut self, n: u64, f: impl Fn(u64) -> Case + Send + Sync + 'static) -> Rule { self.all = Some((n, Box::new(f))); self } }

/// What the guided search in the instrumented build reported for a rule.
#[derive(Default, Clone)]
struct Hunt { execs: u64, corpus: u64, branchy: u64, branches: u64 }
/// Run the instrumented build; its candidate failures. None: it ended by reporting a crash or a hang itself.
fn hunt(p: &Prop, dir: &str) -> Option<(BTreeMap<String, Hunt>, Vec<(usize, Case)>)> {
    let mut h: BTreeMap<String, Hunt> = BTreeMap::new();
    let mut f = vec![];
    let Ok(bin) = std::env::var("VERIF_GUIDED") else { return Some((h, f)) };
    let o = match std::process::Command::new(&bin).args(["guided", p.id, dir, "-"]).stderr(std::process::Stdio::null()).output() { Ok(o) => o, Err(e) => { eprintln!("{bin}: {e}"); std::process::exit(3) } };
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        if o.status.code() == Some(1) && !l.contains('\t') { println!("{l}"); }
        let t: Vec<&str> = l.split('\t').collect();
        if t[0] == "guided" && t.len() == 6 { let e = h.entry(t[1].into()).or_default(); let n = |i: usize| t[i].parse::<u64>().unwrap_or(0); e.execs += n(2); e.corpus += n(3); e.branchy += n(4); e.branches = e.branches.max(n(5)); }
        if t[0] == "candidate" && t.len() == 3 { if let (Some(i), Some(c)) = (p.rules.iter().position(|r| r.id == t[1]), dec(t[2])) { f.push((i, c)); } }
    }
    match o.status.code() { Some(0) => Some((h, f)), Some(1) => None, c => { eprintln!("{bin} ended with {c:?}"); std::process::exit(3) } }
}
/// The instrumented build's side of `hunt`.
#[cfg(feature = "cov")]
fn guided(p: &Prop, dir: &str) -> i32 {
    install_watch(p, dir);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let runs = if thorough { 32 } else { 8 };
    let items: Vec<(usize, u64)> = (0..runs).flat_map(|k| (0..p.rules.len()).map(move |r| (r, k))).filter(|x| p.rules[x.0].guided > 0).collect();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| { for _ in 0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8) {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || { watch::thread(); loop {
            let k = next.fetch_add(1, Relaxed) as usize;
            if k >= items.len() { break; }
            let r = &p.rules[items[k].0];
            let t = std::time::Instant::now();
            let n = r.guided * if thorough { 10 } else { 1 };
            let g = crate::guided::evolve(r, seed, items[k].1, (n as f64 * scale) as u64);
            let mut o = format!("guided\t{}\t{}\t{}\t{}\t{}\n", r.id, g.execs, g.corpus, g.branchy, g.branches);
            for c in &g.fails { o += &format!("candidate\t{}\t{}\n", r.id, enc(c)); }
            if std::env::var("VERIF_VERBOSE").is_ok() { o += &format!("# {:.1} s {} {}\n", t.elapsed().as_secs_f64(), r.id, g.execs); }
            print!("{o}");
        } }).unwrap();
    } });
    0
}

pub struct Prop { pub id: &'static str, pub rules: Vec<Rule>, pub text: &'static str, pub assumptions: &'static [&'static str] }

pub fn judge(r: &Rule, c: &Case) -> Verdict {
    watch::enter(r, c);
    let v = judge_unwatched(r, c);
    watch::leave();
    v
}
fn install_watch(p: &Prop, dir: &str) {
    let (id, dir) = (p.id, dir.to_string());
    watch::install(move |r, c, what| {
        // addresses of the rule and the case the thread is executing
        let (r, c) = unsafe { (&*(r as *const Rule), &*(c as *const Case)) };
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let path = format!("{dir}/replays/{id}-crash.replay");
        let _ = std::fs::write(&path, format!("property {id}\nrule {}\nargs {}\n# {}\n# {what}\n# re-run: ./check {id} --replay {path}\n", r.id, enc(c), show(c).replace('\n', " ")));
        println!("{} {}: {what}", r.id, show(c));
        println!("VIOLATION property={id} replay={path}");
    });
    watch::thread();
}
fn judge_unwatched(r: &Rule, c: &Case) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| (r.check)(c))) {
        Ok(v) => v,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
/// Run `f`, None if it panics.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

fn enc(c: &[V]) -> String { c.iter().map(|v| match v { V::N(n) => format!("n{n:x}"), V::S(s) => format!("s{}", s.bytes().map(|b| format!("{b:02x}")).collect::<String>()) }).collect::<Vec<_>>().join(",") }
fn dec(s: &str) -> Option<Case> {
    s.trim().split(',').filter(|t| !t.is_empty()).map(|t| match t.split_at(1) {
        ("n", h) => u128::from_str_radix(h, 16).ok().map(V::N),
        ("s", h) => { let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect(); String::from_utf8(b?).ok().map(V::S) }
        _ => None,
    }).collect()
}
fn show(c: &[V]) -> String { c.iter().map(|v| match v { V::N(n) => format!("0x{n:x}"), V::S(s) => if s.chars().count() > 200 { format!("{:?}... ({} bytes)", s.chars().take(200).collect::<String>(), s.len()) } else { format!("{s:?}") } }).collect::<Vec<_>>().join(", ") }

fn cost(c: &[V]) -> u128 { c.iter().map(|v| match v { V::N(n) => ((128 - n.leading_zeros()) as u128) * 200 + n.count_ones() as u128, V::S(s) => s.len() as u128 * 1000 + s.bytes().map(|b| (b != b'0') as u128 + (b & 15) as u128).sum::<u128>() }).sum() }
fn shrink(r: &Rule, c: &Case) -> (Case, String) {
    let Err(mut msg) = judge(r, c) else { return (c.clone(), "failed once but not when repeated".into()) };
    let mut best = c.clone();
    let mut budget = 5000;
    let t0 = std::time::Instant::now();
    loop {
        let mut cands: Vec<Case> = vec![];
        for i in 0..best.len() {
            let mut put = |v: V| { let mut x = best.clone(); x[i] = v; cands.push(x); };
            match &best[i] {
                V::N(n) => {
                    for v in [0, 1, 2, n >> 1, n >> 8, n.saturating_sub(1)] { put(V::N(v)); }
                    for k in 0..128 { if n >> k & 1 != 0 { put(V::N(n & !(1 << k))); put(V::N(n & !((1 << k) - 1))); put(V::N(n & ((1 << k) - 1))); } }
                }
                V::S(s) => {
                    let b = s.as_bytes();
                    let mut w = b.len();
                    while w > 0 { let mut p = 0; while p + w <= b.len() { let mut t = b[..p].to_vec(); t.extend(&b[p + w..]); if let Ok(t) = String::from_utf8(t) { put(V::S(t)); } p += w.max(1); } w /= 2; }
                    for p in 0..b.len().min(400) { for ch in [b'0', b'1', b'8'] { if b[p].is_ascii_hexdigit() && b[p] != ch { let mut t = b.to_vec(); t[p] = ch; if let Ok(t) = String::from_utf8(t) { put(V::S(t)); } } } }
                }
            }
        }
        let cur = cost(&best);
        let mut cands: Vec<(u128, Case)> = cands.into_iter().map(|c| (cost(&c), c)).filter(|c| c.0 < cur).collect();
        cands.sort(); cands.dedup();
        let mut found = false;
        for (_, c) in cands {
            if budget == 0 || t0.elapsed().as_secs() > 60 { break; }
            budget -= 1;
            if let Err(m) = judge(r, &c) { best = c; msg = m; found = true; break; }
        }
        if !found { return (best, msg); }
    }
}

fn known(dir: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default().lines() {
        let l = l.split('#').next().unwrap().trim();
        if !l.starts_with("known ") { continue; }
        let get = |k: &str| l.split_whitespace().find_map(|t| t.strip_prefix(k)).map(String::from);
        if get("property=").as_deref() == Some(prop) { if let (Some(r), Some(a)) = (get("rule="), get("args=")) { v.push((r, a)); } }
    }
    v
}

#[derive(Default)]
struct Agg { evals: u64, nontrivial: u64, distinct: u64, enumerated: u64, per: BTreeMap<String, [u64; 2]>, samples: Vec<(u64, String)> }

/// Quick runs start no further work after this many seconds.
const SOFT_LIMIT: u64 = 600;
pub fn check(p: &Prop, dir: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    install_watch(p, dir);
    let kn = known(dir, p.id);
    let is_known = |r: &str, c: &[V]| kn.iter().any(|(a, b)| a == r && *b == enc(c));
    let Some((hunted, cands)) = hunt(p, dir) else { return 1 };
    let bits = 1u64 << 31;
    let bm: Vec<AtomicU64> = (0..bits / 64).map(|_| AtomicU64::new(0)).collect();
    let mut items: Vec<(usize, bool, u64, u64)> = vec![];
    for (i, r) in p.rules.iter().enumerate() {
        if let Some((n, _)) = r.all { let mut a = 0; while a < n { let b = (a + (1 << 15)).min(n); items.push((i, true, a, b)); a = b; } }
        let n = ((if thorough { r.thorough } else { r.quick }) as f64 * scale) as u64;
        for c in 0..n.div_ceil(r.chunk) { items.push((i, false, c, 0)); }
    }
    items.sort_by_key(|x| x.2);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Agg::default());
    let fails: Mutex<Vec<(usize, Case)>> = Mutex::new(vec![]);
    // what the guided search found counts only if this build agrees
    for (i, c) in cands { if judge(&p.rules[i], &c).is_err() { if !is_known(&p.rules[i].id, &c) { stop.store(true, Relaxed); } fails.lock().unwrap().push((i, c)); } }
    let nt = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    std::thread::scope(|s| {
        for _ in 0..nt {
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || { watch::thread(); loop {
                if stop.load(Relaxed) { break; }
                if !thorough && t0.elapsed().as_secs() > SOFT_LIMIT { break; }
                let k = next.fetch_add(1, Relaxed) as usize;
                if k >= items.len() { break; }
                let (ri, en, a, b) = items[k];
                let r = &p.rules[ri];
                let mut rng = Rng::new(seed, hash_str(&r.id), a);
                let mut g = Agg::default();
                let n = if en { b - a } else { r.chunk };
                for i in 0..n {
                    if i % 64 == 63 && !thorough && t0.elapsed().as_secs() > SOFT_LIMIT { break; }
                    let c = if en { (r.all.as_ref().unwrap().1)(a + i) } else { (r.generate)(&mut rng) };
                    g.evals += 1;
                    g.enumerated += en as u64;
                    match judge(r, &c) {
                        Ok(false) => {}
                        Ok(true) => {
                            g.nontrivial += 1;
                            let mut h = hash_str(&r.id);
                            for v in &c { h = match v { V::N(n) => mix(mix(h, *n as u64), (*n >> 64) as u64), V::S(s) => mix(h, hash_str(s)) }; }
                            let w = &bm[(h & (bits - 1)) as usize / 64];
                            let bit = 1 << (h & 63);
                            if w.load(Relaxed) & bit == 0 && w.fetch_or(bit, Relaxed) & bit == 0 { g.distinct += 1; }
                            if i == 7.min(r.chunk / 2) { g.samples.push((mix(h, 5), format!("{} {}", r.id, show(&c)))); }
                        }
                        Err(_) => { let mut f = fails.lock().unwrap(); if !is_known(&r.id, &c) { stop.store(true, Relaxed); } f.push((ri, c)); if f.len() > 8 { break; } }
                    }
                }
                let mut t = total.lock().unwrap();
                t.evals += g.evals; t.nontrivial += g.nontrivial; t.distinct += g.distinct; t.enumerated += g.enumerated;
                let e = t.per.entry(r.id.clone()).or_default();
                e[0] += g.evals; e[1] += g.distinct;
                t.samples.extend(g.samples);
                t.samples.sort(); t.samples.truncate(24);
            } }).unwrap();
        }
    });
    let t = total.into_inner().unwrap();
    let mut viol = 0;
    let mut printed: Vec<usize> = vec![];
    for (id, a) in &kn {
        let (Some(r), Some(c)) = (p.rules.iter().find(|r| r.id == *id), dec(a)) else { eprintln!("bad known finding {id} {a}"); return 3 };
        if let Err(m) = judge(r, &c) { println!("KNOWN-FINDING: property={} {id} {}: {m}", p.id, show(&c)); }
    }
    let mut fs = fails.into_inner().unwrap();
    fs.sort();
    for (ri, c) in fs {
        let r = &p.rules[ri];
        if is_known(&r.id, &c) { continue; }
        viol += 1;
        if printed.contains(&ri) || printed.len() >= 5 { continue; }
        printed.push(ri);
        let (m, msg) = shrink(r, &c);
        let m = if is_known(&r.id, &m) { c } else { m };
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let path = format!("{dir}/replays/{}-{:08x}.replay", p.id, mix(hash_str(&r.id), hash_str(&enc(&m))) as u32);
        let _ = std::fs::write(&path, format!("property {}\nrule {}\nargs {}\n# {}\n# {}\n# re-run: ./check {} --replay {path}\n", p.id, r.id, enc(&m), show(&m).replace('\n', " "), msg.replace('\n', " "), p.id));
        println!("{} {}: {msg}", r.id, show(&m));
        println!("VIOLATION property={} replay={path}", p.id);
    }
    let js = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 || (c as u32) > 126 => o += &format!("\\u{:04x}", c as u32 & 0xffff), c => o.push(c) } } o + "\"" };
    let per: Vec<String> = t.per.iter().map(|(k, v)| format!("{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}}}", js(k), v[0], v[1])).collect();
    let hun: Vec<String> = hunted.iter().map(|(k, h)| format!("{}: {{\"executions\": {}, \"corpus\": {}, \"with_a_new_branch\": {}, \"branches\": {}}}", js(k), h.execs, h.corpus, h.branchy, h.branches)).collect();
    let smp: Vec<String> = t.samples.iter().map(|(_, s)| js(s)).collect();
    let asm: Vec<String> = p.assumptions.iter().map(|s| js(s)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"nontrivial_evaluations\": {}, \"enumerated\": {},\n  \"rule\": {},\n  \"per_task\": {{{}}},\n  \"guided_search\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2}, \"violations\": {viol}\n}}\n",
        js(p.id), js(if thorough { "thorough" } else { "quick" }), t.evals, t.distinct, t.nontrivial, t.enumerated, js(p.text), per.join(", "), hun.join(", "), smp.join(", "), asm.join(", "));
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if std::fs::write(format!("{dir}/evidence/{}.json", p.id), ev).is_err() { eprintln!("cannot write evidence"); return 3; }
    let guided: u64 = hunted.iter().map(|(_, h)| h.execs).sum();
    println!("{}: {} cases and {guided} guided executions, {} distinct non-trivial, {} violating, {wall:.1} s", p.id, t.evals, t.distinct, viol);
    if viol > 0 { 1 } else { 0 }
}

pub fn replay(p: &Prop, dir: &str, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(3) });
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
    let (id, args) = (get("rule "), get("args "));
    let (Some(r), Some(c)) = (p.rules.iter().find(|r| r.id == id), dec(&args)) else { eprintln!("bad replay file"); return 3 };
    install_watch(p, dir);
    match judge(r, &c) {
        Ok(_) => { println!("{id} {}: holds", show(&c)); 0 }
        Err(m) => { println!("{id} {}: {m}", show(&c)); println!("VIOLATION property={} replay={file}", p.id); 1 }
    }
}

/// `check <id> <dir> <libs>` or `replay <id> <dir> <libs> <file>`.
pub fn main_with(prop: impl Fn(&str) -> Option<Prop>) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: check|replay <id> <dir> <libs> [file]"); std::process::exit(3) }
    let Some(p) = prop(&a[2]) else { eprintln!("no property {}", a[2]); std::process::exit(3) };
    #[cfg(feature = "cov")]
    if a[1] == "guided" { std::process::exit(guided(&p, &a[3])) }
    std::process::exit(if a[1] == "replay" { replay(&p, &a[3], &a[5]) } else { check(&p, &a[3]) })
}
