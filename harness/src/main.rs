#![feature(f16, f128)]
#![allow(clippy::all)]
mod api;
mod checks;
mod clause;
mod engine;
mod evolve;
mod rules;
mod sym;
#[path = "gen.rs"]
mod gen_table;
mod gens;
mod hard;
mod judge;
mod mine;
mod oracle;
mod watch;
mod rng;
use api::*;
use std::collections::BTreeMap;

fn survey(names: &[String], count: u64, vpath: &str) {
    let d = mine::mine("/repo/libm/src", "/verif/data/words.txt");
    let v = Variant::load("arch", vpath);
    for f in gen_table::FNS {
        if !names.is_empty() && !names.iter().any(|n| n == f.name || n == f.base) { continue; }
        let g = gens::Gen::new(f, &d);
        let t0 = std::time::Instant::now();
        let res: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8u64).map(|t| { let (g, v) = (&g, &v); s.spawn(move || {
                let mut r = rng::Rng::new(1, f.id as u64, t);
                let mut hist: BTreeMap<u128, u64> = BTreeMap::new();
                let mut errs: BTreeMap<String, (u64, String)> = BTreeMap::new();
                let mut worst = (0u128, String::new());
                for _ in 0..count / 8 {
                    let a = g.args(&mut r);
                    let act = v.call(f, &a);
                    match judge::error(f, &a, &act) {
                        Ok(e) => { *hist.entry(e.min(1000)).or_default() += 1; if e > worst.0 { worst = (e, show_args(f, &a)); } }
                        Err(m) => { let k = m.split(':').next().unwrap().to_string(); let x = errs.entry(k).or_default(); x.0 += 1; if x.0 == 1 || r.chance(1, x.0) { x.1 = format!("{} = {} {m}", show_args(f, &a), show_ret(f, &act)); } }
                    }
                }
                (hist, errs, worst)
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut hist: BTreeMap<u128, u64> = BTreeMap::new();
        let mut worst = (0u128, String::new());
        let mut errs: BTreeMap<String, (u64, Vec<String>)> = BTreeMap::new();
        for (h, e, w) in res { for (k, n) in h { *hist.entry(k).or_default() += n; } if w.0 >= worst.0 { worst = w; }
            for (k, (n, s)) in e { let x = errs.entry(k).or_default(); x.0 += n; if x.1.len() < 3 { x.1.push(s); } } }
        let bad = worst.0 > judge::tol(f) as u128 || !errs.is_empty();
        println!("{}{}: tol {} worst {} at {} hist {:?} {:.1}us/case", if bad { "** " } else { "" }, f.name, judge::tol(f), worst.0, worst.1,
            hist.iter().take(6).collect::<Vec<_>>(), t0.elapsed().as_secs_f64() * 8e6 / count as f64);
        for (k, (n, s)) in errs { println!("      {k} x{n}"); for s in s { println!("         {s}"); } }
    }
}

/// Known findings: "known property=<id> rule=<rule> args=<hex,hex,hex> # text"; "fixed:" lines are records only.
fn known(dir: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default().lines() {
        let l = l.split('#').next().unwrap().trim();
        if !l.starts_with("known ") { continue; }
        let get = |k: &str| l.split_whitespace().find_map(|t| t.strip_prefix(k)).map(String::from);
        if get("property=").as_deref() == Some(prop) { if let (Some(r), Some(a)) = (get("rule="), get("args=")) { v.push((r, a)); } }
    }
    v
}

fn load(dir: &str, prop: &str, libs: &str) -> engine::World {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let dict = mine::mine(&format!("{dir}/../repo/libm/src"), &format!("{dir}/data/words.txt"));
    let variants = checks::variants_for(prop).into_iter().filter(|v| *v != "i586" || std::path::Path::new(&format!("{libs}/liblibmv-i586.so")).exists()).map(|v| (v.to_string(), std::sync::Arc::new(Variant::load(v, &format!("{libs}/liblibmv-{v}.so"))))).collect();
    engine::World { seed, thorough, prop: prop.into(), dir: dir.into(), variants, dict, known: known(dir, prop), scale }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "survey" => survey(&args[4..], args[3].parse().unwrap(), &args[2]),
        "words" => print!("{}", mine::dump(&mine::mine("/repo/libm/src", ""))),
        "variants" => println!("{}", checks::variants_for(&args[2]).join(" ")),
        // check <prop> <verif dir> <library dir>
        "check" => {
            if let Ok(m) = std::env::var("VERIF_MISSING") {
                let path = format!("{}/replays/{}-missing.txt", args[3], args[2]);
                std::fs::write(&path, format!("property {}\nrule missing\nwhat the C interface does not define: {m}\n", args[2])).unwrap();
                println!("the C interface does not define: {m}");
                println!("VIOLATION property={} replay={path}", args[2]);
                std::process::exit(1);
            }
            let w = load(&args[3], &args[2], &args[4]);
            let p = checks::plan(&w);
            std::process::exit(engine::run(&w, p.tasks, p.rule, p.level, p.assumptions, &|id| rules::parse(&w, id)));
        }
        // replay <prop> <verif dir> <library dir> <file>
        "replay" => {
            if let Ok(m) = std::env::var("VERIF_MISSING") {
                println!("the C interface does not define: {m}\nVIOLATION property={} replay={}", args[2], args[5]);
                std::process::exit(1);
            }
            if std::fs::read_to_string(&args[5]).is_ok_and(|t| t.lines().any(|l| l == "rule missing")) { println!("every symbol is defined"); return; }
            let w = load(&args[3], &args[2], &args[4]);
            let t = std::fs::read_to_string(&args[5]).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(3) });
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
            let r = rules::parse(&w, &get("rule "));
            let Some(a) = engine::parse_args(r.f(), &get("args ")) else { eprintln!("bad replay file"); std::process::exit(3) };
            watch::install(&args[3], &w.prop);
            let _reg = watch::thread();
            watch::enter(&*r, &a);
            match r.eval(&a) {
                None => println!("{} {}: holds", r.id(), show_args(r.f(), &a)),
                Some(m) => { println!("{} {}: {m}", r.id(), show_args(r.f(), &a)); println!("VIOLATION property={} replay={}", w.prop, args[5]); std::process::exit(1) }
            }
        }
        _ => { eprintln!("usage: mathcheck check|replay|words|survey ..."); std::process::exit(3) }
    }
}
