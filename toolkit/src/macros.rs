//! The macros that go over the operations: generated invocations are compiled and run, and what the callback was given is
//! compared with what the table of functions says it must be. The enums of names against the same table.
use crate::api::{FnInfo, by_name};
use crate::eng::*;
use crate::eval::{SIGXCPU, limited};
use crate::ops;
use crate::rng::*;
use libm_test::op::{Identifier, MathOpInfo};
use std::fmt::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::LazyLock;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const TYPES: [&str; 7] = ["FTy", "CFn", "CArgs", "CRet", "RustFn", "RustArgs", "RustRet"];
static NAMES: LazyLock<Vec<&str>> = LazyLock::new(|| { let mut v: Vec<&str> = ops::all().iter().map(|o| o.name).collect(); v.sort(); v });
const METAS: [&str; 6] = ["inline", "doc = \"a b\"", "cfg(all())", "cfg(feature = \"none\")", "allow(dead_code, unused)", "must_use = \"x, y\""];
/// Expressions with the magic names, and what they evaluate to for a function and its base name. None: to be refused.
fn template(c: char, n: &str, b: &str) -> Option<(&'static str, Option<String>)> {
    Some(match c {
        '0' => ("7", Some("7".into())),
        '1' => ("names::MACRO_FN_NAME()", Some(format!("{n:?}"))),
        '2' => ("names::MACRO_FN_NAME_NORMALIZED()", Some(format!("{b:?}"))),
        '3' => ("[names::MACRO_FN_NAME(), \"x\", names::MACRO_FN_NAME_NORMALIZED()]", Some(format!("{:?}", [n, "x", b]))),
        '4' => ("X.MACRO_FN_NAME_NORMALIZED(2)", Some(format!("\"{b}2\""))),
        '5' => ("{ let MACRO_FN_NAME = names::MACRO_FN_NAME; MACRO_FN_NAME() }", Some(format!("{n:?}"))),
        '6' => ("(|MACRO_FN_NAME: &'static str| MACRO_FN_NAME)(names::MACRO_FN_NAME_NORMALIZED())", Some(format!("{b:?}"))),
        '7' => ("if names::MACRO_FN_NAME() == names::MACRO_FN_NAME_NORMALIZED() { 1 } else { 2 }", Some(if n == b { "1" } else { "2" }.into())),
        '8' => ("match names::MACRO_FN_NAME() { \"sinf\" => Some(names::MACRO_FN_NAME), _ => None }.map(|f| f())", Some(format!("{:?}", if n == "sinf" { Some(n) } else { None }))),
        '9' => ("(names::MACRO_FN_NAME(),)", Some(format!("{:?}", (n,)))),
        'a' => ("\"MACRO_FN_NAME\"", Some("\"MACRO_FN_NAME\"".into())),
        'd' => ("names::macro_fn_name()", Some("\"lower\"".into())),
        'b' => ("names::MACRO_FN_NAMES()", None),
        'c' => ("MACRO_OTHER", None),
        _ => return None,
    })
}
fn ty(name: &str, f: &FnInfo) -> String {
    let t = match f.ty.bits() { 16 => "f16", 32 => "f32", 64 => "f64", _ => "f128" };
    let pick = |b: &bool| if *b { t } else { "i32" }.to_string();
    let args: Vec<String> = f.sig.args().iter().map(pick).collect();
    let rets: Vec<String> = f.sig.rets().iter().map(pick).collect();
    let tuple = |v: &[String]| if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) };
    let one = |v: &[String]| if v.len() == 1 { v[0].clone() } else { tuple(v) };
    let func = |a: &[String], r: &[String]| { let r = one(r); format!("fn({}){}", a.join(", "), if r == "()" { String::new() } else { format!(" -> {r}") }) };
    let (mut ca, mut cr) = (args.clone(), rets.clone());
    if f.base == "sincos" { ca.extend(cr.drain(..).map(|r| format!("&mut {r}"))); } else { ca.extend(cr.drain(1..).map(|r| format!("&mut {r}"))); }
    match name { "FTy" => t.into(), "CFn" => func(&ca, &cr), "CArgs" => tuple(&ca), "CRet" => one(&cr), "RustFn" => func(&args, &rets), "RustArgs" => tuple(&args), _ => one(&rets) }
}
fn word(s: &str) -> bool { !s.is_empty() && s != "_" && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !s.as_bytes()[0].is_ascii_digit() && !["as", "if", "in", "fn", "do", "true", "false", "match", "mod", "self", "super", "crate", "let", "for", "gen", "try", "dyn", "mut", "ref", "pub", "use", "box", "impl", "enum", "else", "loop", "move", "type", "yield", "abstract", "become", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "async", "await", "break", "const", "continue", "extern", "return", "static", "struct", "trait", "unsafe", "where", "while", "Self"].contains(&s) && !s.starts_with("MACRO") }
fn words(s: &str) -> Option<Vec<&str>> { let v: Vec<&str> = s.split(' ').filter(|w| !w.is_empty() && *w != "-").collect(); v.iter().all(|w| word(w)).then_some(v) }

// flags of a case, each but the first something to be refused
const COMMA: u128 = 1;
const SPOILS: [u128; 8] = [2, 4, 8, 16, 32, 64, 128, 256];
const GUARD: u128 = 2; const OTHER: u128 = 4; const FIELD: u128 = 8; const NOCALL: u128 = 16; const TWICE: u128 = 32; const ARMATTR: u128 = 64; const NOMATCH: u128 = 128; const FNATTR: u128 = 256;

struct Model { source: String, good: bool, want: Vec<String> }
/// None: not a case.
fn model(c: &[V]) -> Option<Model> {
    let flags = c[0].n();
    let [skip, only, emit, attrs, extra, fnx] = [1, 2, 3, 4, 5, 6].map(|i| c[i].s());
    let mut good = flags & !COMMA & 511 == 0;
    let mut fields: Vec<String> = vec![];
    let known = |v: &[&str]| v.iter().all(|n| NAMES.contains(n));
    let list = |v: &[&str]| format!("[{}]", v.join(", "));
    let (vs, vo) = (words(skip)?, words(only)?);
    if !skip.is_empty() { fields.push(format!("skip: {}", list(&vs))); good &= known(&vs); }
    if !only.is_empty() { fields.push(format!("only: {}", list(&vo))); good &= known(&vo) && vs.is_empty(); }
    let bracket = emit.contains(['[', ']', ' ', '-']);
    let bare = emit.replace(['[', ']'], "");
    let ve = words(&bare)?;
    if !emit.is_empty() { if !bracket && ve.len() != 1 { return None; } fields.push(format!("emit_types: {}", if bracket { list(&ve) } else { ve[0].into() })); }
    for (i, t) in ve.iter().enumerate() { if ve[..i].contains(t) { return None; } good &= TYPES.contains(t) || (*t == "all" && ve.len() == 1); }
    let types: Vec<&str> = if ve == ["all"] { TYPES.to_vec() } else { ve };
    let mut groups: Vec<(Vec<&str>, Vec<&str>)> = vec![];
    if !attrs.is_empty() {
        for g in attrs.split(';').filter(|g| *g != "-") {
            let (m, n) = g.split_once(':')?;
            let n = words(n)?;
            good &= known(&n);
            groups.push((m.bytes().filter_map(|b| METAS.get(b.wrapping_sub(b'0') as usize).copied()).collect(), n));
        }
        fields.push(format!("attributes: [{}]", groups.iter().map(|(m, n)| format!("{} {}", m.iter().map(|m| format!("#[{m}]")).collect::<Vec<_>>().join(" "), list(n))).collect::<Vec<_>>().join(", ")));
    }
    let todo: Vec<&str> = NAMES.iter().copied().filter(|n| (only.is_empty() || vo.contains(n)) && !vs.contains(n)).collect();
    let ex = if extra.is_empty() { None } else { Some(extra.chars().next()?) };
    if let Some(t) = ex { let s = template(t, "", "")?.0; fields.push(format!("extra: {s}")); if flags & TWICE != 0 { fields.push(format!("extra: {s}")); } } else if flags & TWICE != 0 { return None; }
    let mut arms: Vec<(Vec<&str>, char)> = vec![];
    if !fnx.is_empty() {
        let mut seen: Vec<&str> = vec![];
        for (i, a) in fnx.split(';').enumerate() {
            let (n, t) = a.split_once('=')?;
            let mut t = t.chars();
            let (n, t) = (if n == "_" { vec!["_"] } else { words(n)? }, t.next()?);
            template(t, "", "")?;
            if n.is_empty() { return None; }
            for n in &n { good &= !seen.contains(n) && (*n == "_" || NAMES.contains(n)); seen.push(n); }
            arms.push((n, t));
            let _ = i;
        }
        good &= seen.contains(&"_") || todo.iter().all(|n| seen.contains(n));
        let arm = |(i, (n, t)): (usize, &(Vec<&str>, char))| format!("{}{}{} => {},", if i == 0 && flags & ARMATTR != 0 { "#[inline] " } else { "" }, n.join(" | "), if i == 0 && flags & GUARD != 0 { " if true" } else { "" }, template(*t, "", "").unwrap().0);
        let text: String = arms.iter().enumerate().map(arm).collect::<Vec<_>>().join("\n");
        fields.push(if flags & NOMATCH != 0 { "fn_extra: [1]".into() } else { format!("fn_extra: {}match {} {{ {text} }}", if flags & FNATTR != 0 { "#[inline] " } else { "" }, if flags & OTHER != 0 { "MACRO_FN_NAME_NORMALIZED" } else { "MACRO_FN_NAME" }) });
    } else if flags & (GUARD | OTHER | ARMATTR | NOMATCH | FNATTR) != 0 { return None; }
    if flags & FIELD != 0 { fields.push("skips: []".into()); }
    if flags & NOCALL == 0 { fields.push("callback: cb".into()); }
    // any order
    let mut o = Rng::new(flags as u64 >> 9, 1, 1);
    for i in (1..fields.len()).rev() { fields.swap(i, o.below(i as u64 + 1) as usize); }

    let mut want = vec![];
    for n in &todo {
        let f = by_name(n);
        let mut l = n.to_string();
        for t in &types { write!(l, "|{t}: {}", ty(t, f)).unwrap(); }
        let mut m: Vec<String> = groups.iter().filter(|g| g.1.contains(n)).flat_map(|g| g.0.iter().map(|s| s.replace(' ', ""))).collect();
        match f.ty.bits() { 16 => m.push("cfg(f16_enabled)".into()), 128 => m.push("cfg(f128_enabled)".into()), _ => {} }
        m.sort();
        write!(l, "|{m:?}").unwrap();
        for t in ex.into_iter().chain(arms.iter().find(|a| a.0.contains(n)).or(arms.iter().find(|a| a.0 == ["_"])).map(|a| a.1)) {
            match template(t, n, f.base)?.1 { Some(s) => write!(l, "|{s}").unwrap(), None => good = false }
        }
        want.push(l);
    }
    let call = format!("{}{}", fields.join(", "), if flags & COMMA != 0 { "," } else { "" });
    let pat: String = types.iter().map(|t| format!("{t}: ${t}:ty, ")).collect();
    let tys: String = types.iter().map(|t| format!("(\"{t}\", t::<${t}>()), ")).collect();
    let (p1, v1) = if ex.is_some() { ("extra: $extra:expr, ", "show(&$extra), ") } else { ("", "") };
    let (p2, v2) = if !arms.is_empty() { ("fn_extra: $fn_extra:expr, ", "show(&$fn_extra), ") } else { ("", "") };
    let source = format!("{}macro_rules! cb {{ (fn_name: $n:ident, {pat}attrs: [$($a:meta),*], {p1}{p2}) => {{ emit(stringify!($n), &[{tys}], &[$(stringify!($a)),*], &[{v1}{v2}]); }} }}\nfn all<'a>() {{ libm_macros::for_each_function! {{ {call} }} }}\n", *SUPPORT);
    Some(Model { source, good, want })
}
static SUPPORT: LazyLock<String> = LazyLock::new(|| {
    let mut all: Vec<&str> = NAMES.iter().copied().chain(NAMES.iter().map(|n| by_name(n).base)).collect();
    all.sort(); all.dedup();
    let mut s = "#![feature(f16, f128)]\n#![allow(warnings)]\nmod names {\npub fn macro_fn_name() -> &'static str { \"lower\" }\n".to_string();
    for n in &all { writeln!(s, "pub fn {n}() -> &'static str {{ \"{n}\" }}").unwrap(); }
    s += "}\nstruct X;\nimpl X {\n";
    for n in &all { writeln!(s, "fn {n}(&self, n: i32) -> String {{ x(\"{n}\", n) }}").unwrap(); }
    s += r#"}
fn x(s: &str, n: i32) -> String { format!("{s}{n}") }
fn t<T>() -> &'static str { std::any::type_name::<T>() }
fn show(t: &dyn std::fmt::Debug) -> String { format!("{t:?}") }
fn emit(n: &str, t: &[(&str, &str)], a: &[&str], x: &[String]) {
    let mut l = n.to_string();
    for (k, v) in t { l += &format!("|{k}: {v}"); }
    let mut m: Vec<String> = a.iter().map(|s| s.split_whitespace().collect::<String>()).collect();
    m.sort();
    l += &format!("|{m:?}");
    for x in x { l += &format!("|{x}"); }
    println!("{l}");
}
fn main() { all() }
"#;
    s
});
fn fatal(s: String) -> ! { eprintln!("{s}"); std::process::exit(3) }
/// The library of the macros the toolkit was just built with.
static LIB: LazyLock<String> = LazyLock::new(|| {
    let dir = std::env::var("VERIF_MACROS").unwrap_or_default();
    let all = std::fs::read_dir(&dir).into_iter().flatten().flatten().filter(|e| { let n = e.file_name(); let n = n.to_string_lossy(); n.starts_with("liblibm_macros-") && n.ends_with(".so") });
    match all.max_by_key(|e| e.metadata().and_then(|m| m.modified()).ok()) { Some(e) => e.path().to_string_lossy().to_string(), None => fatal(format!("no macro library in {dir}")) }
});
struct Dir(String);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn expand(c: &[V]) -> Verdict {
    let Some(m) = model(c) else { return Ok(false) };
    static K: AtomicU64 = AtomicU64::new(0);
    let d = Dir(std::env::temp_dir().join(format!("verif-macros-{}-{}", std::process::id(), K.fetch_add(1, Relaxed))).to_string_lossy().to_string());
    if let Err(e) = std::fs::create_dir_all(&d.0).and_then(|_| std::fs::write(format!("{}/a.rs", d.0), &m.source)) { fatal(format!("{}: {e}", d.0)); }
    let mut rustc = Command::new("rustc");
    rustc.args(["--edition", "2024", "--crate-name", "a", "-Ccodegen-units=1", "-Cdebuginfo=0", "a.rs", "--extern", &format!("libm_macros={}", *LIB)]).current_dir(&d.0).stdin(Stdio::null());
    if m.good { rustc.args(["-o", "a"]); } else { rustc.args(["--emit=metadata"]); }
    let o = match limited(&mut rustc, 60).output() { Ok(o) => o, Err(e) => fatal(format!("rustc: {e}")) };
    let err = String::from_utf8_lossy(&o.stderr);
    let first = || err.lines().filter(|l| l.starts_with("error") || l.contains("panicked") || l.contains("message")).take(3).collect::<Vec<_>>().join("; ");
    let call = m.source.rsplit_once("for_each_function! ").map_or("", |s| s.1).trim_end().trim_end_matches('}').trim_end().to_string();
    let call = if call.len() > 600 { format!("{}...", call.chars().take(600).collect::<String>()) } else { call };
    if o.status.signal() == Some(SIGXCPU) { return Err(format!("expanding {call} does not end")); }
    if err.contains("panicked") || err.contains("compiler unexpectedly") { return Err(format!("expanding {call} panics: {}", first())); }
    if !m.good { return if o.status.success() { Err(format!("{call} is accepted")) } else { Ok(true) }; }
    if !o.status.success() { return Err(format!("{call} is refused: {}", first())); }
    let o = match limited(Command::new(format!("{}/a", d.0)).stdin(Stdio::null()), 60).output() { Ok(o) => o, Err(e) => fatal(format!("{}: {e}", d.0)) };
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let mut got: Vec<&str> = out.lines().collect();
    got.sort();
    let mut want: Vec<&str> = m.want.iter().map(|s| s.as_str()).collect();
    want.sort();
    if got == want { return Ok(!want.is_empty()); }
    let extra: Vec<&&str> = got.iter().filter(|l| !want.contains(l)).take(2).collect();
    let missing: Vec<&&str> = want.iter().filter(|l| !got.contains(l)).take(2).collect();
    Err(format!("{call} gives {extra:?} instead of {missing:?} ({} calls, expected {})", got.len(), want.len()))
}
fn subset(r: &mut Rng, max: u64) -> Vec<&'static str> {
    let k = if r.chance(1, 8) { NAMES.len() as u64 - r.below(4) } else { r.below(max) };
    let mut v: Vec<&str> = NAMES.clone();
    for i in 0..v.len() { let j = i + r.below((v.len() - i) as u64) as usize; v.swap(i, j); }
    v.truncate(k as usize);
    v
}
fn generate(r: &mut Rng) -> Case {
    let mut s: [String; 7] = Default::default();
    let names = |r: &mut Rng, m: u64| { let v = subset(r, m); if v.is_empty() { "-".to_string() } else { v.join(" ") } };
    match r.below(4) { 0 => {} 1 => s[1] = names(r, 20), _ => s[2] = names(r, 20) }
    match r.below(4) { 0 => {} 1 => s[3] = "all".into(), 2 => s[3] = (*r.pick(&TYPES)).into(), _ => { let mut t = TYPES.to_vec(); for i in 0..7 { let j = i + r.below(7 - i as u64) as usize; t.swap(i, j); } t.truncate(r.below(8) as usize); s[3] = format!("[{}]", t.join(" ")); } }
    if r.bool() {
        let g: Vec<String> = (0..r.below(4)).map(|_| format!("{}:{}", (0..r.below(3)).map(|_| (b'0' + r.below(6) as u8) as char).collect::<String>(), names(r, 6))).collect();
        s[4] = if g.is_empty() { "-".into() } else { g.join(";") };
    }
    const T: &[u8] = b"0123456789ad";
    if r.bool() { s[5] = (*r.pick(T) as char).into(); }
    if r.chance(2, 3) {
        let mut v = subset(r, 12);
        let mut arms = vec![];
        while !v.is_empty() { let k = (1 + r.below(6) as usize).min(v.len()); arms.push(format!("{}={}", v.drain(..k).collect::<Vec<_>>().join(" "), *r.pick(T) as char)); if arms.len() > 20 { break; } }
        // the default may stand anywhere
        let at = r.below(arms.len() as u64 + 1) as usize;
        arms.insert(at, format!("_={}", *r.pick(T) as char));
        s[6] = arms.join(";");
    }
    let mut flags = r.u64() as u128 & 0xffff << 9 | r.below(2) as u128;
    if r.chance(1, 3) { // to be refused
        let typo = |r: &mut Rng| { let mut n = r.pick(&NAMES).to_string(); match r.below(4) { 0 => { n.pop(); } 1 => n.push('f'), 2 => n.push('_'), _ => n.insert(0, 'q') } n };
        match r.below(10) {
            0 => flags |= *r.pick(&SPOILS),
            1 => { let t = typo(r); s[1] += &format!(" {t}"); s[2].clear(); }
            2 => { let t = typo(r); s[2] += &format!(" {t}"); s[1].clear(); }
            3 => { let t = typo(r); s[4] = format!("0:{t}"); }
            4 => { let t = typo(r); s[6] = format!("{t}=0;_=1"); }
            5 => { s[1] = "sin cosf".into(); s[2] = names(r, 5); }
            6 => s[3] = (*r.pick(&["RustFns", "[CFn Ret]", "[all CFn]", "ALL", "[RustArgs all]", "fty"])).into(),
            7 => { if s[6].contains("_=") { s[6] = s[6].split(';').filter(|a| !a.starts_with('_')).collect::<Vec<_>>().join(";"); } }
            8 => { let n = *r.pick(&NAMES); s[6] = match r.below(4) { 0 => format!("{n}=0;{n}=1;_=2"), 1 => format!("_=0;{n}=1;_=2"), _ => format!("{n} {n}=0;_=2") }; }
            _ => { let t = if r.bool() { "b" } else { "c" }; if r.bool() { s[5] = t.into(); } else { s[6] = format!("_={t}"); } }
        }
    }
    let mut c = vec![V::N(flags)];
    c.extend(s.into_iter().skip(1).map(V::S));
    c
}

fn same(m: &MathOpInfo, f: &FnInfo) -> bool {
    let t = |v: &[libm_test::op::Ty]| v.iter().map(|t| t.to_string().replace("::core::ffi::c_int", "i32")).collect::<Vec<_>>();
    let strip = |s: String| -> Vec<String> { s.trim_start_matches('(').trim_end_matches(')').split(", ").map(|s| s.trim_end_matches(',').to_string()).filter(|s| !s.is_empty()).collect() };
    m.name == f.name && m.float_ty.to_string() == ty("FTy", f) && t(m.rust_sig.args) == strip(ty("RustArgs", f)) && t(m.rust_sig.returns) == strip(ty("RustRet", f)) && t(m.c_sig.args) == strip(ty("CArgs", f)) && t(m.c_sig.returns) == strip(ty("CRet", f))
}
fn identifier(c: &[V]) -> Verdict {
    let s = c[0].s();
    let got = Identifier::from_str(s);
    if !NAMES.contains(&s) { return if let Some(i) = got { Err(format!("{s:?} is taken for {i}")) } else { Ok(true) }; }
    let f = by_name(s);
    let Some(i) = got else { return Err(format!("{s} is not found")) };
    if i.as_str() != s || i.to_string() != s { return Err(format!("{s} becomes {i} ({})", i.as_str())); }
    if i.base_name().as_str() != f.base || i.base_name().to_string() != f.base { return Err(format!("the base name of {s} is {}", i.base_name())); }
    let n = Identifier::ALL.iter().filter(|j| **j == i).count();
    if n != 1 || Identifier::ALL.len() != NAMES.len() { return Err(format!("{s} is listed {n} times, {} in all", Identifier::ALL.len())); }
    // base names are the same value exactly if they are the same name
    for j in Identifier::ALL { if (j.base_name() == i.base_name()) != (j.base_name().as_str() == i.base_name().as_str()) { return Err(format!("{i} and {j} have base names {:?} and {:?}", i.base_name(), j.base_name())); } }
    if !same(i.math_op(), f) { return Err(format!("{s} is described as {:?}", i.math_op())); }
    Ok(true)
}
pub fn rules() -> Vec<Rule> {
    let n = NAMES.len() as u64;
    vec![
        rule("expand", 500, 8_000, generate, expand).guided(0).chunk(10),
        rule("identifier", 200_000, 2_000_000, |r| {
            let mut s: Vec<u8> = r.pick(&NAMES).bytes().collect();
            for _ in 0..r.below(3) {
                let at = r.below(s.len() as u64 + 1) as usize;
                let b = *r.pick(b"f16f128_abcdeghilmnopqrstuvwxyzF0");
                match r.below(4) { 0 => s.insert(at, b), 1 if at < s.len() => { s.remove(at); } 2 if at < s.len() => s[at] = b, _ => s.push(b) }
            }
            vec![V::S(String::from_utf8(s).unwrap())]
        }, identifier).every(n, |i| vec![V::S(NAMES[i as usize].into())]).guided(0),
    ]
}
