//! The command line evaluator, run as a process: the arguments it is given are the values it computes with.
use crate::api::{Args, FnInfo, Sig, Ty, by_name};
use crate::eng::*;
use crate::ops::{self, Op};
use crate::oracle;
use crate::rng::*;
use rug::Float;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

const PREC: u32 = 3000;

/// The bits of the float a text means; None if it means nothing, or something that only rounding would make a float where
/// the notation is exact.
fn float(ty: Ty, s: &str) -> Option<u128> {
    if let Some(h) = s.strip_prefix("0b") { if h.contains('p') { return None; } return bits(ty.bits(), h, 2); }
    let (neg, h) = match s.strip_prefix("-0x") { Some(h) => (true, h), None => match s.strip_prefix("0x") { Some(h) => (false, h), None => return decimal(ty, s) } };
    if !h.contains('p') { return if neg { None } else { bits(ty.bits(), h, 16) }; }
    let (m, e) = h.split_once('p')?;
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let d = format!("{i}{f}");
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_hexdigit()) || d.len() > 400 { return None; }
    let ed = e.strip_prefix(['+', '-']).unwrap_or(e);
    if ed.is_empty() || ed.trim_start_matches('0').len() > 8 || !ed.bytes().all(|c| c.is_ascii_digit()) { return None; }
    let e: i64 = e.strip_prefix('+').unwrap_or(e).parse().ok()?;
    let mut v = Float::with_val(PREC, Float::parse_radix(&d, 16).ok()?);
    if v.is_zero() { return Some(if neg { ty.sign() } else { 0 }); }
    v <<= (e - 4 * f.len() as i64) as i32;
    let b = oracle::round_to(ty, &v);
    // exact or nothing
    if !ty.is_finite(b) || oracle::to_mp_prec(ty, b, PREC) != v { return None; }
    Some(if neg { b | ty.sign() } else { b })
}
fn bits(n: u32, h: &str, radix: u32) -> Option<u128> {
    if h.is_empty() || h.starts_with(['+', '-']) { return None; }
    let v = u128::from_str_radix(h, radix).ok()?;
    if n < 128 && v >> n != 0 { None } else { Some(v) }
}
fn decimal(ty: Ty, s: &str) -> Option<u128> {
    let (neg, m) = match s.strip_prefix('-') { Some(m) => (true, m), None => (false, s) };
    let sign = if neg { ty.sign() } else { 0 };
    match m { "inf" => return Some(ty.inf() | sign), "nan" | "NaN" => return Some(ty.nan()), _ => {} }
    let (d, e) = m.split_once('e').unwrap_or((m, "0"));
    let (i, f) = d.split_once('.').unwrap_or((d, ""));
    if (i.is_empty() && f.is_empty()) || !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) { return None; }
    let ed = e.strip_prefix(['+', '-']).unwrap_or(e);
    if ed.is_empty() || ed.trim_start_matches('0').len() > 6 || !ed.bytes().all(|c| c.is_ascii_digit()) { return None; }
    let v = Float::with_val(PREC, Float::parse(m).ok()?);
    Some(if v.is_zero() { sign } else { oracle::round_to(ty, &v) | sign })
}
fn int(s: &str) -> Option<u128> {
    if let Some(h) = s.strip_prefix("0x") { return bits(31, h, 16); }
    if let Some(h) = s.strip_prefix("0b") { return bits(31, h, 2); }
    let d = s.strip_prefix('-').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None; }
    s.parse::<i32>().ok().map(|v| v as u32 as u128)
}

fn write(r: &mut Rng, ty: Ty, b: u128) -> String {
    let finite = ty.is_finite(b);
    let sign = if ty.is_neg(b) { "-" } else { "" };
    match r.below(8) {
        0 => format!("0x{b:x}"),
        1 => { let w = (ty.bits() / 4) as usize; format!("0x{b:0w$x}") }
        2 => { let w = if r.bool() { ty.bits() as usize } else { 0 }; format!("0b{b:0w$b}") }
        3 | 4 if finite => { // hexadecimal, the digits grouped and pointed anyhow
            let (e, m) = if ty.is_zero(b) { (0, 0) } else { oracle::norm(ty, ty.abs(b)) };
            let mut m = if ty.is_zero(b) { 0 } else { m | 1 << ty.mb() };
            let mut x = e as i64 - ty.mb() as i64;
            if m != 0 { let z = r.below(m.trailing_zeros() as u64 + 1); m >>= z; x += z as i64; }
            if m >> 124 == 0 { let z = r.below(4); m <<= z; x -= z as i64; }
            let mut d = format!("{m:x}");
            if r.chance(1, 4) { d = format!("{}{d}", "0".repeat(r.below(5) as usize)); }
            if r.chance(1, 4) { let k = r.below(5) as usize; d += &"0".repeat(k); x -= 4 * k as i64; }
            let at = r.below(d.len() as u64 + 1) as usize;
            let x = x + 4 * (d.len() - at) as i64;
            if r.chance(1, 10) { d += *r.pick(&["1", "8", "01"]); } // often too precise
            let p = if r.bool() { "+" } else { "" };
            if at == d.len() && r.bool() { format!("{sign}0x{d}p{x}") } else if x < 0 { format!("{sign}0x{}.{}p{x}", &d[..at], &d[at..]) } else { format!("{sign}0x{}.{}p{p}{x}", &d[..at], &d[at..]) }
        }
        5 if finite => { // the value or a point half a step away, in full, or with something after it
            let mut v = oracle::to_mp_prec(ty, ty.abs(b), 400);
            if ty.ef(b) > 0 && ty.ef(b) < ty.bias() + 80 && ty.ef(b) > ty.bias() - 80 {
                if r.bool() { let h = oracle::to_mp_prec(ty, ty.step(ty.abs(b), 1), 400); v += h; v /= 2; }
                let mut s = v.to_string_radix(10, None);
                if !s.contains('e') { if !s.contains('.') { s += "."; } let k = r.below(40) as usize; match r.below(3) { 0 => {} 1 => { s += &"0".repeat(k); s += "1"; } _ => { s.pop(); } } }
                if s.ends_with('.') { s += "0"; }
                format!("{sign}{s}")
            } else { let d = 1 + r.below(40) as usize; let s = v.to_string_radix(10, Some(d)); format!("{sign}{s}") }
        }
        6 if finite => { let d = 1 + r.below(40) as usize; let s = oracle::to_mp_prec(ty, ty.abs(b), ty.mb() + 1).to_string_radix(10, Some(d)); format!("{sign}{s}") }
        7 if finite => { let k = r.u64() >> r.below(64); format!("{sign}{}.{}e{}", k, r.below(1000), r.range(-40, 40)) }
        _ => if ty.is_nan(b) { "nan".into() } else if ty.is_inf(b) { format!("{sign}inf") } else { format!("0x{b:x}") },
    }
}

fn check(c: &[V]) -> Verdict {
    let all = ops::all();
    let op = &all[c[0].n() as usize % all.len()];
    let f = by_name(op.name);
    let basis = c[1].s();
    let words: Vec<&str> = c[2].s().split(' ').filter(|w| !w.is_empty()).collect();
    let mut a: Args = [0; 3];
    let mut good = words.len() == f.sig.args().len() && (basis == "libm" || basis == "mpfr");
    if good { for (i, w) in words.iter().enumerate() { match if f.sig.args()[i] { float(f.ty, w) } else { int(w) } { Some(v) => a[i] = v, None => good = false } } }
    // what MPFR or a loop over the order does not finish
    let x = a[f.sig.args().len() - 1];
    if good && f.sig == Sig::IF_F && (a[0] as u32 as i32).unsigned_abs() > 100 { return Ok(false); }
    if good && f.base.starts_with(['j', 'y']) && basis == "mpfr" && !(f.ty.is_finite(x) && f.ty.ef(x) < f.ty.bias() + 10 && f.ty.ef(x) > f.ty.bias() - 60) { return Ok(false); }
    // exponents so long that the reference here does not take them
    if words.iter().any(|w| w.rsplit(if w.contains("0x") { 'p' } else { 'e' }).next().is_some_and(|e| e.len() < w.len() && e.trim_start_matches(['+', '-', '0']).len() > 6)) { return Ok(false); }
    // MPFR does not keep the sign of a NaN
    if f.base == "copysign" && basis == "mpfr" && f.ty.is_nan(a[1]) { return Ok(false); }
    if f.base == "nextafter" && basis == "mpfr" { return Ok(false); }
    let bin = std::env::var("VERIF_EVAL").unwrap_or_default();
    let o = limited(Command::new(&bin).args(["eval", basis, op.name]).args(&words).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stderr(Stdio::piped()), 10).output();
    let o = match o { Ok(o) => o, Err(e) => { eprintln!("{bin}: {e}"); std::process::exit(3) } };
    if o.status.signal() == Some(SIGXCPU) && basis == "mpfr" { return Ok(false); }
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let line = format!("eval {basis} {} {}", op.name, words.join(" "));
    if !good {
        if o.status.success() { return Err(format!("{line} means nothing, but gives {}", out.trim())); }
        return Ok(false);
    }
    if !o.status.success() { return Err(format!("{line} fails: {}", String::from_utf8_lossy(&o.stderr).lines().filter(|l| !l.is_empty()).take(3).collect::<Vec<_>>().join(" "))); }
    let want = if basis == "libm" { (op.shown)(&a) } else { (op.mp_shown)(&a) };
    // which NaN it is may vary
    let n = |s: &str| s.replace("-NaN", "NaN");
    if f.ty == Ty::F16 || f.ty == Ty::F128 { // Debug of a NaN is its bits
        let t = |s: &str| if s.contains("NaN") { s.split_whitespace().last().unwrap_or("").to_string() } else { s.to_string() };
        if t(&n(out.trim_end())) != t(&n(&want)) { return Err(format!("{line} gives {}, expected {want}", out.trim_end())); }
    } else if n(out.trim_end()) != n(&want) { return Err(format!("{line} gives {}, expected {want}", out.trim_end())); }
    Ok(true)
}

fn generate(r: &mut Rng) -> Case {
    let all: &[Op] = ops::all();
    let i = r.below(all.len() as u64);
    let f: &FnInfo = by_name(all[i as usize].name);
    let basis = if r.chance(1, 4) && f.base != "nextafter" { "mpfr" } else { "libm" };
    let mut w: Vec<String> = (0..f.sig.args().len()).map(|k| {
        let b = ops::arg(r, f, k);
        if f.sig.args()[k] { write(r, f.ty, b) } else { let v = b as u32 as i32; match r.below(3) { 0 if v >= 0 => format!("0x{v:x}"), 1 if v >= 0 => format!("0b{v:b}"), _ => v.to_string() } }
    }).collect();
    if r.chance(1, 12) { // spoil it
        let k = r.below(w.len() as u64) as usize;
        match r.below(6) {
            0 => { w.pop(); }
            1 => w.push("1".into()),
            2 => w[k] += *r.pick(&["x", "g", ".", "..", "p", "e", "-", ","]),
            3 => w[k] = (*r.pick(&["0x", "0b", "0xg", "0b2", "abc", "--1", "1e", "0x1p", "0xp1", "1.2.3", "-", "e5", "0x1.8.1p0", "-0b1"])).into(),
            4 => { w[k] = format!("0x1{}", "0".repeat(if f.sig.args()[k] { f.ty.bits() as usize / 4 } else { 8 })); }
            _ => { let m = w[k].len() as u64; if m > 0 { let at = r.below(m) as usize; w[k].remove(at); } }
        }
    }
    vec![V::N(i as u128), V::S(basis.into()), V::S(w.join(" "))]
}
fn named(c: &[V]) -> Verdict {
    let bin = std::env::var("VERIF_EVAL").unwrap_or_default();
    let words: Vec<&str> = c[0].s().split(' ').filter(|w| !w.is_empty()).collect();
    // names that exist have their own rule
    if words.len() < 3 || words[0] != "eval" || ((words[1] == "libm" || words[1] == "mpfr") && ops::all().iter().any(|o| o.name == words[2])) { if words.first() == Some(&"eval") && words.len() >= 3 { return Ok(false); } }
    match limited(Command::new(&bin).args(&words).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stderr(Stdio::null()), 10).output() {
        Ok(o) if o.status.success() => Err(format!("{} is no command, but gives {}", c[0].s(), String::from_utf8_lossy(&o.stdout).trim())),
        Ok(_) => Ok(true),
        Err(e) => { eprintln!("{bin}: {e}"); std::process::exit(3) }
    }
}

/// Commands may compute for so many seconds. The limit is set here and inherited; here it only calls an empty handler, which
/// a new program does not have.
pub fn limited(c: &mut Command, secs: u64) -> &mut Command {
    #[repr(C)]
    struct Rlimit { cur: u64, max: u64 }
    unsafe extern "C" {
        fn getrlimit(r: i32, l: *mut Rlimit) -> i32;
        fn setrlimit(r: i32, l: *const Rlimit) -> i32;
        fn signal(s: i32, h: extern "C" fn(i32)) -> usize;
    }
    extern "C" fn nothing(_: i32) {}
    static ONCE: std::sync::Once = std::sync::Once::new();
    unsafe {
        ONCE.call_once(|| { signal(SIGXCPU, nothing); });
        // the kernel moves the limit on when it is passed
        let mut l = Rlimit { cur: 0, max: 0 };
        if getrlimit(0, &mut l) == 0 && l.max > secs { l.cur = secs; setrlimit(0, &l); }
    }
    c
}
pub const SIGXCPU: i32 = 24;

pub fn rules() -> Vec<Rule> {
    vec![
        rule("eval", 150_000, 6_000_000, generate, check).guided(0).chunk(500),
        rule("refused", 4_000, 100_000, |r| {
            let all = ops::all();
            let mut n: Vec<char> = r.pick(all).name.chars().collect();
            match r.below(4) { 0 => { n.pop(); } 1 => n.push(*r.pick(&['f', 'l', '1', '_'])), 2 => { let k = r.below(n.len() as u64) as usize; n[k] = 'q'; } _ => n.insert(0, 'x') }
            let n: String = n.into_iter().collect();
            let b = *r.pick(&["libm", "mpfr", "musl", "Libm", "rug", ""]);
            let v = *r.pick(&["eval", "eval", "eval", "run", "Eval"]);
            vec![V::S(format!("{v} {b} {n} 1"))]
        }, named).guided(0).chunk(250),
    ]
}
