//! Constants of the source under test as generator hints (they never influence a verdict).
use crate::api::*;
use crate::rng::Rng;
use std::collections::BTreeSet;
use std::path::Path;

pub struct FileDict { pub name: String, pub ints: Vec<u128>, pub floats: Vec<f64> }
pub struct Dict { pub files: Vec<FileDict> }

fn hexfloat(s: &str) -> Option<f64> {
    // 0x1.abcp-5
    let s = s.to_ascii_lowercase();
    let s = s.strip_prefix("0x")?;
    let (m, e) = s.split_once('p')?;
    let e: i32 = e.parse().ok()?;
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let mut v = 0f64;
    let mut sc = 1f64;
    for c in ip.chars() { v = v * 16.0 + c.to_digit(16)? as f64; }
    for c in fp.chars() { sc /= 16.0; v += c.to_digit(16)? as f64 * sc; }
    Some(v * 2f64.powi(e.clamp(-1060, 1020)))
}

fn mine_text(name: &str, text: &str) -> FileDict {
    let mut ints = BTreeSet::new();
    let mut floats = BTreeSet::new();
    let mut fl = |v: f64| if v.is_finite() { floats.insert(v.abs().to_bits()); };
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if b[i].is_ascii_digit() && !prev_ident {
            let st = i;
            let hex = b[i] == b'0' && i + 1 < b.len() && (b[i + 1] | 32) == b'x';
            if hex { i += 2; }
            while i < b.len() {
                let c = b[i];
                let ok = if hex { c.is_ascii_hexdigit() || c == b'_' || c == b'.' && i + 1 < b.len() && b[i + 1] != b'.' || c == b'p' || ((c == b'-' || c == b'+') && (b[i - 1] | 32) == b'p') }
                    else { c.is_ascii_digit() || c == b'_' || c == b'.' && i + 1 < b.len() && b[i + 1] != b'.' && !b[i + 1].is_ascii_alphabetic() || (c | 32) == b'e' || ((c == b'-' || c == b'+') && (b[i - 1] | 32) == b'e') };
                if !ok { break; }
                i += 1;
            }
            let tok: String = text[st..i].chars().filter(|c| *c != '_').collect();
            if hex {
                if tok.contains('p') { if let Some(v) = hexfloat(&tok) { fl(v); } }
                else {
                    // type suffixes that look like hex digits (u8, i32) start with a non-hex letter, so the token ends before them
                    if let Ok(v) = u128::from_str_radix(&tok[2..], 16) { ints.insert(v); }
                }
            } else if let Ok(v) = tok.parse::<u128>() { ints.insert(v); fl(v as f64); }
            else if let Ok(v) = tok.trim_end_matches(['e', '.']).parse::<f64>() { fl(v); }
        } else { i += 1; }
    }
    FileDict { name: name.into(), ints: ints.into_iter().collect(), floats: floats.into_iter().map(f64::from_bits).collect() }
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v { if p.is_dir() { walk(&p, out) } else if p.extension().is_some_and(|e| e == "rs") { out.push(p) } }
}

pub fn mine(root: &str, pristine: &str) -> Dict {
    let mut files = vec![];
    walk(Path::new(root), &mut files);
    let mut d = vec![];
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            d.push(mine_text(f.file_stem().unwrap().to_str().unwrap(), &t));
        }
    }
    // constants of the tree the checks were written for, so that a changed constant keeps its old neighbourhood in the corpus
    if let Ok(t) = std::fs::read_to_string(pristine) {
        for l in t.lines() {
            let mut it = l.split(' ');
            let (Some(n), Some(k), Some(v)) = (it.next(), it.next(), it.next()) else { continue };
            let idx = match d.iter().position(|f| f.name == n) {
                Some(i) => i,
                None => { d.push(FileDict { name: n.into(), ints: vec![], floats: vec![] }); d.len() - 1 }
            };
            let Ok(v) = u128::from_str_radix(v, 16) else { continue };
            if k == "i" { if !d[idx].ints.contains(&v) { d[idx].ints.push(v); } }
            else { let x = f64::from_bits(v as u64); if !d[idx].floats.contains(&x) { d[idx].floats.push(x); } }
        }
    }
    Dict { files: d }
}
pub fn dump(d: &Dict) -> String {
    let mut s = String::new();
    for f in &d.files {
        for i in &f.ints { s += &format!("{} i {:x}\n", f.name, i); }
        for x in &f.floats { s += &format!("{} f {:x}\n", f.name, x.to_bits()); }
    }
    s
}

/// Source files whose constants matter for a function.
fn relevant(base: &str, name: &str, file: &str) -> bool {
    if file == base || file == name || file.trim_end_matches('f') == base { return true; }
    let deps: &[&str] = match base {
        "sin" | "cos" | "tan" | "sincos" => &["k_sin", "k_cos", "k_tan", "rem_pio2", "rem_pio2_large", "k_sinf", "k_cosf", "k_tanf", "rem_pio2f"],
        "sinh" | "cosh" => &["expo2", "k_expo2", "k_expo2f", "exp", "expf", "expm1", "expm1f"],
        "tanh" => &["expm1", "expm1f"],
        "asinh" | "acosh" | "atanh" => &["log1p", "log1pf", "log", "logf"],
        "atan2" => &["atan", "atanf"],
        "exp10" => &["exp2", "exp2f"],
        "tgamma" => &["lgamma_r", "lgammaf_r", "tgamma", "exp", "pow"],
        "lgamma" | "lgamma_r" => &["lgamma_r", "lgammaf_r", "log"],
        "y0" | "y1" | "yn" | "jn" => &["j0", "j1", "j0f", "j1f", "jn", "jnf"],
        "erfc" => &["erf", "erff"],
        "fma" => &["fma_wide", "fma"],
        "ldexp" => &["scalbn"],
        "remainder" => &["remquo", "remquof"],
        "roundeven" => &["rint"],
        "fmin" | "fmax" => &["fmin_fmax"],
        _ => &[],
    };
    deps.contains(&file)
}

/// Candidate bit patterns of one format derived from the constants of the relevant (or all) files.
pub struct Words { pub near: Vec<u128>, pub all: Vec<u128>, pub hi: Vec<u64>, pub ints: Vec<i64> }

pub fn words(d: &Dict, f: &FnInfo) -> Words {
    let ty = f.ty;
    let mut near = BTreeSet::new();
    let mut all = BTreeSet::new();
    let mut hi = BTreeSet::new();
    let mut ints = BTreeSet::new();
    for fd in &d.files {
        let rel = relevant(f.base, f.name, &fd.name);
        let mut put = |b: u128| { let b = ty.abs(b & ty.mask()); all.insert(b); if rel { near.insert(b); } };
        for &x in &fd.floats {
            put(ty.from_f64(x));
            if ty == Ty::F64 { put(ty.from_f64(x as f32 as f64)); }
        }
        for &i in &fd.ints {
            if i <= 1 << 62 { ints.insert(i as i64); }
            if i < (1u128 << 63) { put(ty.from_f64(i as f64)); }
            // as an encoding of a float of any format
            if i <= u32::MAX as u128 {
                put(ty.from_f64(f32::from_bits(i as u32) as f64));
                put(ty.from_f64(f64::from_bits((i as u64) << 32)));
                if rel { hi.insert(i as u64); }
            }
            if i > u32::MAX as u128 && i <= u64::MAX as u128 { put(ty.from_f64(f64::from_bits(i as u64))); }
            if ty.bits() == 128 || i < (1 << ty.bits()) { put(i); }
            // as an exponent
            if i < 40000 {
                let e = i as i32;
                for e in [e, -e, e - ty.bias()] { if e.abs() <= ty.bias() + ty.mb() as i32 { put(ty.build(false, e, 0)); } }
            }
        }
    }
    all.retain(|b| !ty.is_nan(*b));
    near.retain(|b| !ty.is_nan(*b));
    if near.is_empty() { near = all.clone(); }
    Words { near: near.into_iter().collect(), all: all.into_iter().collect(), hi: hi.into_iter().collect(), ints: ints.into_iter().collect() }
}
impl Words {
    pub fn pick(&self, r: &mut Rng) -> u128 { if r.chance(3, 4) { *r.pick(&self.near) } else { *r.pick(&self.all) } }
}
