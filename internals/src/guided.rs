//! Coverage- and comparison-guided search over the same rules, in the instrumented build of this program. It prints what it
//! did and the cases that failed; the ordinary build judges those again.
use crate::eng::*;
use crate::rng::*;
use std::ffi::c_void;

unsafe extern "C" {
    fn cov_run(f: extern "C" fn(*mut c_void), p: *mut c_void, lim: u64) -> i64;
    fn cov_merge(acc: *mut u8, vacc: *mut u8) -> i32;
    fn cov_cmps(a: *mut u64, b: *mut u64) -> u32;
    fn cov_branches(acc: *const u8) -> u32;
}
const NCMP: usize = 192; // as in cov.c
const M: usize = 65536;
extern "C" fn go(p: *mut c_void) { let j = unsafe { &mut *(p as *mut &mut dyn FnMut()) }; j(); }
fn watched(mut body: impl FnMut()) {
    let mut d: &mut dyn FnMut() = &mut body;
    unsafe { cov_run(go, &mut d as *mut &mut dyn FnMut() as *mut c_void, u64::MAX); }
}

struct Entry { c: Case, branch: bool, cmps: Vec<(u64, u64)> }
pub struct Found { pub execs: u64, pub corpus: u64, pub branchy: u64, pub branches: u64, pub fails: Vec<Case> }

pub fn evolve(r: &Rule, seed: u64, run: u64, execs: u64) -> Found {
    let mut rng = Rng::new(seed, hash_str(&r.id), 0x9000 + run);
    let (mut acc, mut vacc) = (vec![0u8; M], vec![0u8; M]);
    let (mut ca, mut cb) = ([0u64; NCMP], [0u64; NCMP]);
    let mut corpus: Vec<Entry> = vec![];
    let mut branchy: Vec<u32> = vec![];
    let mut out = Found { execs: 0, corpus: 0, branchy: 0, branches: 0, fails: vec![] };
    for k in 0..execs {
        let c = if corpus.is_empty() || k < execs / 16 || rng.chance(1, 12) { (r.generate)(&mut rng) } else {
            let n = corpus.len() as u64;
            let i = match rng.below(4) { 0 => rng.below(n), 1 if !branchy.is_empty() => *rng.pick(&branchy) as u64, 2 if !branchy.is_empty() => { let m = branchy.len() as u64; branchy[(m - 1 - rng.below(m.min(16))) as usize] as u64 } _ => n - 1 - rng.below(n.min(64)) };
            let o = rng.below(n) as usize;
            let e = &corpus[i as usize];
            mutate(&mut rng, &e.c, &corpus[o].c, &e.cmps)
        };
        let mut v = Ok(false);
        watched(|| v = judge(r, &c));
        out.execs += 1;
        let new = unsafe { cov_merge(acc.as_mut_ptr(), vacc.as_mut_ptr()) };
        if new != 0 && corpus.len() < 20000 {
            let n = unsafe { cov_cmps(ca.as_mut_ptr(), cb.as_mut_ptr()) } as usize;
            let mut cmps: Vec<(u64, u64)> = (0..n).map(|i| (ca[i], cb[i])).collect();
            cmps.sort(); cmps.dedup();
            if new & 2 != 0 { branchy.push(corpus.len() as u32); }
            corpus.push(Entry { c: c.clone(), branch: new & 2 != 0, cmps });
        }
        if v.is_err() { out.fails.push(c); if out.fails.len() >= 4 { break; } }
    }
    out.corpus = corpus.len() as u64;
    out.branchy = corpus.iter().filter(|e| e.branch).count() as u64;
    out.branches = unsafe { cov_branches(acc.as_ptr()) } as u64;
    out
}

fn mutate(r: &mut Rng, b: &Case, other: &Case, cmps: &[(u64, u64)]) -> Case {
    let mut c = b.clone();
    if c.is_empty() { return c; }
    for _ in 0..if r.chance(2, 3) { 1 } else { 1 + r.below(3) } {
        let i = r.below(c.len() as u64) as usize;
        let o = if other.len() == c.len() { Some(&other[i]) } else { None };
        c[i] = match &c[i] { V::N(n) => V::N(number(r, *n, o.map(|o| o.n()), cmps)), V::S(s) => V::S(text(r, s, o.map(|o| o.s()), cmps)) };
    }
    c
}
fn pair(r: &mut Rng, cmps: &[(u64, u64)]) -> (u64, u64) {
    let (p, q) = *r.pick(cmps);
    let (p, q) = if r.bool() { (p, q) } else { (q, p) };
    (p, match r.below(6) { 0 => q.wrapping_add(1), 1 => q.wrapping_sub(1), _ => q })
}
fn number(r: &mut Rng, x: u128, o: Option<u128>, cmps: &[(u64, u64)]) -> u128 {
    let len = (128 - x.leading_zeros()).max(8);
    let w = if r.bool() { len } else { len.next_power_of_two().max(16) };
    match r.below(12) {
        0 | 1 => x ^ 1 << r.below(w as u64),
        2 => { let d = 1u128 << r.below(w as u64); if r.bool() { x.wrapping_add(d) } else { x.wrapping_sub(d) } }
        3 => { let d = r.below(16) as u128; if r.bool() { x.wrapping_add(d) } else { x.wrapping_sub(d) } }
        4 => o.unwrap_or(x),
        5 => { let k = r.below(w as u64) as u32; let m = (1u128 << k) - 1; (x & !m) | (r.u128() & m) }
        _ if !cmps.is_empty() => {
            for _ in 0..12 {
                let (p, q) = pair(r, cmps);
                if x as u64 == p && r.bool() { return (x >> 64 << 64) | q as u128; }
                if r.chance(1, 3) { return x.wrapping_add(((q as i64).wrapping_sub(p as i64) as i128 as u128) << *r.pick(&[0, 0, 10, 23, 32, 52, 64])); }
                let need = 64 - p.max(q).leading_zeros();
                let width = need.max(*r.pick(&[1, 4, 5, 8, 10, 11, 12, 15, 16, 20, 23, 24, 32, 48, 52, 63, 64]));
                let m = (1u128 << width) - 1;
                let at: Vec<u32> = (0..=128 - width).filter(|s| (x >> s) & m == p as u128).collect();
                if at.is_empty() { continue; }
                let s = match r.below(4) { 0 | 1 => at[0], 2 => at[at.len() - 1], _ => *r.pick(&at) };
                return (x & !(m << s)) | (q as u128 & m) << s;
            }
            x
        }
        _ => r.u128() >> r.below(128),
    }
}
fn text(r: &mut Rng, s: &str, o: Option<&str>, cmps: &[(u64, u64)]) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    match r.below(12) {
        0 if n > 0 => { c.remove(r.below(n as u64) as usize); }
        1 => c.insert(r.below(n as u64 + 1) as usize, *r.pick(&['0', '1', '8', '9', 'f', 'F', '.', '-', '+', 'p', 'x', ' '])),
        2 if n > 0 => { let i = r.below(n as u64) as usize; c[i] = (b'0' + r.below(10) as u8) as char; }
        3 if n > 0 => { let i = r.below(n as u64) as usize; c[i] = *r.pick(&['0', '1', '7', '8', 'a', 'f', '.', 'p', 'P', '-', '+']); }
        4 if n > 0 => { let i = r.below(n as u64) as usize; let k = 1 + r.below(8) as usize; let d: Vec<char> = c[i..(i + k).min(n)].to_vec(); if n < 600 { let at = r.below(n as u64 + 1) as usize; for (j, x) in d.into_iter().enumerate() { c.insert(at + j, x); } } }
        5 if n > 1 => { let i = r.below(n as u64) as usize; let k = 1 + r.below(8) as usize; c.drain(i..(i + k).min(n)); }
        6 => if let Some(o) = o { let oc: Vec<char> = o.chars().collect(); let (i, j) = (r.below(n as u64 + 1) as usize, r.below(oc.len() as u64 + 1) as usize); c.truncate(i); c.extend(&oc[j..]); },
        _ if !cmps.is_empty() => {
            for _ in 0..12 {
                let (p, q) = pair(r, cmps);
                // a character, a decimal number, or a run of hexadecimal digits that occurs in the text
                match r.below(3) {
                    0 => { let (Some(p), Some(q)) = (char::from_u32(p as u32), char::from_u32(q as u32)) else { continue };
                        let at: Vec<usize> = (0..n).filter(|i| c[*i] == p).collect();
                        if at.is_empty() || !q.is_ascii() { continue; }
                        c[*r.pick(&at)] = q; break; }
                    1 => { let d = (q as i64).wrapping_sub(p as i64); if d == 0 || d.unsigned_abs() > 1 << 33 { continue; }
                        let Some(at) = s.find(['p', 'P']) else { continue };
                        let Ok(e) = s[at + 1..].parse::<i64>() else { continue };
                        let e = match r.below(3) { 0 => e.wrapping_add(d), 1 => e.wrapping_sub(d), _ => q as i64 };
                        return format!("{}{}", &s[..at + 1], e); }
                    _ => { let (ps, qs) = (format!("{p:x}"), format!("{q:x}"));
                        if ps.len() < 2 { continue; }
                        let Some(at) = s.to_ascii_lowercase().find(&ps) else { continue };
                        if !s.is_char_boundary(at) || !s.is_char_boundary(at + ps.len()) { continue; }
                        return format!("{}{}{}", &s[..at], qs, &s[at + ps.len()..]); }
                }
            }
        }
        _ => {}
    }
    c.into_iter().collect()
}
