//! C23: hexadecimal float literals against an exact reference.
use crate::eng::*;
use crate::rng::*;
use libm::support::hex_float::{parse_any, parse_hex_exact};
use libm::support::{Hexf, Round, Status, hf16, hf32, hf64, hf128};
use rug::Integer;

const ROUNDS: [Round; 4] = [Round::Nearest, Round::Negative, Round::Positive, Round::Zero];
pub const FORMATS: [(u32, u32); 4] = [(16, 10), (32, 23), (64, 52), (128, 112)];

#[derive(Debug, PartialEq, Clone)]
pub struct Parsed { pub bits: u128, pub inexact: bool, pub underflow: bool, pub overflow: bool }

/// What the literal means in a format of `bits` bits with `sig` stored significand bits; None: malformed.
pub fn reference(s: &str, bits: u32, sig: u32, round: Round) -> Option<Parsed> {
    if sig > 119 || bits > 128 || bits < sig + 3 || bits > sig + 30 { return None; }
    let mut t = s;
    let neg = t.starts_with('-');
    if neg || t.starts_with('+') { t = &t[1..]; }
    let ew = bits - 1 - sig;
    let inf = ((1u128 << ew) - 1) << sig;
    let sign = if neg { 1u128 << (bits - 1) } else { 0 };
    let exact = |b: u128| Some(Parsed { bits: b | sign, inexact: false, underflow: false, overflow: false });
    if t.eq_ignore_ascii_case("inf") { return exact(inf); }
    if t.eq_ignore_ascii_case("nan") { return exact(inf | 1 << (sig - 1)); }
    let t = t.strip_prefix("0x").or_else(|| t.strip_prefix("0X"))?;
    let at = t.find(['p', 'P'])?;
    let (m, e) = (&t[..at], &t[at + 1..]);
    let (ip, fp) = match m.find('.') { Some(d) => (&m[..d], &m[d + 1..]), None => (m, "") };
    if ip.len() + fp.len() == 0 || !(ip.to_string() + fp).bytes().all(|b| b.is_ascii_hexdigit()) { return None; }
    let (eneg, ed) = match e.strip_prefix('-') { Some(r) => (true, r), None => (false, e.strip_prefix('+').unwrap_or(e)) };
    if ed.is_empty() || !ed.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let d = Integer::from_str_radix(&(ip.to_string() + fp), 16).unwrap();
    if d == 0 { return exact(0); }
    let big = Integer::from_str_radix(ed, 10).unwrap();
    // far beyond every format and every digit string generated here
    let mut ex: i64 = if big > 1i64 << 40 { 1 << 40 } else { big.to_i64().unwrap() };
    if eneg { ex = -ex; }
    let ex = ex - 4 * fp.len() as i64;
    let emax = (1i64 << (ew - 1)) - 1;
    let emin = 1 - emax;
    let top = d.significant_bits() as i64 - 1 + ex;
    let away = match round { Round::Nearest => 2, Round::Zero => 0, Round::Positive => !neg as i32, Round::Negative => neg as i32 };
    let over = |b: bool| { let _ = b; Some(Parsed { bits: (if away == 0 { inf - 1 } else { inf }) | sign, inexact: true, underflow: false, overflow: true }) };
    if top > emax { return over(true); }
    // the place of the last kept bit
    let q = (top - sig as i64).max(emin - sig as i64);
    let (mut k, inexact) = if ex >= q { (d << (ex - q) as u32, false) } else {
        let sh = q - ex;
        if sh > d.significant_bits() as i64 + 2 {
            (Integer::from((away == 1) as u32), true)
        } else {
            let sh = sh as u32;
            let mut k = Integer::from(&d >> sh);
            let rem = d - Integer::from(&k << sh);
            let half = Integer::from(1) << (sh - 1);
            let up = rem != 0 && match away { 0 => false, 1 => true, _ => rem > half || (rem == half && k.is_odd()) };
            let ix = rem != 0;
            if up { k += 1; }
            (k, ix)
        }
    };
    let mut q = q;
    if k.significant_bits() > sig + 1 { k >>= 1; q += 1; }
    let b = if k.significant_bits() == sig + 1 {
        let e = q + sig as i64;
        if e > emax { return over(true); }
        ((e + emax) as u128) << sig | (k.to_u128().unwrap() & ((1 << sig) - 1))
    } else { k.to_u128().unwrap() };
    Some(Parsed { bits: b | sign, inexact, underflow: inexact && b < 1 << sig, overflow: false })
}

fn show(p: &Option<Parsed>) -> String { match p { None => "an error".into(), Some(p) => format!("0x{:x}{}{}{}", p.bits, if p.inexact { " inexact" } else { "" }, if p.underflow { " underflow" } else { "" }, if p.overflow { " overflow" } else { "" }) } }

fn parse_check(c: &[V]) -> Verdict {
    let (s, bits, sig, round) = (c[0].s(), c[1].n() as u32, c[2].n() as u32, ROUNDS[(c[3].n() & 3) as usize]);
    if sig == 0 || bits > 200 || sig > 200 { return Ok(false); }
    let want = reference(s, bits, sig, round);
    let got = match parse_any(s, bits, sig, round) {
        Err(_) => None,
        Ok((b, st)) => {
            let p = Parsed { bits: b, inexact: st.inexact(), underflow: st.underflow(), overflow: st.overflow() };
            if (st == Status::OK) != !(p.inexact || p.underflow || p.overflow) { return Err(format!("status {st:?} has other flags")); }
            Some(p)
        }
    };
    if got != want { return Err(format!("parse_any gives {}, expected {} ({round:?}, {bits} bits, {sig} significand bits)", show(&got), show(&want))); }
    if round == Round::Nearest {
        let ok = match &want { Some(p) if !p.inexact => Some(p.bits), _ => None };
        let ex = parse_hex_exact(s, bits, sig).ok();
        if ex != ok { return Err(format!("parse_hex_exact gives {ex:x?}, expected {ok:x?}")); }
        let h = mix(hash_str(s), 3);
        if h & 63 == 0 || s.len() < 6 {
            // the public functions panic where there is no exact value
            let r = match bits {
                16 if sig == 10 => quiet(|| hf16(s).to_bits() as u128),
                32 if sig == 23 => quiet(|| hf32(s).to_bits() as u128),
                64 if sig == 52 => quiet(|| hf64(s).to_bits() as u128),
                128 if sig == 112 => quiet(|| hf128(s).to_bits()),
                _ => ok,
            };
            if r != ok { return Err(format!("hf{bits} gives {r:x?}, expected {ok:x?}")); }
        }
    }
    Ok(want.is_some_and(|p| p.bits & ((1 << (bits - 1)) - 1) != 0))
}

fn digits(bits: &Integer, up: &mut Rng) -> String {
    let s = bits.to_string_radix(16);
    s.chars().map(|c| if up.chance(1, 6) { c.to_ascii_uppercase() } else { c }).collect()
}

/// A literal near something of interest in the format.
fn literal(r: &mut Rng, bits: u32, sig: u32) -> String {
    let ew = bits - 1 - sig;
    let emax = (1i64 << (ew - 1)) - 1;
    let emin = 1 - emax;
    // leading bits
    let n = match r.below(8) { 0..=4 => sig + 1, 5 => 1 + r.below(sig as u64 + 1) as u32, 6 => 1 + r.below(130) as u32, _ => 1 + r.below(300) as u32 };
    let mut m = Integer::from(1);
    for _ in 0..n.div_ceil(64) { m <<= 64; m += match r.below(5) { 0 => 0, 1 => u64::MAX, 2 => 1u64 << r.below(64), _ => r.u64() }; }
    let l = m.significant_bits();
    m >>= l - n.min(l);
    // tail after the leading bits
    let tl = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => 1 + r.below(12) as u32, 4 => 1 + r.below(150) as u32, _ => 1 + r.below(900) as u32 };
    let one = Integer::from(1);
    let full = Integer::from(&one << tl);
    let half = Integer::from(&full >> 1);
    let tail = match r.below(9) { 0 => Integer::new(), 1 | 2 => half, 3 => half + 1u32, 4 => if half > 0 { half - 1u32 } else { half }, 5 => Integer::from(1), 6 => full.clone() - 1u32, 7 => Integer::from(r.u64()) & (full.clone() - 1u32), _ => Integer::from(&half >> 1u32) + half };
    let tail = if tail >= full { full.clone() - 1u32 } else { tail };
    let mut m = (m << tl) + tail;
    if r.chance(1, 64) { m = Integer::new(); }
    let e = match r.below(10) {
        0 | 1 => r.range(-5, 5),
        2 => emax + r.range(-2, 3),
        3 | 4 => emin - r.range(-2, sig as i64 + 4),
        5 => emin - sig as i64 + r.range(-4, 3),
        6 => emin + (r.below((2 * emax) as u64)) as i64,
        7 => r.range(-3 * emax, 3 * emax),
        8 => { let k = 15 + r.below(20); let v = (1i64 << k) + r.range(-3, 3) * (1 << r.below(8)); if r.bool() { v } else { -v } }
        _ => { let v = *r.pick(&[i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 30, 1 << 29, (1 << 31) + emax, (1 << 32) + emin, 65536, 1 << 17, 1 << 24]); let v = v + r.range(-300, 300); if r.chance(1, 4) { -v } else { v } }
    };
    // value = 1.xxx * 2^e: place it
    let mut p = e - (m.significant_bits() as i64 - 1);
    let al = r.below(4) as u32;
    m <<= al; p -= al as i64;
    let mut d = digits(&m, r);
    if r.chance(1, 4) { d = { let k = if r.chance(1, 8) { 200 } else { 5 }; "0".repeat(1 + r.below(k) as usize) } + &d; }
    if r.chance(1, 4) { let k = if r.chance(1, 8) { 200 } else { 5 }; let z = 1 + r.below(k) as usize; d += &"0".repeat(z); p -= 4 * z as i64; }
    let at = match r.below(5) { 0 => 0, 1 => d.len(), 2 => 1.min(d.len()), _ => r.below(d.len() as u64 + 1) as usize };
    p += 4 * (d.len() - at) as i64;
    let dot = at != d.len() || r.bool();
    let body = if dot { format!("{}.{}", &d[..at], &d[at..]) } else { d };
    let es = if r.chance(1, 40) { let n = 9 + r.below(30); let mut t = String::new(); for _ in 0..n { t.push((b'0' + r.below(10) as u8) as char); } format!("{}{t}", *r.pick(&["", "+", "-"])) }
        else if r.chance(1, 60) { format!("{}{}", *r.pick(&["", "+", "-"]), *r.pick(&["4294967295", "4294967296", "4294967299", "2147483647", "2147483648", "2147483649", "42949672950", "42949672959", "99999999999", "18446744073709551615", "18446744073709551616"])) }
        else { format!("{}{}{}", if p < 0 { "-" } else if r.bool() { "+" } else { "" }, "0".repeat(if r.chance(1, 10) { 1 + r.below(15) as usize } else { 0 }), p.abs()) };
    format!("{}0{}{body}{}{es}", r.pick(&["", "", "+", "-"]), if r.chance(1, 5) { "X" } else { "x" }, if r.chance(1, 5) { "P" } else { "p" })
}
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.len() > 60 { let n = c.len(); c.drain(20..n - 20); }
    const AL: &[char] = &['0', 'x', 'X', '.', 'p', 'P', '+', '-', 'g', 'G', ' ', '_', 'e', 'f', '9', 'i', 'n', 'a', '\0', 'é', '\u{ff10}', '/', ':', '@', '`', 'n', 'F'];
    for _ in 0..1 + r.below(3) {
        let p = r.below(c.len() as u64 + 1) as usize;
        match r.below(5) {
            0 if p < c.len() => { c.remove(p); }
            1 => c.insert(p, *r.pick(AL)),
            2 if p < c.len() => c[p] = *r.pick(AL),
            3 => c.truncate(p),
            _ => { let q = r.below(c.len() as u64 + 1) as usize; if p < c.len() && q < c.len() { c.swap(p, q); } }
        }
    }
    c.into_iter().collect()
}
fn format_of(r: &mut Rng) -> (u32, u32) {
    if r.chance(4, 5) { return *r.pick(&FORMATS); }
    let sig = 1 + r.below(119) as u32;
    let hi = (sig + 30).min(128);
    (sig + 3 + r.below((hi - sig - 2) as u64) as u32, sig)
}

/// Formatting: the text parses back to the same bits, by the crate's parser and by the reference.
fn fmt_check<F: libm::support::Float>(text: String, b: u128, bits: u32, sig: u32) -> Verdict {
    let ew = bits - 1 - sig;
    let inf = ((1u128 << ew) - 1) << sig;
    let mag = b & ((1 << (bits - 1)) - 1);
    let want = if mag > inf { inf | 1 << (sig - 1) | (b ^ mag) } else { b };
    match parse_any(&text, bits, sig, Round::Nearest) {
        Ok((x, Status::OK)) if x == want => {}
        x => return Err(format!("formats as {text:?}, which parses as {:x?}, expected 0x{want:x}", x.map(|x| x.0).ok())),
    }
    match reference(&text, bits, sig, Round::Zero) {
        Some(p) if p.bits == want && !p.inexact => Ok(mag != 0 && mag < inf),
        p => Err(format!("formats as {text:?}, which means {}, expected 0x{want:x}", show(&p))),
    }
}
fn fmt_any(c: &[V]) -> Verdict {
    let b = c[0].n();
    match c[1].n() {
        16 => { let f = f16::from_bits(b as u16); same_texts(format!("{:x}", Hexf(f)), format!("{}", Hexf(f)), format!("{:?}", Hexf(f)))?; fmt_check::<f16>(format!("{}", Hexf(f)), b & 0xffff, 16, 10) }
        32 => { let f = f32::from_bits(b as u32); same_texts(format!("{:x}", Hexf(f)), format!("{}", Hexf(f)), format!("{:?}", Hexf(f)))?; fmt_check::<f32>(format!("{}", Hexf(f)), b as u32 as u128, 32, 23) }
        64 => { let f = f64::from_bits(b as u64); same_texts(format!("{:x}", Hexf(f)), format!("{}", Hexf(f)), format!("{:?}", Hexf(f)))?; fmt_check::<f64>(format!("{}", Hexf(f)), b as u64 as u128, 64, 52) }
        _ => { let f = f128::from_bits(b); same_texts(format!("{:x}", Hexf(f)), format!("{}", Hexf(f)), format!("{:?}", Hexf(f)))?; fmt_check::<f128>(format!("{}", Hexf(f)), b, 128, 112) }
    }
}
fn same_texts(a: String, b: String, c: String) -> Result<(), String> { if a == b && b == c { Ok(()) } else { Err(format!("formats differ: {a:?} {b:?} {c:?}")) } }
fn fmt_pair(c: &[V]) -> Verdict {
    let (x, y, i) = (f64::from_bits(c[0].n() as u64), f64::from_bits(c[1].n() as u64), c[1].n() as u32 as i32);
    let p = format!("{}", Hexf((x, y)));
    let q = format!("({}, {})", Hexf(x), Hexf(y));
    if p != q { return Err(format!("pair formats as {p}, parts as {q}")); }
    let p = format!("{}", Hexf((x, i)));
    let q = format!("({}, {:x})", Hexf(x), i);
    if p != q { return Err(format!("pair formats as {p}, parts as {q}")); }
    Ok(true)
}

pub fn prop() -> Prop {
    let m = 4_000_000;
    let mut rules = vec![];
    for (bits, sig) in FORMATS {
        rules.push(rule(&format!("literal:f{bits}"), m, 20 * m, move |r| vec![V::S(literal(r, bits, sig)), V::N(bits as u128), V::N(sig as u128), V::N(r.below(4) as u128)], parse_check));
        rules.push(rule(&format!("format:f{bits}"), m / 2, 60 * m, move |r| vec![V::N(crate::floatbits(r, bits, sig)), V::N(bits as u128)], fmt_any).every(if bits == 16 { 65536 } else { 0 }, |i| vec![V::N(i as u128), V::N(16)]));
    }
    rules.push(rule("literal:any", m, 20 * m, |r| { let (b, s) = format_of(r); vec![V::S(literal(r, b, s)), V::N(b as u128), V::N(s as u128), V::N(r.below(4) as u128)] }, parse_check));
    rules.push(rule("unsupported", m / 20, m, |r| vec![V::S("0x1p0".into()), V::N(r.below(140) as u128), V::N(1 + r.below(125) as u128), V::N(0)], parse_check));
    rules.push(rule("malformed", m, 20 * m, |r| { let (b, s) = format_of(r); let l = literal(r, b, s); let l = match r.below(8) { 0 => r.pick(&["inf", "nan", "INF", "-NaN", "+inf", "infinity", "", "-", "0x", "0xp0", "0x.p1", "0x1", "0x1p", "0x1p-", "0x1.0.0p1", "1p0"]).to_string(), _ => l }; vec![V::S(mutate(r, &l)), V::N(b as u128), V::N(s as u128), V::N(r.below(4) as u128)] }, parse_check));
    rules.push(rule("words", 2000, 20000, |r| { let (b, s) = format_of(r); vec![V::S(r.pick(&["inf", "nan", "INF", "-NaN", "+inf", "-inf", "+nAn", "iNf", "0x0p0", "-0x0p0", "0x0.000p99999999999", "-0x.0p-99999999999"]).to_string()), V::N(b as u128), V::N(s as u128), V::N(r.below(4) as u128)] }, parse_check));
    rules.push(rule("pairs", m / 10, 5 * m, |r| vec![V::N(r.u64() as u128), V::N(r.u64() as u128)], fmt_pair));
    Prop { id: "C23", rules, text: "Cases: literals built from significands whose tail is at, just below or just above a rounding boundary, with arbitrary digit counts (to about 300 digits), leading and trailing zeros, point positions, letter case and exponents (around the subnormal, overflow and 32-bit limits and far beyond), in f16, f32, f64, f128 and other formats the parser accepts, in four rounding directions; mutations of such literals; bit patterns formatted and parsed back (f16 exhaustively). Non-trivial: the literal is accepted and its value is not zero; the formatted value is finite and non-zero. Distinct counts are a lower bound from a hash bitmap.",
        assumptions: &["the grammar is the one the parser documents by its error messages: an exponent part is required", "literals of more than 500 million digits are documented as unsupported"] }
}
