//! C25: the Float and Int helpers against models of the encoding and of exact integers.
use crate::eng::*;
use crate::rng::*;
use libm::support::{CastFrom, CastInto, DFloat, DInt, Float, HFloat, HInt, Int, MinInt};
use rug::Integer;

macro_rules! want { ($what:expr, $got:expr, $want:expr) => { { let (g, w) = ($got, $want); if g != w { return Err(format!("{} gives {g:x?}, expected {w:x?}", $what)); } } } }

/// What a float format is, for the model.
struct Fm { bits: u32, sig: u32 }
impl Fm {
    fn ew(&self) -> u32 { self.bits - 1 - self.sig }
    fn bias(&self) -> i32 { (1 << (self.ew() - 1)) - 1 }
    fn inf(&self) -> u128 { ((1 << self.ew()) - 1) << self.sig }
    fn sign(&self) -> u128 { 1 << (self.bits - 1) }
}

macro_rules! float_rule {
    ($f:ident, $u:ident, $i:ident, $bits:expr, $sig:expr, $fma:tt) => {{
        fn consts(_: &[V]) -> Verdict {
            let m = Fm { bits: $bits, sig: $sig };
            want!("BITS SIG_BITS EXP_BITS", (<$f as Float>::BITS, <$f as Float>::SIG_BITS, <$f as Float>::EXP_BITS), (m.bits, m.sig, m.ew()));
            want!("EXP_SAT EXP_BIAS EXP_MAX EXP_MIN EXP_MIN_SUBNORM", (<$f as Float>::EXP_SAT, <$f as Float>::EXP_BIAS, <$f as Float>::EXP_MAX, <$f as Float>::EXP_MIN, <$f as Float>::EXP_MIN_SUBNORM), ((1 << m.ew()) - 1, m.bias() as u32, m.bias(), 1 - m.bias(), 1 - m.bias() - m.sig as i32));
            want!("masks", (<$f as Float>::SIGN_MASK as u128, <$f as Float>::SIG_MASK as u128, <$f as Float>::EXP_MASK as u128, <$f as Float>::IMPLICIT_BIT as u128), (m.sign(), (1 << m.sig) - 1, m.inf(), 1 << m.sig));
            let b = |x: $f| x.to_bits() as u128;
            let one = (m.bias() as u128) << m.sig;
            want!("ZERO NEG_ZERO ONE NEG_ONE", (b(<$f as Float>::ZERO), b(<$f as Float>::NEG_ZERO), b(<$f as Float>::ONE), b(<$f as Float>::NEG_ONE)), (0, m.sign(), one, one | m.sign()));
            want!("INFINITY NEG_INFINITY MAX MIN", (b(<$f as Float>::INFINITY), b(<$f as Float>::NEG_INFINITY), b(<$f as Float>::MAX), b(<$f as Float>::MIN)), (m.inf(), m.inf() | m.sign(), m.inf() - 1, (m.inf() - 1) | m.sign()));
            want!("MIN_POSITIVE_NORMAL EPSILON", (b(<$f as Float>::MIN_POSITIVE_NORMAL), b(<$f as Float>::EPSILON)), (1 << m.sig, one - ((m.sig as u128) << m.sig)));
            want!("NAN is a NaN", (b(<$f as Float>::NAN) & !m.sign() > m.inf(), b(<$f as Float>::NEG_NAN) & !m.sign() > m.inf(), b(<$f as Float>::NEG_NAN) & m.sign() != 0), (true, true, true));
            let pi = rug::Float::with_val(m.sig + 1, rug::float::Constant::Pi);
            let k = pi.to_integer_exp().unwrap(); // integer, exponent
            let e = k.0.significant_bits() as i32 - 1 + k.1;
            let pib = ((e + m.bias()) as u128) << m.sig | (Integer::from(&k.0 << (m.sig + 1 - k.0.significant_bits())).to_u128().unwrap() & ((1 << m.sig) - 1));
            want!("PI NEG_PI FRAC_PI_2", (b(<$f as Float>::PI), b(<$f as Float>::NEG_PI), b(<$f as Float>::FRAC_PI_2)), (pib, pib | m.sign(), pib - (1 << m.sig)));
            Ok(true)
        }
        fn check(c: &[V]) -> Verdict {
            let m = Fm { bits: $bits, sig: $sig };
            let (a, d) = (c[0].n() as $u, c[1].n() as $u);
            let (x, y) = (<$f>::from_bits(a), <$f>::from_bits(d));
            let (ua, ud) = (a as u128, d as u128);
            let mag = ua & !m.sign();
            let magd = ud & !m.sign();
            let (nan, nand) = (mag > m.inf(), magd > m.inf());
            want!("to_bits", Float::to_bits(x) as u128, ua);
            want!("to_bits_signed", Float::to_bits_signed(x) as $u as u128, ua);
            want!("from_bits", <$f as Float>::from_bits(a).to_bits() as u128, ua);
            want!("biteq", Float::biteq(x, y), ua == ud);
            want!("eq_repr", Float::eq_repr(x, y), (nan && nand) || ua == ud);
            want!("is_nan", Float::is_nan(x), nan);
            want!("is_infinite", Float::is_infinite(x), mag == m.inf());
            want!("is_sign_negative", Float::is_sign_negative(x), ua & m.sign() != 0);
            want!("is_sign_positive", Float::is_sign_positive(x), ua & m.sign() == 0);
            want!("is_subnormal", Float::is_subnormal(x), mag != 0 && mag < 1 << m.sig);
            let ex = (mag >> m.sig) as u32;
            want!("ex", Float::ex(x), ex);
            want!("exp_unbiased", Float::exp_unbiased(x), ex as i32 - m.bias());
            want!("frac", Float::frac(x) as u128, mag & ((1 << m.sig) - 1));
            want!("from_parts(parts)", <$f as Float>::from_parts(Float::is_sign_negative(x), Float::ex(x), Float::frac(x)).to_bits() as u128, ua);
            // arbitrary parts are masked into place
            let pe = c[2].n() as u32;
            want!("from_parts", <$f as Float>::from_parts(ud & 1 != 0, pe, a).to_bits() as u128, ((ud & 1) << (m.bits - 1)) | ((pe as u128) << m.sig & m.inf()) | (ua & ((1 << m.sig) - 1)));
            want!("abs", Float::abs(x).to_bits() as u128, mag);
            want!("copysign", Float::copysign(x, y).to_bits() as u128, mag | (ud & m.sign()));
            let one = (m.bias() as u128) << m.sig;
            want!("signum", Float::signum(x).to_bits() as u128, if nan { ua } else { one | (ua & m.sign()) });
            let fr = a & <$f as Float>::SIG_MASK;
            if fr != 0 {
                // as a subnormal significand: the same value with the leading one in the implicit place
                let (e, s) = <$f as Float>::normalize(fr);
                let lead = 127 - (fr as u128).leading_zeros();
                want!("normalize", (e, s as u128), (1 - (m.sig - lead) as i32, (fr as u128) << (m.sig - lead)));
            }
            float_rule!(@fma $fma $f, x, y, c);
            Ok(mag != 0 && mag < m.inf())
        }
        let (bits, sig) = ($bits, $sig);
        vec![
            rule(&format!("float:f{bits}"), 8_000_000, 300_000_000, move |r| vec![V::N(crate::floatbits(r, bits, sig)), V::N(crate::floatbits(r, bits, sig)), V::N(match r.below(3) { 0 => r.u64() as u32 as u128, 1 => r.below(1 << (bits - 1 - sig)) as u128, _ => 1 << r.below(32) })], check)
                .every(if bits == 16 { 65536 } else { 0 }, |i| vec![V::N(i as u128), V::N((i as u128).wrapping_mul(40503) & 0xffff), V::N(i as u128)]),
            rule(&format!("constants:f{bits}"), 1, 1, |_| vec![], consts),
        ]
    }};
    (@fma yes $f:ident, $x:expr, $y:expr, $c:expr) => {
        // the fused operation is exact where the product is a power-of-two scaling and there is nothing to add
        if $x.is_finite() { let z = Float::fma($x, <$f as Float>::ONE, <$f as Float>::NEG_ZERO); want!("fma(x, 1, -0)", z.to_bits(), $x.to_bits()); let z = Float::fma(<$f as Float>::ONE, $x, -$x); want!("fma(1, x, -x)", z.to_bits(), 0); }
    };
    (@fma no $f:ident, $x:expr, $y:expr, $c:expr) => {};
}

macro_rules! int_rule {
    ($t:ident, $u:ident, $s:ident, $bits:expr, $signed:tt) => {{
        fn check(c: &[V]) -> Verdict {
            let (a, b) = (c[0].n() as $t, c[1].n() as $t);
            let k = (c[2].n() % $bits) as u32;
            let kw = c[2].n() as u32;
            let (ia, ib) = (Integer::from(a), Integer::from(b));
            let m = Integer::from(1) << $bits;
            let wrap = |v: Integer| -> $t { let mut v = v.modulo(&m); if int_rule!(@signed $signed) && v.get_bit($bits - 1) { v -= &m; } v.to_i128().map(|x| x as $t).unwrap_or_else(|| v.to_u128().unwrap() as $t) };
            let fits = |v: &Integer| Integer::from(wrap(v.clone())) == *v;
            want!("BITS SIGNED", (<$t as MinInt>::BITS, <$t as MinInt>::SIGNED), ($bits, int_rule!(@signed $signed)));
            want!("constants", (<$t as MinInt>::ZERO, <$t as MinInt>::ONE, Integer::from(<$t as MinInt>::MIN), Integer::from(<$t as MinInt>::MAX)), (0, 1, if int_rule!(@signed $signed) { -Integer::from(Integer::from(1) << ($bits - 1)) } else { Integer::new() }, if int_rule!(@signed $signed) { Integer::from(Integer::from(1) << ($bits - 1)) - 1 } else { m.clone() - 1 }));
            want!("signed", Int::signed(a), a as $s);
            want!("unsigned", Int::unsigned(a), a as $u);
            want!("from_unsigned", <$t as Int>::from_unsigned(a as $u), a);
            int_rule!(@abs $signed $t, a);
            want!("from_bool", (<$t as Int>::from_bool(true), <$t as Int>::from_bool(false)), (1, 0));
            want!("logical_shr", Int::logical_shr(a, kw), ((a as $u) >> (kw % $bits)) as $t);
            want!("abs_diff", Integer::from(Int::abs_diff(a, b)), Integer::from(&ia - &ib).abs());
            want!("is_zero", Int::is_zero(a), a == 0);
            let (sum, dif) = (Integer::from(&ia + &ib), Integer::from(&ia - &ib));
            want!("checked_add", Int::checked_add(a, b), if fits(&sum) { Some(wrap(sum.clone())) } else { None });
            want!("checked_sub", Int::checked_sub(a, b), if fits(&dif) { Some(wrap(dif.clone())) } else { None });
            want!("overflowing_add", Int::overflowing_add(a, b), (wrap(sum.clone()), !fits(&sum)));
            want!("overflowing_sub", Int::overflowing_sub(a, b), (wrap(dif.clone()), !fits(&dif)));
            want!("wrapping_add", Int::wrapping_add(a, b), wrap(sum));
            want!("wrapping_sub", Int::wrapping_sub(a, b), wrap(dif));
            want!("wrapping_mul", Int::wrapping_mul(a, b), wrap(Integer::from(&ia * &ib)));
            want!("wrapping_neg", Int::wrapping_neg(a), wrap(Integer::from(-&ia)));
            want!("wrapping_shl", Int::wrapping_shl(a, kw), wrap(Integer::from(&ia << (kw % $bits))));
            want!("wrapping_shr", Int::wrapping_shr(a, kw), wrap(Integer::from(&ia >> (kw % $bits))));
            want!("rotate_left", Int::rotate_left(a, k) as $u, if k == 0 { a as $u } else { (a as $u) << k | (a as $u) >> ($bits - k) });
            let lz = { let v = wrap_u(&ia, $bits); $bits - v.significant_bits() };
            want!("leading_zeros", Int::leading_zeros(a), lz);
            if a > 0 { want!("ilog2", Int::ilog2(a), ia.significant_bits() - 1); }
            Ok(a != 0 && b != 0)
        }
        let mut v = vec![rule(concat!("int:", stringify!($t)), 2_000_000, 100_000_000, |r| vec![V::N(int(r, $bits)), V::N(int(r, $bits)), V::N(if r.bool() { r.below($bits) as u128 } else { r.u64() as u32 as u128 })], check)];
        if $bits == 8 { let q = v.pop().unwrap(); v.push(q.every(1 << 16, |i| vec![V::N((i & 255) as u128), V::N((i >> 8) as u128), V::N((i % 11) as u128)])); }
        v
    }};
    (@signed yes) => { true };
    (@signed no) => { false };
    (@abs yes $t:ident, $a:expr) => { if $a != $t::MIN { want!("abs", Integer::from(Int::abs($a)), Integer::from($a).abs()); } };
    (@abs no $t:ident, $a:expr) => {};
}
fn wrap_u(v: &Integer, bits: u32) -> Integer { v.clone().modulo(&(Integer::from(1) << bits)) }
fn int(r: &mut Rng, bits: u32) -> u128 {
    let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    m & match r.below(8) { 0 => 0, 1 => m, 2 => 1u128 << r.below(bits as u64), 3 => (1u128 << r.below(bits as u64)) - 1, 4 => !(1u128 << r.below(bits as u64)), 5 => (1u128 << (bits - 1)).wrapping_add(r.below(5) as u128).wrapping_sub(2), 6 => r.u128() & m >> r.below(bits as u64), _ => r.u128() }
}

/// Narrow and double-width pairs.
macro_rules! wide_rule {
    ($h:ident, $uh:ident, $d:ident, $hb:expr) => {{
        fn check(c: &[V]) -> Verdict {
            let (a, b) = (c[0].n() as $h, c[1].n() as $h);
            let w = c[2].n() as $d;
            want!("widen", Integer::from(HInt::widen(a)), Integer::from(a));
            want!("zero_widen", Integer::from(HInt::zero_widen(a)), Integer::from(a as $uh));
            let wr = |v: Integer| wrap_u(&v, 2 * $hb);
            want!("widen_hi", wr(Integer::from(HInt::widen_hi(a))), wr(Integer::from(a) << $hb));
            want!("zero_widen_mul", wr(Integer::from(HInt::zero_widen_mul(a, b))), wr(Integer::from(a as $uh) * Integer::from(b as $uh)));
            want!("widen_mul", Integer::from(HInt::widen_mul(a, b)), Integer::from(a) * Integer::from(b));
            let (lo, hi) = (wrap_u(&Integer::from(w), $hb), Integer::from(w) >> $hb);
            want!("lo", wrap_u(&Integer::from(DInt::lo(w)), $hb), lo);
            want!("hi", Integer::from(DInt::hi(w)), hi);
            want!("lo_hi", DInt::lo_hi(w), (DInt::lo(w), DInt::hi(w)));
            want!("from_lo_hi", <$d as DInt>::from_lo_hi(DInt::lo(w), DInt::hi(w)), w);
            Ok(a != 0 && b != 0)
        }
        let r = rule(concat!("wide:", stringify!($h)), 1_000_000, 60_000_000, |r| vec![V::N(int(r, $hb)), V::N(int(r, $hb)), V::N(int(r, 2 * $hb))], check);
        if $hb == 8 { r.every(1 << 16, |i| vec![V::N((i & 255) as u128), V::N((i >> 8) as u128), V::N(i as u128)]) } else { r }
    }};
}

/// Casts: exact ones keep the value, lossy ones truncate, inexact ones in checked builds panic.
macro_rules! cast_rule {
    ($from:ident; $($to:ident),*) => {{
        fn check(c: &[V]) -> Verdict {
            let a = c[0].n() as $from;
            $(
                let tb = $to::BITS;
                let v = Integer::from(a);
                let mut t = wrap_u(&v, tb);
                if $to::MIN != 0 && t.get_bit(tb - 1) { t -= Integer::from(1) << tb; }
                let l: $to = CastInto::<$to>::cast_lossy(a);
                want!(concat!("cast_lossy to ", stringify!($to)), Integer::from(l), t.clone());
                want!(concat!("cast_from_lossy to ", stringify!($to)), <$to as CastFrom<$from>>::cast_from_lossy(a), l);
                if t == v {
                    want!(concat!("cast to ", stringify!($to)), CastInto::<$to>::cast(a), l);
                    want!(concat!("cast_from to ", stringify!($to)), <$to as CastFrom<$from>>::cast_from(a), l);
                }
            )*
            Ok(a != 0)
        }
        rule(concat!("cast:", stringify!($from)), 400_000, 20_000_000, |r| vec![V::N(int(r, $from::BITS))], check)
    }};
}
macro_rules! fcast_rule {
    ($from:ident; $($to:ident $p:expr, $sig:expr, $bits:expr;)*) => {{
        fn check(c: &[V]) -> Verdict {
            let a = c[0].n() as $from;
            $(
                // round to nearest even by an independent computation
                let v = Integer::from(a);
                let m = Fm { bits: $bits, sig: $sig };
                let n = v.clone().abs();
                let mut want = 0u128;
                if n != 0 {
                    let mut e = n.significant_bits() as i32 - 1;
                    let mut k = n.clone();
                    if e > $sig { let sh = (e - $sig) as u32; let q = Integer::from(&n >> sh); let rem = n.clone() - Integer::from(&q << sh); let half = Integer::from(1) << (sh - 1); k = q; if rem > half || (rem == half && k.is_odd()) { k += 1; } if k.significant_bits() > $sig + 1 { k >>= 1; e += 1; } } else { k <<= ($sig - e) as u32; }
                    want = if e > m.bias() { m.inf() } else { ((e + m.bias()) as u128) << $sig | (k.to_u128().unwrap() & ((1u128 << $sig) - 1)) };
                }
                if v < 0 { want |= m.sign(); }
                let l: $to = CastInto::<$to>::cast_lossy(a);
                want!(concat!("cast_lossy to ", stringify!($to)), l.to_bits() as u128, want);
                want!(concat!("cast_from_lossy to ", stringify!($to)), <$to as CastFrom<$from>>::cast_from_lossy(a).to_bits() as u128, want);
                if n.significant_bits() <= $sig + 1 && want & !m.sign() < m.inf() { want!(concat!("cast to ", stringify!($to)), CastInto::<$to>::cast(a).to_bits() as u128, want); }
            )*
            Ok(a != 0)
        }
        rule(concat!("fcast:", stringify!($from)), 400_000, 20_000_000, |r| vec![V::N(int(r, $from::BITS))], check)
    }};
}

/// Widening a float keeps the value; narrowing rounds to nearest even.
fn widen_check(c: &[V]) -> Verdict {
    fn num(b: u128, m: &Fm) -> Option<rug::Float> {
        let mag = b & !m.sign();
        if mag >= m.inf() { return None; }
        let (e, f) = ((mag >> m.sig) as i32, mag & ((1 << m.sig) - 1));
        let mut v = rug::Float::with_val(200, if e == 0 { f } else { f | 1 << m.sig });
        v <<= e.max(1) - m.bias() - m.sig as i32;
        if b & m.sign() != 0 { v = -v; }
        Some(v)
    }
    fn round(v: &rug::Float, m: &Fm) -> u128 {
        if v.is_zero() { return 0; }
        let a = v.clone().abs();
        let e = a.get_exp().unwrap() - 1;
        let q = (e - m.sig as i32).max(1 - m.bias() - m.sig as i32);
        let k = (a >> q).to_integer_round(rug::float::Round::Nearest).unwrap().0;
        let k = k.to_u128().unwrap();
        let r = if k >> m.sig == 0 { k } else { (((q + m.sig as i32 + m.bias()) as u128) << m.sig) + (k - (1 << m.sig)) };
        r.min(m.inf())
    }
    let (h, f, d, q) = (Fm { bits: 16, sig: 10 }, Fm { bits: 32, sig: 23 }, Fm { bits: 64, sig: 52 }, Fm { bits: 128, sig: 112 });
    macro_rules! one { ($n:ident, $nm:expr, $nb:ident, $w:ident, $wm:expr, $wb:ident, $x:expr, $y:expr) => {{
        let x = <$n>::from_bits($x as $nb);
        let wide = HFloat::widen(x).to_bits() as u128;
        match num($x as $nb as u128, $nm) {
            Some(v) => { want!(concat!("widen ", stringify!($n)), num(wide, $wm), Some(v.clone())); want!("sign", wide & $wm.sign() != 0, $x as $nb as u128 & $nm.sign() != 0); }
            None => want!(concat!("widen ", stringify!($n)), (wide & !$wm.sign() == $wm.inf(), wide & !$wm.sign() > $wm.inf()), ($x as $nb as u128 & !$nm.sign() == $nm.inf(), $x as $nb as u128 & !$nm.sign() > $nm.inf())),
        }
        let y = $y as $wb as u128;
        let nar = DFloat::narrow(<$w>::from_bits($y as $wb)).to_bits() as u128;
        match num(y, $wm) {
            Some(v) => want!(concat!("narrow ", stringify!($w)), nar, round(&v, $nm) | if y & $wm.sign() != 0 { $nm.sign() } else { 0 }),
            None => want!(concat!("narrow ", stringify!($w)), (nar & !$nm.sign() == $nm.inf(), nar & !$nm.sign() > $nm.inf()), (y & !$wm.sign() == $wm.inf(), y & !$wm.sign() > $wm.inf())),
        }
    }}; }
    one!(f16, &h, u16, f32, &f, u32, c[0].n(), c[1].n());
    one!(f32, &f, u32, f64, &d, u64, c[1].n(), c[2].n());
    one!(f64, &d, u64, f128, &q, u128, c[2].n(), c[3].n());
    Ok(true)
}

pub fn prop() -> Prop {
    let mut rules: Vec<Rule> = vec![];
    rules.extend(float_rule!(f16, u16, i16, 16, 10, no));
    rules.extend(float_rule!(f32, u32, i32, 32, 23, yes));
    rules.extend(float_rule!(f64, u64, i64, 64, 52, yes));
    rules.extend(float_rule!(f128, u128, i128, 128, 112, yes));
    rules.extend(int_rule!(u8, u8, i8, 8, no));
    rules.extend(int_rule!(i8, u8, i8, 8, yes));
    rules.extend(int_rule!(u16, u16, i16, 16, no));
    rules.extend(int_rule!(i16, u16, i16, 16, yes));
    rules.extend(int_rule!(u32, u32, i32, 32, no));
    rules.extend(int_rule!(i32, u32, i32, 32, yes));
    rules.extend(int_rule!(u64, u64, i64, 64, no));
    rules.extend(int_rule!(i64, u64, i64, 64, yes));
    rules.extend(int_rule!(u128, u128, i128, 128, no));
    rules.extend(int_rule!(i128, u128, i128, 128, yes));
    rules.extend(int_rule!(usize, usize, isize, 64, no));
    rules.extend(int_rule!(isize, usize, isize, 64, yes));
    rules.push(wide_rule!(u8, u8, u16, 8));
    rules.push(wide_rule!(u16, u16, u32, 16));
    rules.push(wide_rule!(u32, u32, u64, 32));
    rules.push(wide_rule!(u64, u64, u128, 64));
    rules.push(wide_rule!(i8, u8, i16, 8));
    rules.push(wide_rule!(i16, u16, i32, 16));
    rules.push(wide_rule!(i32, u32, i64, 32));
    rules.push(wide_rule!(i64, u64, i128, 64));
    macro_rules! casts { ($($t:ident)*) => { $(rules.push(cast_rule!($t; usize, isize, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128));)* } }
    casts!(usize isize u8 i8 u16 i16 u32 i32 u64 i64 u128 i128);
    macro_rules! fcasts { ($($t:ident)*) => { $(rules.push(fcast_rule!($t; f16 11, 10, 16; f32 24, 23, 32; f64 53, 52, 64; f128 113, 112, 128;));)* } }
    fcasts!(i8 i16 i32 i64 i128);
    rules.push(rule("widths", 600_000, 60_000_000, |r| {
        let mut v: Vec<u128> = vec![crate::floatbits(r, 16, 10), crate::floatbits(r, 32, 23), crate::floatbits(r, 64, 52), crate::floatbits(r, 128, 112)];
        // values of the wide format that are near ties of the narrow one
        for (i, n, w, ns, ws, nb, wb) in [(1usize, 0usize, 1usize, 10u32, 23u32, 15i32, 127i32), (2, 1, 2, 23, 52, 127, 1023), (3, 2, 3, 52, 112, 1023, 16383)] {
            let _ = (n, w);
            if r.bool() {
                let e = r.range((-nb - ns as i64 as i32 - 2) as i64, (nb + 1) as i64) as i32;
                let f = (r.u128() & ((1 << ns) - 1)) << (ws - ns);
                let lost = (ws - ns) as i32 + (1 - nb - e).max(0);
                let t = if lost <= ws as i32 { 1u128 << (lost - 1).max(0) } else { 0 };
                let f = match r.below(4) { 0 => f | t, 1 => (f | t) + 1, 2 => (f | t).wrapping_sub(1), _ => f } & ((1 << ws) - 1);
                let f = if lost > (ws - ns) as i32 && lost <= ws as i32 { (f >> lost << lost) | match r.below(3) { 0 => t, 1 => t + 1, _ => t - 1 } } else { f };
                v[i] = ((e + wb) as u128) << ws | f;
                if r.bool() { v[i] |= 1 << (match i { 1 => 31, 2 => 63, _ => 127 }); }
            }
        }
        v.into_iter().map(V::N).collect()
    }, widen_check));
    Prop { id: "C25", rules, text: "Cases: bit patterns of each float format (f16 exhaustively) with structured exponents and significands, and arbitrary parts to rebuild from; operand pairs of each integer width (8-bit exhaustively) with structured bit patterns and shift amounts; casts between all widths and to floats; values of the wide formats around ties of the narrow ones. Each case evaluates all helpers of its kind. Non-trivial: the float is finite and non-zero, the integers are not zero. Distinct counts are a lower bound from a hash bitmap.",
        assumptions: &["the f16 fused multiply-add of the trait and the absolute value of unsigned integers are declared unimplemented and excluded", "an inexact `cast` is a caller error that only debug builds check"] }
}
