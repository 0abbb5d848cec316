//! Input generators. Everything is drawn from the `Rng` handed in.
use crate::api::*;
use crate::mine::{Dict, Words, words};
use crate::rng::Rng;
use rug::Float;

pub struct Dom { pub e: (i32, i32), pub lin: &'static [(f64, f64)] }

/// Where the function does something other than saturate, per base name (f64 numbers; f32 clamps).
pub fn domain(base: &str, ty: Ty) -> Dom {
    let emax = ty.bias();
    let emin = -ty.bias() - ty.mb() as i32;
    let s = ty == Ty::F32;
    let (e, lin): ((i32, i32), &'static [(f64, f64)]) = match base {
        "sin" | "cos" | "tan" | "sincos" => ((-32, emax), &[(-10., 10.), (-1000., 1000.), (-3e6, 3e6), (-0.8, 0.8)]),
        "asin" | "acos" => ((-60, 0), &[(-1., 1.), (0.4, 0.6), (0.9, 1.0), (-1.0, -0.9)]),
        "atanh" => ((-60, 0), &[(-1., 1.), (0.9, 1.0)]),
        "atan" => ((-60, 70), &[(-3., 3.), (0., 1.)]),
        "exp" => if s { ((-30, 7), &[(-104., 89.), (-1., 1.), (-104., -87.), (88., 89.)]) } else { ((-60, 10), &[(-746., 710.), (-1., 1.), (-746., -708.), (709., 710.)]) },
        "exp2" => if s { ((-30, 8), &[(-151., 129.), (-1., 1.), (-150., -126.)]) } else { ((-60, 11), &[(-1076., 1025.), (-1., 1.), (-1076., -1022.)]) },
        "exp10" => if s { ((-30, 6), &[(-46., 39.), (-1., 1.), (-46., -37.)]) } else { ((-60, 9), &[(-324., 309.), (-1., 1.), (-324., -307.)]) },
        "expm1" => if s { ((-40, 7), &[(-20., 89.), (-1., 1.), (-0.4, 0.4), (88., 89.)]) } else { ((-70, 10), &[(-40., 710.), (-1., 1.), (-0.4, 0.4), (709., 710.)]) },
        "log" | "log2" | "log10" => ((emin, emax), &[(0.5, 2.), (0.9, 1.1), (0., 10.), (0.99, 1.01)]),
        "log1p" => ((-70, emax), &[(-1., 1.), (-0.5, 0.5), (-1.0, -0.9), (0., 10.)]),
        "cosh" | "sinh" => if s { ((-30, 7), &[(-90., 90.), (-1., 1.), (88., 90.), (-10., 10.), (-90., -88.)]) } else { ((-60, 10), &[(-711., 711.), (-1., 1.), (709., 711.), (-25., 25.), (-711., -709.)]) },
        "tanh" => ((-60, 6), &[(-22., 22.), (-1., 1.)]),
        "asinh" => ((-60, emax), &[(-3., 3.), (-100., 100.)]),
        "acosh" => ((0, emax), &[(1., 2.), (1., 1.2), (1., 100.), (-10., 1.)]),
        "cbrt" | "sqrt" => ((emin, emax), &[(0., 10.)]),
        "erf" => ((-60, 4), &[(-6.1, 6.1), (-1.3, 1.3)]),
        "erfc" => ((-60, 5), &[(-6.1, 28.), (-1.3, 1.3), (25., 28.), (0., 11.)]),
        "tgamma" => if s { ((-60, 7), &[(-44., 36.), (0., 3.), (-5., 0.), (34., 36.)]) } else { ((-60, 8), &[(-185., 172.), (0., 3.), (-5., 0.), (170., 172.), (-185., -165.)]) },
        "lgamma" | "lgamma_r" => ((-70, emax), &[(0., 10.), (0., 3.), (-10., 0.), (-60., 0.), (0., 300.), (1.9, 2.1), (0.9, 1.1)]),
        "jn" | "yn" => ((-30, 17), &[(0., 10.), (-10., 10.), (0., 100.), (-1000., 1000.), (0., 1e5)]),
        "j0" | "j1" | "y0" | "y1" => ((-30, emax), &[(0., 10.), (-10., 10.), (0., 100.), (-1000., 1000.), (0., 1e5)]),
        _ => ((emin, emax), &[(-10., 10.), (-1000., 1000.)]),
    };
    Dom { e: (e.0.max(emin), e.1.min(emax)), lin }
}

/// A mantissa field with structure.
pub fn mantissa(r: &mut Rng, ty: Ty) -> u128 {
    let mb = ty.mb() as u64;
    let m = match r.below(10) {
        0..=4 => r.u128(),
        5 => { let k = r.below(mb + 1); (r.u128() << (mb - k)) & ty.man_mask() }
        6 => { let mut v = 0; for _ in 0..r.below(4) { v |= 1u128 << r.below(mb); } v }
        7 => { let k = r.below(mb + 1); ty.man_mask() ^ ((1u128 << k) - 1) }
        8 => { let k = r.below(mb + 1); (1u128 << k) - 1 }
        _ => { let k = r.below(mb + 1); let v = r.u128() & ((1u128 << k) - 1); if r.bool() { v } else { !v } }
    };
    m & ty.man_mask()
}
pub fn strat(r: &mut Rng, ty: Ty, lo: i32, hi: i32) -> u128 {
    let e = r.range(lo as i64, hi as i64) as i32;
    let m = mantissa(r, ty);
    ty.build(r.bool(), e, m)
}
pub fn specials(ty: Ty) -> Vec<u128> {
    let mut v = vec![0, 1, 2, 3, ty.min_normal() - 1, ty.min_normal(), ty.min_normal() + 1, ty.one() - 1, ty.one(), ty.one() + 1, ty.max() - 1, ty.max(), ty.inf(),
        ty.nan(), ty.inf() | 1, ty.inf() | ty.man_mask(), ty.nan() | 1];
    for x in [0.5, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 10.0, 0.25, 0.75, 100.0, 1000.0] { v.push(ty.from_f64(x)); v.push(ty.from_f64(x) - 1); v.push(ty.from_f64(x) + 1); }
    for k in [ty.mb() as i32 - 1, ty.mb() as i32, ty.mb() as i32 + 1, 31, 32, 63, 64] { if k < ty.bias() { v.push(ty.build(false, k, 0)); v.push(ty.build(false, k, 0) - 1); v.push(ty.build(false, k, 1)); } }
    let n: Vec<u128> = v.iter().map(|b| ty.neg(*b)).collect();
    v.extend(n);
    v
}
/// A short decimal fraction, k / 10^j, rounded to the format; sometimes rounded to a narrower format first.
pub fn decimal(r: &mut Rng, ty: Ty) -> u128 {
    let j = r.below(7) as i32;
    let k = (r.u64() >> (64 - 1 - r.below(24))) as f64;
    let mut x = k / 10f64.powi(j);
    if r.chance(1, 4) { x = x as f32 as f64; }
    let v = ty.from_f64(x);
    if r.bool() { v } else { ty.neg(v) }
}
/// A general value of the format.
pub fn val(r: &mut Rng, ty: Ty, w: &Words) -> u128 {
    match r.below(16) {
        0..=2 => r.u128() & ty.mask(),
        3..=6 => strat(r, ty, -ty.bias() - ty.mb() as i32, ty.bias()),
        7..=9 => strat(r, ty, -(ty.mb() as i32) - 6, ty.mb() as i32 + 6),
        10 => { let k = r.range(-3, 3) as i128; let b = w.pick(r); let b = if r.bool() { b } else { ty.neg(b) }; ty.step(b, k) }
        11 => *r.pick(&specials_cache(ty)),
        12 => { // integers, halves and their neighbours
            let k = r.below(ty.mb() as u64 + 2) as u32;
            let i = (r.u64() >> 1) as u128 & ((1u128 << k.min(62)) - 1);
            let v = int_plus(ty, i, r.below(4) as u32);
            let v = ty.step(v, r.range(-2, 2) as i128);
            if r.bool() { v } else { ty.neg(v) }
        }
        13 => { // subnormals
            let k = r.below(ty.mb() as u64 + 1); let v = r.u128() & ((1u128 << k) - 1); if r.bool() { v } else { ty.neg(v) }
        }
        14 => if r.bool() { strat(r, ty, -4, 4) } else { decimal(r, ty) },
        _ => { let near = if r.bool() { ty.bias() } else { 1 - ty.bias() }; strat(r, ty, near - 3, near + 3) }
    }
}
fn specials_cache(ty: Ty) -> &'static Vec<u128> {
    use std::sync::OnceLock;
    static C: [OnceLock<Vec<u128>>; 4] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let i = match ty { Ty::F16 => 0, Ty::F32 => 1, Ty::F64 => 2, Ty::F128 => 3 };
    C[i].get_or_init(|| specials(ty))
}
/// i + q/4 in the format (truncated to its precision).
pub fn int_plus(ty: Ty, i: u128, q: u32) -> u128 {
    let v = (i << 2) | q as u128;
    if v == 0 { return 0; }
    let top = 127 - v.leading_zeros();
    let man = if top <= ty.mb() { v << (ty.mb() - top) } else { v >> (top - ty.mb()) };
    ty.build(false, top as i32 - 2, man)
}

/// A float argument near the function's interesting points.
pub struct Gen { pub f: &'static FnInfo, pub w: Words, pub dom: Dom, pub trig: Vec<u128> }

impl Gen {
    pub fn new(f: &'static FnInfo, d: &Dict) -> Gen {
        let trig = if matches!(f.base, "sin" | "cos" | "tan" | "sincos" | "j0" | "j1" | "y0" | "y1") { trig_hard(f.ty) } else { vec![] };
        Gen { f, w: words(d, f), dom: domain(f.base, f.ty), trig }
    }
    pub fn unary_arg(&self, r: &mut Rng) -> u128 {
        let ty = self.f.ty;
        match r.below(32) {
            0..=1 => r.u128() & ty.mask(),
            2..=8 => strat(r, ty, self.dom.e.0, self.dom.e.1),
            9..=16 => { // uniform in a window
                let (a, b) = *r.pick(self.dom.lin);
                let x = a + (b - a) * r.unit();
                let mut v = ty.from_f64(x);
                if ty == Ty::F128 { v ^= r.u64() as u128; }
                match r.below(8) { 0 => v & !((1u128 << (ty.mb() / 2)) - 1), 1 => v | ((1u128 << (ty.mb() / 2)) - 1), _ => v }
            }
            17 => decimal(r, ty),
            18..=20 => { // around a constant: c (1 +- 2^-k t)
                let c = self.w.pick(r);
                self.around(r, c)
            }
            21..=23 => { let c = self.w.pick(r); let v = ty.step(c, r.range(-4, 4) as i128); if r.bool() { v } else { ty.neg(v) } }
            24 => { // constant as high word
                if ty == Ty::F64 && !self.w.hi.is_empty() {
                    let h = *r.pick(&self.w.hi) as u32 as i64 + r.range(-1, 1);
                    let lo = match r.below(4) { 0 => 0, 1 => u32::MAX as u64, _ => r.u64() & 0xffffffff };
                    let v = ((h as u32 as u64) << 32 | lo) as u128;
                    if r.bool() { v } else { ty.neg(v) }
                } else { let c = self.w.pick(r); self.around(r, c) }
            }
            25..=26 => { // around small integers, halves, powers of two, one
                let c = match r.below(4) { 0 => ty.one(), 1 => { let e = r.range(self.dom.e.0 as i64, self.dom.e.1 as i64) as i32; ty.build(false, e, 0) }
                    _ => { let lim = if r.bool() { 8 } else { 200 }; int_plus(ty, r.below(lim) as u128, r.below(4) as u32) } };
                if r.chance(1, 3) { let v = ty.step(c, r.range(-3, 3) as i128); if r.bool() { v } else { ty.neg(v) } } else { self.around(r, c) }
            }
            27 => { // sqrt(2)^n and friends times powers of two
                let c = [std::f64::consts::SQRT_2, std::f64::consts::PI, std::f64::consts::LN_2, std::f64::consts::E, 4.0 / 3.0][r.below(5) as usize];
                let e = r.range(self.dom.e.0.max(-1000) as i64, self.dom.e.1.min(1000) as i64) as i32;
                let c = ty.build(false, e, ty.from_f64(c));
                if r.bool() { let v = ty.step(c, r.range(-3, 3) as i128); if r.bool() { v } else { ty.neg(v) } } else { self.around(r, c) }
            }
            28 => *r.pick(specials_cache(ty)),
            _ => {
                if !self.trig.is_empty() && r.chance(2, 3) {
                    let c = *r.pick(&self.trig);
                    let v = ty.step(c, if r.bool() { 0 } else { r.range(-2, 2) as i128 });
                    if r.bool() { v } else { ty.neg(v) }
                } else if !self.trig.is_empty() { // k * pi/4 rounded
                    let k = (r.u64() >> (11 + r.below(53))) as f64;
                    let v = ty.from_f64(k * std::f64::consts::FRAC_PI_4);
                    let v = ty.step(v, r.range(-2, 2) as i128);
                    if r.bool() { v } else { ty.neg(v) }
                } else { strat(r, ty, self.dom.e.0, self.dom.e.1) }
            }
        }
    }
    fn around(&self, r: &mut Rng, c: u128) -> u128 {
        let ty = self.f.ty;
        let span = ty.mb() as u64 + 1;
        let k = r.below(span);
        let d = (1i128 << k) + (r.u128() & ((1u128 << k) - 1)) as i128;
        let v = ty.step(c, if r.bool() { d } else { -d });
        if r.bool() { v } else { ty.neg(v) }
    }
    /// i32 argument for scaling functions, aware of x.
    fn scale_n(&self, r: &mut Rng, x: u128) -> i32 {
        let ty = self.f.ty;
        let a = ty.abs(x);
        let e = if a == 0 || a >= ty.inf() { 0 } else { crate::oracle::norm(ty, a).0 };
        let (emin, emax, mb) = (1 - ty.bias(), ty.bias(), ty.mb() as i32);
        match r.below(12) {
            0 => r.u64() as i32,
            1 => r.range(-6, 6) as i32,
            2 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 1, -1]),
            3..=7 => r.range((emin - mb - 3) as i64, (emin + 3) as i64) as i32 - e,
            8 => r.range((emax - 3) as i64, (emax + 3) as i64) as i32 - e,
            9 => { let k = *r.pick(&[emin, emax, 2 * emin, 2 * emax, 3 * emax, 3 * emin, emin - mb, 2 * (emin + mb + 1), emin + mb + 1, 2 * (emin + mb), 3 * (emin + mb)]); k + r.range(-4, 4) as i32 }
            10 => { let v = *r.pick(&self.w.ints) as i32; if r.bool() { v } else { v.wrapping_neg() } }
            _ => r.range((3 * emin) as i64, (3 * emax) as i64) as i32,
        }
    }
    fn bessel_n(&self, r: &mut Rng, x: u128) -> i32 {
        let n = match r.below(8) {
            0..=2 => r.range(0, 10),
            3..=4 => r.range(0, 60),
            5 => { let v = self.f.ty.to_f64(self.f.ty.abs(x)); if v < 1e4 { (v as i64) + r.range(-3, 3) } else { r.range(0, 300) } }
            6 => r.range(0, 300),
            _ => r.range(0, 4000),
        };
        (if r.chance(1, 4) { -n } else { n }) as i32
    }
    pub fn args(&self, r: &mut Rng) -> Args {
        let ty = self.f.ty;
        match self.f.sig {
            Sig::F_F | Sig::F_FF | Sig::F_FI | Sig::F_I => {
                let x = match self.f.base {
                    "ceil" | "floor" | "trunc" | "round" | "roundeven" | "rint" | "fabs" | "modf" | "frexp" | "ilogb" => val(r, ty, &self.w),
                    "sqrt" | "cbrt" => if r.bool() { val(r, ty, &self.w) } else { self.unary_arg(r) },
                    _ => self.unary_arg(r),
                };
                [x, 0, 0]
            }
            Sig::FI_F => { let x = val(r, ty, &self.w); let n = self.scale_n(r, x); [x, n as u32 as u128, 0] }
            Sig::IF_F => {
                let mut x = self.unary_arg(r);
                while ty.is_nan(x) { x = self.unary_arg(r); }
                // the rest of the exponent range: asymptotic forms, underflow and overflow
                if r.chance(1, 5) { x = strat(r, ty, -ty.bias() - ty.mb() as i32, ty.bias()); }
                let n = self.bessel_n(r, x);
                [n as u32 as u128, x, 0]
            }
            Sig::FFF_F => self.fma_args(r),
            Sig::FF_F | Sig::FF_FI => match self.f.base {
                "pow" => self.pow_args(r),
                "fmod" | "remainder" | "remquo" => self.rem_args(r),
                "hypot" => self.hypot_args(r),
                "atan2" => self.atan2_args(r),
                _ => self.pair_args(r),
            },
        }
    }
    /// Bring a mutated tuple back into the generated domain (only the Bessel functions of integer order are restricted:
    /// their cost grows with the order).
    pub fn fit(&self, _: &mut Rng, mut a: Args) -> Args {
        if self.f.sig == Sig::IF_F {
            a[0] = ((a[0] as u32 as i32) % 4000) as u32 as u128;
        }
        a
    }
    /// Pairs for comparison-like functions: related values.
    fn pair_args(&self, r: &mut Rng) -> Args {
        let ty = self.f.ty;
        let x = val(r, ty, &self.w);
        let y = match r.below(10) {
            0..=3 => val(r, ty, &self.w),
            4 => x,
            5 => ty.neg(x),
            6 => ty.step(x, r.range(-3, 3) as i128),
            7 => ty.neg(ty.step(x, r.range(-3, 3) as i128)),
            8 => { let k = r.below(ty.bits() as u64); x ^ (1u128 << k) }
            _ => *r.pick(specials_cache(ty)),
        };
        if r.bool() { [x, y, 0] } else { [y, x, 0] }
    }
    fn rem_args(&self, r: &mut Rng) -> Args {
        let ty = self.f.ty;
        let y = val(r, ty, &self.w);
        if r.chance(1, 6) { return self.pair_args(r); }
        if !ty.is_finite(y) || ty.is_zero(y) { return [val(r, ty, &self.w), y, 0]; }
        let ay = ty.abs(y);
        let (ey, my) = crate::oracle::norm(ty, ay);
        let gap = match r.below(6) { 0 => r.range(-2, 3), 1..=2 => r.range(0, 2 * ty.mb() as i64), 3 => r.range(0, 12), 4 => r.range(0, 2 * ty.bias() as i64), _ => r.range(-2, 64) } as i32;
        let x = match r.below(4) {
            0 => ty.build(r.bool(), ey + gap, mantissa(r, ty)),
            1 => ty.build(r.bool(), ey + gap, my), // y * 2^gap
            _ => { // (k + h/2) * y, rounded, +- few ulps
                let k = r.u64() >> (64 - 1 - r.below(60));
                let mut p = crate::oracle::to_mp_prec(ty, ay, 256);
                let mut c = Float::with_val(256, k);
                if r.bool() { c += 0.5; }
                if r.bool() && gap > 0 && gap < 4000 { c <<= gap; }
                p *= &c;
                let v = crate::oracle::round_to(ty, &p);
                let v = ty.step(v, if r.bool() { 0 } else { r.range(-2, 2) as i128 });
                if ty.is_finite(v) { if r.bool() { v } else { ty.neg(v) } } else { ty.max() }
            }
        };
        [x, y, 0]
    }
    fn hypot_args(&self, r: &mut Rng) -> Args {
        let ty = self.f.ty;
        match r.below(8) {
            0 => self.pair_args(r),
            1 => { let c = [(3u64, 4u64), (5, 12), (8, 15), (7, 24), (20, 21), (9, 40), (1, 1), (119, 120)][r.below(8) as usize];
                let e = r.range((-ty.bias() - ty.mb() as i32 - 2) as i64, ty.bias() as i64) as i32;
                let g = |v: u64| { let b = ty.from_f64(v as f64); ty.build(false, ty.ef(b) - ty.bias() + e, b) };
                [g(c.0), g(c.1), 0] }
            _ => {
                let e = if r.bool() { r.range((-ty.bias() - ty.mb() as i32) as i64, ty.bias() as i64) } else {
                    let c = *r.pick(&[ty.bias(), ty.bias() / 2, -ty.bias() / 2, 1 - ty.bias(), 510, 511, -459, -450, 60, 0]);
                    (c.clamp(-ty.bias(), ty.bias()) as i64) + r.range(-4, 4) } as i32;
                let gap = match r.below(3) { 0 => r.range(0, 3), 1 => r.range(0, ty.mb() as i64 + 12), _ => r.range(0, 8) } as i32;
                let x = ty.build(r.bool(), e, mantissa(r, ty));
                let y = ty.build(r.bool(), e - gap, mantissa(r, ty));
                if r.bool() { [x, y, 0] } else { [y, x, 0] }
            }
        }
    }
    fn atan2_args(&self, r: &mut Rng) -> Args {
        let ty = self.f.ty;
        match r.below(8) {
            0 => self.pair_args(r),
            1 => [*r.pick(specials_cache(ty)), *r.pick(specials_cache(ty)), 0],
            _ => {
                let x = val(r, ty, &self.w);
                if !ty.is_finite(x) || ty.is_zero(x) { return [val(r, ty, &self.w), x, 0]; }
                // y = x * t with t an interesting atan argument
                let t = if r.bool() { strat(r, ty, -70, 70) } else { let c = [0.4375, 0.6875, 1.0, 1.1875, 2.4375, 0.5, 1.5][r.below(7) as usize]; let c = ty.from_f64(c); self.around(r, c) };
                let mut p = crate::oracle::to_mp(ty, x);
                p *= &crate::oracle::to_mp(ty, t);
                let y = crate::oracle::round_to(ty, &p);
                if r.bool() { [y, x, 0] } else { [x, y, 0] }
            }
        }
    }
    fn pow_args(&self, r: &mut Rng) -> Args {
        let ty = self.f.ty;
        let small = ty == Ty::F32;
        match r.below(20) {
            0 => self.pair_args(r),
            1 => [*r.pick(specials_cache(ty)), *r.pick(specials_cache(ty)), 0],
            2 => { let x = val(r, ty, &self.w); [x, *r.pick(specials_cache(ty)), 0] }
            3 => { // negative base, integral or half-integral exponents of all sizes
                let mut x = strat(r, ty, -3, 3); x |= ty.sign();
                let k = r.below(ty.mb() as u64 + 4);
                let i = (r.u64() as u128) & ((1u128 << k) - 1);
                let mut y = int_plus(ty, i, if r.chance(1, 4) { r.below(4) as u32 } else { 0 });
                if k as u32 > 14 { // keep the result finite: x next to -1
                    let d = ty.mb() as i64 - k as i64 + r.range(0, 9);
                    x = ty.step(ty.one(), if r.bool() { 1 << d.clamp(0, 40) } else { -(1 << d.clamp(0, 40)) }) | ty.sign();
                }
                if r.bool() { y = ty.neg(y); }
                if r.chance(1, 8) { y = ty.step(y, r.range(-2, 2) as i128); }
                [x, y, 0]
            }
            4 => { // exact powers and their neighbours
                let lim = if r.bool() { 20 } else { 2000 }; let i = r.below(lim); let x = int_plus(ty, i as u128, 0);
                let lim = if r.bool() { 6 } else { 40 }; let y = int_plus(ty, r.below(lim) as u128, *r.pick(&[0, 0, 0, 2]));
                let s = |r: &mut Rng, v: u128| if r.chance(1, 6) { ty.step(v, r.range(-2, 2) as i128) } else { v };
                let x = s(r, x); let y = s(r, y);
                [if r.bool() { x } else { ty.neg(x) }, if r.bool() { y } else { ty.neg(y) }, 0]
            }
            k => {
                // choose the result's log2, then y from x
                let (lo, hi) = if small { (-152., 130.) } else { (-1080., 1026.) };
                let t = match r.below(4) { 0 => lo + (hi - lo) * r.unit(), 1 => { let c = if r.bool() { hi - 2. } else if small { -126. } else { -1022. }; c + r.unit() * 4. - 2. }
                    2 => { if small { -126. - 25. * r.unit() } else { -1022. - 55. * r.unit() } } _ => { let e = r.range(-40, 8) as i32; (1.0 + r.unit()) * 2f64.powi(e) * if r.bool() { 1. } else { -1. } } };
                let x = match k { 5..=7 => ty.abs(strat(r, ty, -ty.bias() - ty.mb() as i32, ty.bias())),
                    8..=11 => { let c = ty.one(); ty.abs(self.around(r, c)) }
                    12..=15 => ty.abs(strat(r, ty, -2, 2)),
                    16 => { let c = self.w.pick(r); ty.abs(self.around(r, c)) }
                    _ => { let v = ty.from_f64(r.unit() * 16.0); v } };
                if !ty.is_finite(x) || ty.is_zero(x) { return [x, val(r, ty, &self.w), 0]; }
                let l = ty.to_f64(x).log2();
                let y = if l == 0.0 { val(r, ty, &self.w) } else { ty.from_f64(t / l) };
                let y = if r.chance(1, 8) { ty.step(y, r.range(-2, 2) as i128) } else if r.chance(1, 8) { y & !((1u128 << (ty.mb() / 2)) - 1) } else { y };
                [x, y, 0]
            }
        }
    }
    fn fma_args(&self, r: &mut Rng) -> Args {
        let ty = self.f.ty;
        let (b, mb) = (ty.bias(), ty.mb() as i32);
        if r.chance(1, 12) { return [val(r, ty, &self.w), val(r, ty, &self.w), val(r, ty, &self.w)]; }
        if r.chance(1, 24) { return [*r.pick(specials_cache(ty)), *r.pick(specials_cache(ty)), *r.pick(specials_cache(ty))]; }
        // product exponent class
        let ep = match r.below(6) { 0 => r.range((-b - mb - 8) as i64, (1 - b + 4) as i64), 1 => r.range((b - 4) as i64, (b + 2) as i64), 2 => r.range((-2 * b - 2 * mb) as i64, (2 * b) as i64), 3 => r.range((1 - b - 2 * mb - 4) as i64, (1 - b) as i64), _ => r.range(-20, 20) } as i32;
        let ex = (ep / 2 + r.range(-40, 40) as i32).clamp(-b - mb, b);
        let ey = (ep - ex).clamp(-b - mb, b);
        let sparse = r.chance(1, 3);
        let (mx, my) = if sparse { sparse_product(r, ty) } else { (mantissa(r, ty), mantissa(r, ty)) };
        let x = ty.build(r.bool(), ex, mx);
        let y = ty.build(r.bool(), ey, my);
        let p = { let mut p = crate::oracle::to_mp_prec(ty, x, 256); p *= &crate::oracle::to_mp_prec(ty, y, 256); p };
        let pe = p.get_exp().map(|e| e - 1).unwrap_or(0);
        if sparse && r.chance(3, 4) {
            // the leading bit of the product at or next to the rounding point of the addend
            let z = match r.below(4) {
                0 => ty.build(r.bool(), pe + mb + 1, 0),
                1 => ty.build(r.bool(), pe + mb + 1 + r.range(-1, 2) as i32, mantissa(r, ty)),
                2 => ty.build(r.bool(), pe + mb + 1 + r.range(-1, 2) as i32, if r.bool() { ty.man_mask() } else { 0 }),
                // a subnormal addend or result, the product half of the smallest step or so
                _ => {
                    let t = -b - mb + r.range(-2, 2) as i32; // exponent wanted for the product
                    let ey = t - ex;
                    if ey <= b && ey > -b { let y = ty.build(r.bool(), ey, my); let z = if r.bool() { ty.build(r.bool(), r.range((-b - mb + 1) as i64, (1 - b) as i64) as i32, mantissa(r, ty)) } else { r.u128() & (ty.man_mask() >> r.below(mb as u64)) }; return [x, y, z]; }
                    ty.build(r.bool(), pe + mb + 1, 0)
                }
            };
            return [x, y, z];
        }
        let z = match r.below(8) {
            0..=1 => { // cancellation: z = -(xy) rounded, +- ulps
                let v = ty.neg(crate::oracle::round_to(ty, &p));
                ty.step(v, if r.bool() { 0 } else { r.range(-3, 3) as i128 })
            }
            2 => { // partial cancellation by a power of two
                let v = crate::oracle::round_to(ty, &p); let v = if r.chance(3, 4) { ty.neg(v) } else { v };
                let k = r.below(mb as u64); v ^ ((r.u128() & ((1u128 << k) - 1)) & ty.man_mask())
            }
            3..=5 => { // addend straddling the product's rounding point, both directions
                let d = match r.below(4) { 0 => mb + r.range(-1, 4) as i32, 1 => -(mb + r.range(-1, 4) as i32), 2 => r.range(-(2 * mb + 4) as i64, (2 * mb + 4) as i64) as i32, _ => r.range(-3, 3) as i32 };
                ty.build(r.bool(), pe + d, mantissa(r, ty))
            }
            6 => { // result in the subnormal range
                let e = r.range((-b - mb) as i64, (1 - b + 2) as i64) as i32; ty.build(r.bool(), e, mantissa(r, ty))
            }
            _ => val(r, ty, &self.w),
        };
        [x, y, z]
    }
}

/// Mantissa fields of two significands whose product has few set (or few clear) bits with long runs between them.
pub fn sparse_product(r: &mut Rng, ty: Ty) -> (u128, u128) {
    let mb = ty.mb();
    let one = 1u128 << mb;
    let norm = |v: u128| -> u128 { let v = if v == 0 { 1 } else { v }; let t = 127 - v.leading_zeros(); (if t > mb { v >> (t - mb) } else { v << (mb - t) }) & (one - 1) };
    match r.below(6) {
        // (1 + a)(1 - a + a^2) = 1 + a^3 and (1 - a)(1 + a + a^2) = 1 - a^3
        0 => { let k = 1 + r.below((mb / 2) as u64) as u32; let a = one >> k; let q = one >> (2 * k); if r.bool() { (norm(one + a), norm(one - a + q)) } else { (norm(one - a), norm(one + a + q)) } }
        // 1 - a^2, 1 + a + b + ab
        1 => { let k = 1 + r.below(mb as u64) as u32; let a = one >> k; (norm(one + a), norm(one - a)) }
        2 => { let (j, k) = (r.below(mb as u64 + 1) as u32, r.below(mb as u64 + 1) as u32); (norm(one + (one >> j)), norm(if r.bool() { one + (one >> k) } else { one * 2 - (one >> k) })) }
        // short integers
        3 => { let (j, k) = (r.below(mb as u64) as u32, r.below(mb as u64 + 1) as u32); (norm(r.u128() & ((2 << j) - 1)), norm(r.u128() & ((1 << k) - 1))) }
        // x * (2^k / x) = 2^k (1 + tiny)
        4 => { let m = if r.bool() { mantissa(r, ty) | one } else { one | (r.u128() & ((one - 1) >> r.below(mb as u64))) };
            // long division of 2^(2 mb + 1) by m
            let (mut q, mut rem) = (0u128, 1u128); for _ in 0..2 * mb + 1 { rem <<= 1; q <<= 1; if rem >= m { rem -= m; q |= 1; } }
            let q = if r.bool() && rem != 0 { q + 1 } else { q }; (norm(m), norm(q)) }
        _ => { let k = 1 + r.below(mb as u64 / 2) as u32; (norm((one << 1) - (one >> k)), norm(one + (one >> k))) }
    }
}

/// Arguments extremely close to multiples of pi/4: convergents of 2^e * 4/pi.
pub fn trig_hard(ty: Ty) -> Vec<u128> {
    let prec = 2 * ty.bias() as u32 + 600;
    let pi = Float::with_val(prec, rug::float::Constant::Pi);
    let mut out = vec![];
    let mb = ty.mb() as i32;
    let lim = 1u128 << (mb + 1);
    let (lo, hi) = (-mb - 2, ty.bias() - mb);
    for e in lo..=hi {
        for num in [2u32, 4] {
            let mut a = Float::with_val(prec, num) / &pi;
            a <<= e;
            // convergents of a
            let (mut q0, mut q1) = (0u128, 1u128);
            let mut x = a.clone();
            x.fract_mut();
            let mut qs = vec![];
            loop {
                if x.is_zero() { break; }
                x.recip_mut();
                let i = x.clone().trunc();
                let Some(k) = i.to_integer().and_then(|v| v.to_u128()) else { break };
                x -= &i;
                let Some(q2) = k.checked_mul(q1).and_then(|v| v.checked_add(q0)) else { break };
                if q2 >= lim { break; }
                q0 = q1; q1 = q2;
                qs.push(q2);
            }
            for q in qs.iter().rev().take(4) {
                let top = 127 - q.leading_zeros();
                out.push(ty.build(false, e + top as i32, q << (ty.mb() - top)));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
