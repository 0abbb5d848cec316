//! The functions under test: table, dynamic loading of the built variants, uniform calls on bit patterns.
use crate::gen_table::{FNS, HELPERS};
use std::cell::Cell;
use std::ffi::{CString, c_char, c_int, c_void};

#[allow(dead_code)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty { F16, F32, F64, F128 }
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sig { F_F, FF_F, FFF_F, F_I, IF_F, FI_F, F_FF, F_FI, FF_FI }

#[derive(Debug)]
pub struct FnInfo { pub id: usize, pub name: &'static str, pub base: &'static str, pub ty: Ty, pub sig: Sig }

/// Argument bits in call order; i32 arguments are stored as u32.
pub type Args = [u128; 3];
/// Result bits; a second i32 result is stored as u32.
pub type Ret = [u128; 2];

impl Ty {
    pub const fn mb(self) -> u32 { match self { Ty::F16 => 10, Ty::F32 => 23, Ty::F64 => 52, Ty::F128 => 112 } }
    pub const fn eb(self) -> u32 { match self { Ty::F16 => 5, Ty::F32 => 8, Ty::F64 => 11, Ty::F128 => 15 } }
    pub const fn bits(self) -> u32 { 1 + self.mb() + self.eb() }
    pub const fn bias(self) -> i32 { (1 << (self.eb() - 1)) - 1 }
    pub const fn mask(self) -> u128 { if self.bits() == 128 { u128::MAX } else { (1 << self.bits()) - 1 } }
    pub const fn sign(self) -> u128 { 1 << (self.bits() - 1) }
    pub const fn man_mask(self) -> u128 { (1 << self.mb()) - 1 }
    pub const fn inf(self) -> u128 { ((1 << self.eb()) - 1) << self.mb() }
    pub const fn nan(self) -> u128 { self.inf() | (1 << (self.mb() - 1)) }
    pub const fn max(self) -> u128 { self.inf() - 1 }
    pub const fn min_normal(self) -> u128 { 1 << self.mb() }
    pub const fn one(self) -> u128 { (self.bias() as u128) << self.mb() }
    pub const fn abs(self, b: u128) -> u128 { b & !self.sign() }
    pub const fn neg(self, b: u128) -> u128 { b ^ self.sign() }
    pub const fn is_nan(self, b: u128) -> bool { self.abs(b) > self.inf() }
    pub const fn is_inf(self, b: u128) -> bool { self.abs(b) == self.inf() }
    pub const fn is_zero(self, b: u128) -> bool { self.abs(b) == 0 }
    pub const fn is_neg(self, b: u128) -> bool { b & self.sign() != 0 }
    pub const fn is_finite(self, b: u128) -> bool { self.abs(b) < self.inf() }
    /// Monotone integer image of a non-NaN value (both zeros map to 0).
    pub const fn ord(self, b: u128) -> i128 { let a = self.abs(b) as i128; if self.is_neg(b) { -a } else { a } }
    pub const fn from_ord(self, o: i128) -> u128 { if o < 0 { (-o) as u128 | self.sign() } else { o as u128 } }
    /// Step by `k` representable values, staying within the finite/infinite range.
    pub fn step(self, b: u128, k: i128) -> u128 {
        if self.is_nan(b) { return b; }
        let m = self.inf() as i128;
        self.from_ord((self.ord(b) + k).clamp(-m, m))
    }
    /// Biased exponent field.
    pub const fn ef(self, b: u128) -> i32 { ((self.abs(b)) >> self.mb()) as i32 }
    /// Build from an unbiased exponent and mantissa field, clamped into the finite range (subnormals for tiny exponents).
    pub fn build(self, neg: bool, e: i32, man: u128) -> u128 {
        let s = if neg { self.sign() } else { 0 };
        let e2 = e + self.bias();
        let man = man & self.man_mask();
        if e2 >= (1 << self.eb()) - 1 { return s | (self.max() & !self.man_mask()) | man; }
        if e2 <= 0 {
            let sh = (1 - e2) as u32;
            let full = man | (1 << self.mb());
            return s | if sh > self.mb() { 1 } else { full >> sh };
        }
        s | ((e2 as u128) << self.mb()) | man
    }
    pub fn from_f64(self, v: f64) -> u128 {
        match self { Ty::F16 => (v as f16).to_bits() as u128, Ty::F32 => (v as f32).to_bits() as u128, Ty::F64 => v.to_bits() as u128, Ty::F128 => (v as f128).to_bits() }
    }
    pub fn to_f64(self, b: u128) -> f64 {
        match self { Ty::F16 => f16::from_bits(b as u16) as f64, Ty::F32 => f32::from_bits(b as u32) as f64, Ty::F64 => f64::from_bits(b as u64), Ty::F128 => f128::from_bits(b) as f64 }
    }
    pub fn show(self, b: u128) -> String {
        let w = (self.bits() / 4) as usize;
        let v = self.to_f64(b);
        if self.is_nan(b) { format!("NaN(0x{b:0w$x})") } else { format!("{v:e}(0x{b:0w$x})") }
    }
    pub fn parse(s: &str) -> Option<Ty> { Some(match s { "f16" => Ty::F16, "f32" => Ty::F32, "f64" => Ty::F64, "f128" => Ty::F128, _ => return None }) }
    pub fn name(self) -> &'static str { match self { Ty::F16 => "f16", Ty::F32 => "f32", Ty::F64 => "f64", Ty::F128 => "f128" } }
}

impl Sig {
    /// For each argument: true if it is the float type, false if i32.
    pub fn args(self) -> &'static [bool] {
        match self {
            Sig::F_F | Sig::F_I | Sig::F_FF | Sig::F_FI => &[true],
            Sig::FF_F | Sig::FF_FI => &[true, true],
            Sig::FFF_F => &[true, true, true],
            Sig::IF_F => &[false, true],
            Sig::FI_F => &[true, false],
        }
    }
    pub fn rets(self) -> &'static [bool] {
        match self {
            Sig::F_F | Sig::FF_F | Sig::FFF_F | Sig::IF_F | Sig::FI_F => &[true],
            Sig::F_I => &[false],
            Sig::F_FF => &[true, true],
            Sig::F_FI | Sig::FF_FI => &[true, false],
        }
    }
}

pub fn by_name(n: &str) -> &'static FnInfo { FNS.iter().find(|f| f.name == n).unwrap_or_else(|| panic!("no function {n}")) }
pub fn by_base(b: &str) -> Vec<&'static FnInfo> { FNS.iter().filter(|f| f.base == b).collect() }

pub fn show_args(f: &FnInfo, a: &Args) -> String {
    let mut s = vec![];
    for (i, fl) in f.sig.args().iter().enumerate() {
        s.push(if *fl { f.ty.show(a[i]) } else { format!("{}", a[i] as u32 as i32) });
    }
    format!("{}({})", f.name, s.join(", "))
}
pub fn show_ret(f: &FnInfo, r: &Ret) -> String {
    let mut s = vec![];
    for (i, fl) in f.sig.rets().iter().enumerate() {
        s.push(if *fl { f.ty.show(r[i]) } else { format!("{}", r[i] as u32 as i32) });
    }
    s.join(", ")
}

unsafe extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

thread_local! { static PANICS: Cell<u32> = const { Cell::new(0) }; }
extern "C" fn on_panic() { PANICS.with(|p| p.set(p.get() + 1)); }
/// Number of panics caught in variant calls on this thread since the last query.
pub fn take_panics() -> u32 { PANICS.with(|p| p.replace(0)) }

pub struct Variant { pub name: String, pub f: Vec<usize>, pub h: Vec<usize> }

impl Variant {
    pub fn load(name: &str, path: &str) -> Variant {
        unsafe {
            let p = CString::new(path).unwrap();
            let h = dlopen(p.as_ptr(), 2);
            if h.is_null() {
                eprintln!("cannot load {path}: {:?}", std::ffi::CStr::from_ptr(dlerror()));
                std::process::exit(3);
            }
            let sym = |s: String| -> usize {
                let c = CString::new(s.clone()).unwrap();
                let p = dlsym(h, c.as_ptr());
                if p.is_null() && name != "i586" { eprintln!("no symbol {s} in {path}"); std::process::exit(3); }
                p as usize
            };
            let init: extern "C" fn(extern "C" fn()) = std::mem::transmute(sym("v_init".into()));
            init(on_panic);
            Variant {
                name: name.into(),
                f: FNS.iter().map(|f| sym(format!("v_{}", f.name))).collect(),
                h: HELPERS.iter().map(|(s, _)| sym(s.to_string())).collect(),
            }
        }
    }
    #[inline]
    pub fn call(&self, f: &FnInfo, a: &Args) -> Ret { unsafe { call(self.f[f.id], f.ty, f.sig, a) } }
    #[inline]
    pub fn call_helper(&self, i: usize, f: &FnInfo, a: &Args) -> Ret { unsafe { call(self.h[i], f.ty, f.sig, a) } }
    #[inline]
    pub fn call1(&self, f: &FnInfo, x: u128) -> u128 { self.call(f, &[x, 0, 0])[0] }
}

macro_rules! dispatch {
    ($B:ty, $p:expr, $sig:expr, $a:expr) => {{
        let p = $p as *const ();
        let a = $a;
        type B = $B;
        use std::mem::transmute as t;
        match $sig {
            Sig::F_F => { let f: extern "C" fn(B) -> B = unsafe { t(p) }; [f(a[0] as B) as u128, 0] }
            Sig::FF_F => { let f: extern "C" fn(B, B) -> B = unsafe { t(p) }; [f(a[0] as B, a[1] as B) as u128, 0] }
            Sig::FFF_F => { let f: extern "C" fn(B, B, B) -> B = unsafe { t(p) }; [f(a[0] as B, a[1] as B, a[2] as B) as u128, 0] }
            Sig::F_I => { let f: extern "C" fn(B) -> i32 = unsafe { t(p) }; [f(a[0] as B) as u32 as u128, 0] }
            Sig::IF_F => { let f: extern "C" fn(i32, B) -> B = unsafe { t(p) }; [f(a[0] as u32 as i32, a[1] as B) as u128, 0] }
            Sig::FI_F => { let f: extern "C" fn(B, i32) -> B = unsafe { t(p) }; [f(a[0] as B, a[1] as u32 as i32) as u128, 0] }
            Sig::F_FF => { let f: extern "C" fn(B, &mut B) -> B = unsafe { t(p) }; let mut o: B = 0; let r = f(a[0] as B, &mut o) as u128; [r, o as u128] }
            Sig::F_FI => { let f: extern "C" fn(B, &mut i32) -> B = unsafe { t(p) }; let mut o = 0; let r = f(a[0] as B, &mut o) as u128; [r, o as u32 as u128] }
            Sig::FF_FI => { let f: extern "C" fn(B, B, &mut i32) -> B = unsafe { t(p) }; let mut o = 0; let r = f(a[0] as B, a[1] as B, &mut o) as u128; [r, o as u32 as u128] }
        }
    }};
}
#[allow(improper_ctypes_definitions)]
#[inline]
pub unsafe fn call(p: usize, ty: Ty, sig: Sig, a: &Args) -> Ret {
    match ty {
        Ty::F16 => dispatch!(u16, p, sig, a),
        Ty::F32 => dispatch!(u32, p, sig, a),
        Ty::F64 => dispatch!(u64, p, sig, a),
        Ty::F128 => dispatch!(u128, p, sig, a),
    }
}
