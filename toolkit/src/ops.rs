//! The tabulated operations: the MPFR reference of each gives the correctly rounded result, and each is bound to its function.
use crate::api::{Args, FnInfo, Ret, Sig, Ty, by_name, show_args, show_ret};
use crate::eng::*;
use crate::oracle;
use crate::rng::*;
use libm::support::Hexf;
use libm_test::mpfloat::MpOp;
use libm_test::{MathOp, TupleCall};
use std::cell::RefCell;

trait Bits: Copy { fn to(self) -> u128; fn of(b: u128) -> Self; }
macro_rules! bits { ($($t:ident $u:ident;)*) => { $(impl Bits for $t { fn to(self) -> u128 { self.to_bits() as u128 } fn of(b: u128) -> Self { <$t>::from_bits(b as $u) } })* } }
bits!(f16 u16; f32 u32; f64 u64; f128 u128;);
impl Bits for i32 { fn to(self) -> u128 { self as u32 as u128 } fn of(b: u128) -> Self { b as u32 as i32 } }
trait In { fn of(a: &Args) -> Self; }
impl<A: Bits> In for (A,) { fn of(a: &Args) -> Self { (A::of(a[0]),) } }
impl<A: Bits, B: Bits> In for (A, B) { fn of(a: &Args) -> Self { (A::of(a[0]), B::of(a[1])) } }
impl<A: Bits, B: Bits, C: Bits> In for (A, B, C) { fn of(a: &Args) -> Self { (A::of(a[0]), B::of(a[1]), C::of(a[2])) } }
trait Out { fn out(self) -> Ret; }
macro_rules! out { ($($t:ident)*) => { $(impl Out for $t { fn out(self) -> Ret { [self.to(), 0] } })* } }
out!(f16 f32 f64 f128 i32);
impl<A: Bits, B: Bits> Out for (A, B) { fn out(self) -> Ret { [self.0.to(), self.1.to()] } }

fn mp<O: MpOp>(a: &Args) -> Ret where O::RustArgs: In, O::RustRet: Out, O::MpTy: 'static { mp_raw::<O>(a).out() }
/// As the command line tool prints it.
fn print<T: std::fmt::Debug>(v: T) -> String where Hexf<T>: std::fmt::LowerHex, T: Copy { format!("{v:?} {:x}", Hexf(v)) }
fn mp_raw<O: MpOp>(a: &Args) -> O::RustRet where O::RustArgs: In, O::MpTy: 'static {
    // the context is reused between calls, as the test suite does
    thread_local! { static M: RefCell<Vec<(std::any::TypeId, &'static str, Box<dyn std::any::Any>)>> = const { RefCell::new(vec![]) }; }
    M.with(|m| {
        let mut m = m.borrow_mut();
        let name = O::IDENTIFIER.as_str();
        let i = match m.iter().position(|x| x.1 == name) { Some(i) => i, None => { m.push((std::any::TypeId::of::<O::MpTy>(), name, Box::new(O::new_mp()))); m.len() - 1 } };
        O::run(m[i].2.downcast_mut().unwrap(), O::RustArgs::of(a))
    })
}
fn run<O: MathOp>(a: &Args) -> Ret where O::RustArgs: In + TupleCall<O::RustFn, Output = O::RustRet>, O::RustRet: Out { O::RustArgs::of(a).call(O::ROUTINE).out() }

pub struct Op { pub name: &'static str, ident: &'static str, pub shown: fn(&Args) -> String, pub mp_shown: fn(&Args) -> String, mp: fn(&Args) -> Ret, run: fn(&Args) -> Ret, direct: fn(&Args) -> Ret }
macro_rules! table {
    (fn_name: $n:ident, RustFn: fn($($a:ty,)*) -> $r:ty, attrs: [$($attr:meta),*],) => {
        #[allow(non_snake_case)]
        pub fn $n() -> Op {
            type O = libm_test::op::$n::Routine;
            fn direct(a: &Args) -> Ret { let f: fn($($a),*) -> $r = libm::$n; type I = ($($a,)*); TupleCall::call(<I as In>::of(a), f).out() }
            fn shown(a: &Args) -> String { let f: fn($($a),*) -> $r = libm::$n; type I = ($($a,)*); print(TupleCall::call(<I as In>::of(a), f)) }
            fn mp_shown(a: &Args) -> String { print(mp_raw::<O>(a)) }
            Op { shown, mp_shown, name: stringify!($n), ident: <O as MathOp>::IDENTIFIER.as_str(), mp: mp::<O>, run: run::<O>, direct }
        }
    };
}
#[allow(unused)]
mod each { use super::*; libm_macros::for_each_function! { callback: table, emit_types: [RustFn] } }
macro_rules! list { ($($n:ident)*) => { fn ops() -> Vec<Op> { vec![$(each::$n()),*] } } }
pub fn all() -> &'static [Op] { static L: std::sync::LazyLock<Vec<Op>> = std::sync::LazyLock::new(ops); &L }
include!("list.rs");

fn weight(f: &FnInfo) -> u64 {
    match f.base { "tgamma" | "lgamma" | "lgamma_r" | "jn" | "yn" | "erfc" | "erf" => 20, "j0" | "j1" | "y0" | "y1" | "pow" => 10,
        "fmod" | "remainder" | "remquo" => 3, _ => if f.sig.args().len() == 1 && !f.base.ends_with("int") { 2 } else { 1 } }
}
pub fn arg(r: &mut Rng, f: &FnInfo, i: usize) -> u128 {
    let ty = f.ty;
    if !f.sig.args()[i] {
        return (match f.base { "jn" | "yn" => r.range(-24, 24) as i32, _ => match r.below(3) { 0 => r.range(-40, 40) as i32, 1 => r.range(-33000, 33000) as i32, _ => r.u64() as i32 } }) as u32 as u128;
    }
    // MPFR's jn and yn exhaust memory at huge arguments
    match if f.sig == Sig::IF_F { 1 + r.below(3) } else { r.below(4) } {
        0 => crate::floatbits(r, ty.bits(), ty.mb()),
        1 => { let e = r.range(-3, 4) as i32; ty.build(r.bool(), e, r.u128()) }
        _ => { let e = r.range(-(ty.mb() as i64), if f.base.starts_with(['j', 'y']) { 9 } else { 12 }) as i32; let m = r.u128() & ty.man_mask(); let k = r.below(ty.mb() as u64 + 1); ty.build(r.bool(), e, m >> k << k) }
    }
}

pub fn rules() -> Vec<Rule> {
    let mut v = vec![];
    for op in ops() {
        let f = by_name(op.name);
        let w = weight(f);
        let g = move |r: &mut Rng| -> Case {
            let mut c: Vec<u128> = (0..f.sig.args().len()).map(|i| arg(r, f, i)).collect();
            // related operands
            if f.sig.args().len() > 1 && f.sig.args()[1] && f.sig.args()[0] && r.chance(1, 4) { c[1] = f.ty.step(c[0], r.range(-3, 3) as i128) ^ if r.bool() { f.ty.sign() } else { 0 }; }
            c.into_iter().map(V::N).collect()
        };
        let args = |c: &[V]| -> Args { let mut a = [0; 3]; for (i, v) in c.iter().enumerate().take(3) { a[i] = v.n() & if f.sig.args().get(i) == Some(&true) { f.ty.mask() } else { u32::MAX as u128 }; } a };
        let same = move |x: &Ret, y: &Ret| f.sig.rets().iter().enumerate().all(|(i, fl)| x[i] == y[i] || (*fl && f.ty.is_nan(x[i]) && f.ty.is_nan(y[i])));
        if f.base != "nextafter" {
            v.push(rule(&format!("mpfr:{}", f.name), 200_000 / w, 12_000_000 / w, g, move |c| {
                let a = args(c);
                // MPFR's signed lngamma is NaN where gamma is negative; the test suite knows
                if f.base == "lgamma" && f.ty.is_neg(a[0]) { return Ok(false); }
                // MPFR does not keep the sign of a NaN
                if f.base == "copysign" && f.ty.is_nan(a[1]) { return Ok(false); }
                let (got, want) = ((op.mp)(&a), oracle::expect(f, &a));
                let nan = f.sig.args().iter().enumerate().any(|(i, fl)| *fl && f.ty.is_nan(a[i]));
                if !(same(&got, &want) || (nan && f.sig == Sig::F_FI && f.ty.is_nan(got[0]))) { return Err(format!("the reference for {} gives {}, expected {}", show_args(f, &a), show_ret(f, &got), show_ret(f, &want))); }
                Ok(f.ty.is_finite(want[0]) && want[0] != 0 || f.sig == Sig::F_I)
            }).guided(if f.sig == Sig::IF_F { 0 } else { 8000 / w }));
        }
        v.push(rule(&format!("bound:{}", f.name), 20_000, 1_000_000, g, move |c| {
            let a = args(c);
            if op.ident != op.name { return Err(format!("{} is identified as {}", op.name, op.ident)); }
            let (got, want) = ((op.run)(&a), (op.direct)(&a));
            if !same(&got, &want) { return Err(format!("operation {} gives {}, the function {}", show_args(f, &a), show_ret(f, &got), show_ret(f, &want))); }
            Ok(true)
        }).guided(if f.sig == Sig::IF_F { 0 } else { 2500 }));
    }
    let _ = Ty::F16;
    v
}
