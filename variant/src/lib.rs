//! Every public function of libm, exported with integer (bit pattern) arguments.
#![feature(f16, f128)]
#![allow(clippy::all, improper_ctypes_definitions)]

use std::sync::atomic::{AtomicUsize, Ordering};

static PANIC_CB: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn v_init(cb: extern "C" fn()) {
    PANIC_CB.store(cb as usize, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|_| {}));
}

#[cold]
#[inline(never)]
fn panicked() {
    let p = PANIC_CB.load(Ordering::SeqCst);
    if p != 0 {
        let f: extern "C" fn() = unsafe { core::mem::transmute(p) };
        f();
    }
}

macro_rules! ex {
    (fn $n:ident($($a:ident: $t:ty),*) -> $r:ty $b:block else $e:block) => {
        #[no_mangle]
        pub extern "C" fn $n($($a: $t),*) -> $r {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $b)) {
                Ok(v) => v,
                Err(_) => { panicked(); $e }
            }
        }
    };
}

#[cfg(not(any(feature = "gener", feature = "i586")))]
include!("gen.rs");
#[cfg(feature = "gener")]
include!("gen_generic.rs");
#[cfg(feature = "gener")]
fn rint_nearest<F: libm::support::Float>(x: F) -> F { libm::generic::rint_round(x, libm::support::Round::Nearest).val }

// ceil and floor of the 32-bit x86 target without SSE2, which nothing else here compiles.
#[cfg(feature = "i586")]
#[allow(unused_imports)]
use libm::*; // what it takes from `super::super`
#[cfg(feature = "i586")]
mod shim;
#[cfg(feature = "i586")]
ex!(fn v_ceil(a: u64) -> u64 { shim::i586::ceil(f64::from_bits(a)).to_bits() } else { u64::MAX });
#[cfg(feature = "i586")]
ex!(fn v_floor(a: u64) -> u64 { shim::i586::floor(f64::from_bits(a)).to_bits() } else { u64::MAX });
