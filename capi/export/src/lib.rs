//! The symbols of the repository's C interface, exported again with integer (bit pattern) arguments.
#![no_std]
#![feature(f16, f128)]
#![allow(clippy::all)]
#![allow(improper_ctypes_definitions)]
extern crate capi as _;
// the arithmetic helpers that compiler-builtins itself would supply
#[link(name = "gcc_s")]
unsafe extern "C" {}

#[no_mangle]
pub extern "C" fn v_init(_cb: extern "C" fn()) {}

macro_rules! ex {
    (fn $n:ident($($a:ident: $t:ty),*) -> $r:ty $b:block) => {
        #[no_mangle]
        pub extern "C" fn $n($($a: $t),*) -> $r { unsafe { $b } }
    };
    (fn $n:ident($($a:ident: $t:ty),*) -> $r:ty $b:block else $e:block) => {
        #[no_mangle]
        #[allow(unused)]
        pub extern "C" fn $n($($a: $t),*) -> $r { $e }
    };
}
macro_rules! h { ($n:ident) => { #[no_mangle] pub extern "C" fn $n() {} }; }
include!("gen.rs");
