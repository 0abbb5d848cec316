#[path = "../../../repo/libm/src/math/arch/i586.rs"]
pub mod i586;
