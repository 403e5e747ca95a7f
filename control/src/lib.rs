//! Compiled where the API program does not compile: if this does not either, the configuration is at fault, not the library.
#![no_std]
#[no_mangle]
pub extern "C" fn control(a: u32) -> u32 {
    a.wrapping_mul(3)
}
