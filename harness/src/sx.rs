//! Symbolic input and assertion primitives. The engine interprets the `__symx_*` functions; the
//! native build (feature "native") reads the values from a replay file instead.
#![allow(dead_code)]
unsafe extern "C" {
    fn __symx_make(bits: u32, name: *const u8, len: usize) -> u64;
    fn __symx_assume(c: bool);
    fn __symx_assert(c: bool, msg: *const u8, len: usize);
    fn __symx_fail(msg: *const u8, len: usize);
    fn __symx_cover(msg: *const u8, len: usize);
    fn __symx_note(msg: *const u8, len: usize);
    fn __symx_end();
    fn __symx_concretize(v: u64) -> u64;
    fn __symx_is_symbolic(v: u64) -> u64;
    fn __symx_live_bytes() -> u64;
    fn __symx_live_blocks() -> u64;
    fn __symx_fuel(n: u64);
    fn __symx_hash_xor(n: u64);
    fn __symx_native() -> u64;
    fn __symx_steps() -> u64;
    fn __symx_debug(v: u64);
}

#[inline(never)]
fn make(bits: u32, name: &str) -> u64 {
    unsafe { __symx_make(bits, name.as_ptr(), name.len()) }
}
pub fn u8(name: &str) -> u8 {
    make(8, name) as u8
}
pub fn u32(name: &str) -> u32 {
    make(32, name) as u32
}
pub fn i32(name: &str) -> i32 {
    make(32, name) as i32
}
pub fn f32(name: &str) -> f32 {
    f32::from_bits(make(32, name) as u32)
}
pub fn boolean(name: &str) -> bool {
    make(1, name) & 1 == 1
}
/// symbolic value in 0..n
pub fn below(name: &str, n: u32) -> u32 {
    let v = make(8, name) as u32;
    assume(v < n);
    v
}
/// value in 0..n, decided (forked) here
pub fn choose(name: &str, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    concrete(below(name, n) as u64) as u32
}
pub fn assume(c: bool) {
    unsafe { __symx_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, msg: &str) {
    unsafe { __symx_assert(c, msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    unsafe {
        __symx_fail(msg.as_ptr(), msg.len());
        __symx_end();
    }
    loop {}
}
#[inline(never)]
pub fn cover(msg: &str) {
    unsafe { __symx_cover(msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn note(msg: &str) {
    unsafe { __symx_note(msg.as_ptr(), msg.len()) }
}
pub fn end() -> ! {
    unsafe { __symx_end() }
    loop {}
}
pub fn concrete(v: u64) -> u64 {
    unsafe { __symx_concretize(v) }
}
pub fn is_symbolic(v: u64) -> bool {
    unsafe { __symx_is_symbolic(v) != 0 }
}
pub fn live_bytes() -> u64 {
    unsafe { __symx_live_bytes() }
}
pub fn live_blocks() -> u64 {
    unsafe { __symx_live_blocks() }
}
pub fn fuel(n: u64) {
    unsafe { __symx_fuel(n) }
}
pub fn hash_xor(n: u64) {
    unsafe { __symx_hash_xor(n) }
}
pub fn native() -> bool {
    unsafe { __symx_native() != 0 }
}
pub fn steps() -> u64 {
    unsafe { __symx_steps() }
}
pub fn debug(v: u64) {
    unsafe { __symx_debug(v) }
}
