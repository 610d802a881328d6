//! Interface to the symbolic engine.  In the replay build these are provided by the replay binary.
extern "C" {
    fn __sym_byte() -> u8;
    fn __sym_u16() -> u16;
    fn __sym_u32() -> u32;
    fn __sym_u64() -> u64;
    fn __sym_assume(b: bool);
    fn __sym_assert(b: bool, id: u32);
    fn __sym_cover(id: u32);
    fn __sym_observe(p: *const u8, n: usize);
    fn __sym_concrete(v: u64) -> u64;
    fn __sym_param(i: u32) -> u64;
}
pub fn byte() -> u8 {
    unsafe { __sym_byte() }
}
#[allow(dead_code)]
pub fn u16v() -> u16 {
    unsafe { __sym_u16() }
}
pub fn u32v() -> u32 {
    unsafe { __sym_u32() }
}
pub fn u64v() -> u64 {
    unsafe { __sym_u64() }
}
pub fn assume(b: bool) {
    unsafe { __sym_assume(b) }
}
pub fn assert_id(b: bool, id: u32) {
    unsafe { __sym_assert(b, id) }
}
pub fn cover(id: u32) {
    unsafe { __sym_cover(id) }
}
pub fn observe(b: &[u8]) {
    unsafe { __sym_observe(b.as_ptr(), b.len()) }
}
pub fn observe_str(s: &str) {
    observe(s.as_bytes());
    observe(&[0xff]);
}
/// One of 0..n, forked into n concrete cases.
pub fn pick(n: u64) -> u64 {
    let x = byte() as u64;
    assume(x < n);
    unsafe { __sym_concrete(x) }
}
/// Split the exploration on the value of `v`.
pub fn fork(v: u64) -> u64 {
    unsafe { __sym_concrete(v) }
}
pub fn flag() -> bool {
    pick(2) == 1
}
/// A symbolic element of a table of bytes (no fork).
pub fn of(table: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for t in table {
        ok |= b == *t;
    }
    assume(ok);
    b
}
#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::sym::assert_id($c, line!())
    };
}

/// Bound number `i` of this run (given on the command line of the engine and of the replay).
pub fn param(i: u32) -> usize {
    unsafe { __sym_param(i) as usize }
}
/// `n` symbolic ASCII bytes.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume(b < 128);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
