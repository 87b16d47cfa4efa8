//! Harness intrinsics. Under the symbolic executor these are intercepted by name; natively
//! (rt/vp_rt.c) they replay one concrete assignment, so the very same binary confirms a
//! counterexample against the real code.
extern "C" {
    fn vp_range(lo: i64, hi: i64, n: *const u8, l: usize) -> i64;
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, n: *const u8, l: usize);
    fn vp_reach(n: *const u8, l: usize);
    fn vp_observe(v: u64);
    fn vp_panic_ok(c: bool);
    fn vp_choose(k: u64, n: *const u8, l: usize) -> u64;
    fn vp_concrete(v: u64) -> u64;
    fn vp_dir(p: *mut u8, n: usize) -> usize;
}
/// a symbolic integer in lo..=hi
pub fn range(n: &'static str, lo: i64, hi: i64) -> i64 {
    unsafe { vp_range(lo, hi, n.as_ptr(), n.len()) }
}
pub fn int(n: &'static str, lo: i32, hi: i32) -> i32 {
    range(n, lo as i64, hi as i64) as i32
}
pub fn boolean(n: &'static str) -> bool {
    range(n, 0, 1) == 1
}
/// a choice the executor splits on: 0..k
pub fn choose(n: &'static str, k: usize) -> usize {
    unsafe { vp_choose(k as u64, n.as_ptr(), n.len()) as usize }
}
pub fn conc(v: u64) -> u64 {
    unsafe { vp_concrete(v) }
}
/// a directory for files (in the executor: files that exist on this path only)
pub fn dir() -> String {
    let mut b = vec![0u8; 200];
    let n = unsafe { vp_dir(b.as_mut_ptr(), b.len()) };
    b.truncate(n);
    String::from_utf8(b).unwrap()
}
/// a boolean the executor splits on
pub fn split(n: &'static str) -> bool {
    choose(n, 2) == 1
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn check(c: bool, m: &'static str) {
    unsafe { vp_assert(c, m.as_ptr(), m.len()) }
}
pub fn reach(m: &'static str) {
    unsafe { vp_reach(m.as_ptr(), m.len()) }
}
pub fn observe(v: u64) {
    unsafe { vp_observe(v) }
}
pub fn panic_ok(c: bool) {
    unsafe { vp_panic_ok(c) }
}
/// one symbolic character out of lo..=hi
pub fn chr(n: &'static str, lo: u8, hi: u8) -> String {
    let b = range(n, lo as i64, hi as i64) as u8;
    unsafe { String::from_utf8_unchecked(vec![b]) }
}
pub fn or(a: bool, b: bool) -> bool {
    (a as u8 | b as u8) != 0
}
pub fn and(a: bool, b: bool) -> bool {
    (a as u8 & b as u8) != 0
}
