//! The interface between a harness and whoever executes it (the symbolic engine, or the native
//! replay runtime).
extern "C" {
    fn vf_sym(ptr: *mut u8, len: usize, name: *const u8, nlen: usize);
    fn vf_assume(c: bool);
    fn vf_assert(c: bool, msg: *const u8, len: usize);
    fn vf_concretize(x: u64) -> u64;
    fn vf_pick(name: *const u8, nlen: usize, n: u64) -> u64;
    fn vf_panic_ok(c: bool);
    fn vf_reach(p: *const u8, len: usize);
    fn vf_trace(p: *const u8, len: usize);
    fn vf_checkpoint();
    fn vf_param(p: *const u8, len: usize, default: u64) -> u64;
    fn vf_live_bytes() -> u64;
}

/// fresh symbolic bytes
#[inline(never)]
pub fn fill(name: &str, b: &mut [u8]) {
    unsafe { vf_sym(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn u8(name: &str) -> u8 {
    let mut b = [0u8; 1];
    fill(name, &mut b);
    b[0]
}
pub fn u32(name: &str) -> u32 {
    let mut b = [0u8; 4];
    fill(name, &mut b);
    u32::from_le_bytes(b)
}
pub fn u64(name: &str) -> u64 {
    let mut b = [0u8; 8];
    fill(name, &mut b);
    u64::from_le_bytes(b)
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(name, &mut v);
    v
}
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}
/// an arbitrary number in `lo..=hi`, still symbolic
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    let x = if hi < 256 { u8(name) as u64 } else { u64(name) };
    assume((x >= lo) & (x <= hi));
    x
}
/// an arbitrary number in `0..n`, one path for each
pub fn pick(name: &str, n: u64) -> u64 {
    unsafe { vf_pick(name.as_ptr(), name.len(), n) }
}
pub fn flip(name: &str) -> bool {
    pick(name, 2) == 1
}
pub fn concretize(x: u64) -> u64 {
    unsafe { vf_concretize(x) }
}
#[track_caller]
pub fn check(c: bool, msg: &str) {
    unsafe { vf_assert(c, msg.as_ptr(), msg.len()) }
}
/// from now on a panic is acceptable exactly when `c`
pub fn panic_ok(c: bool) {
    unsafe { vf_panic_ok(c) }
}
/// this point must be reachable (vacuity witness)
pub fn reach(l: &str) {
    unsafe { vf_reach(l.as_ptr(), l.len()) }
}
/// observable bytes, compared between the engine and the native run
pub fn trace(b: &[u8]) {
    unsafe { vf_trace(b.as_ptr(), b.len()) }
}
pub fn trace_u64(x: u64) {
    trace(&x.to_le_bytes())
}
/// states that agree here (live memory and registers, up to renaming) are explored once
pub fn checkpoint() {
    unsafe { vf_checkpoint() }
}
/// concrete parameter of the harness instance
pub fn param(n: &str, default: u64) -> u64 {
    unsafe { vf_param(n.as_ptr(), n.len(), default) }
}
pub fn live_bytes() -> u64 {
    unsafe { vf_live_bytes() }
}

#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub const HARNESSES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
