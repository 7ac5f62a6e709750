//! The harness side of the symbolic interface.
extern "C" {
    fn sym_input(name: *const u8, len: usize, bits: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, m: *const u8, len: usize);
    fn sym_conc(x: u64) -> u64;
    fn sym_reach(m: *const u8, len: usize);
    fn sym_coprime(a: *const u8, b: *const u8);
    fn sym_note(m: *const u8, len: usize);
    fn sym_catch(f: extern "C" fn(*mut u8), data: *mut u8) -> u32;
    fn sym_new_process();
    fn sym_inject(k: u64, mode: u32);
    fn sym_inject_off() -> u64;
    fn sym_split(degree: u64);
    fn sym_co_start(f: extern "C" fn(*mut u8), data: *mut u8);
    fn sym_co_switch() -> u64;
    fn sym_out_take(buf: *mut u8, cap: usize) -> usize;
    fn sym_err_take(buf: *mut u8, cap: usize) -> usize;
    fn sym_out_break(on: u64);
    fn sym_ended() -> !;
    fn sym_panic_loc(buf: *mut u8, cap: usize) -> usize;
    fn sym_tmpdir(buf: *mut u8, cap: usize) -> usize;
}

/// A fresh symbolic `bits`-bit value. Repeated names get `#1`, `#2`, ... appended.
#[inline(never)]
pub fn input(name: &str, bits: u32) -> u64 {
    unsafe { sym_input(name.as_ptr(), name.len(), bits as u64) }
}
pub fn u8s(name: &str) -> u8 {
    input(name, 8) as u8
}
pub fn boolean(name: &str) -> bool {
    input(name, 1) & 1 == 1
}
/// A symbolic value in `lo..=hi`.
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    let mut bits = 8;
    while bits < 64 && (hi >> bits) != 0 {
        bits += 8;
    }
    let v = input(name, bits);
    assume(v >= lo && v <= hi);
    v
}
/// As `range`, but the engine forks so that the value is concrete on every path.
pub fn pick(name: &str, lo: u64, hi: u64) -> u64 {
    let v = range(name, lo, hi);
    conc(v)
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, m: &str) {
    unsafe { sym_check(c, m.as_ptr(), m.len()) }
}
#[inline(never)]
pub fn conc(x: u64) -> u64 {
    unsafe { sym_conc(x) }
}
#[inline(never)]
pub fn reach(m: &str) {
    unsafe { sym_reach(m.as_ptr(), m.len()) }
}
/// Assumes that the two non-zero numbers have no common divisor.
#[inline(never)]
pub fn coprime(a: &num::BigInt, b: &num::BigInt) {
    unsafe { sym_coprime(a as *const num::BigInt as *const u8, b as *const num::BigInt as *const u8) }
}
#[inline(never)]
pub fn note(m: &str) {
    unsafe { sym_note(m.as_ptr(), m.len()) }
}
pub fn new_process() {
    unsafe { sym_new_process() }
}
/// The `k`-th file system mutation from now on fails: mode 1 = the process dies just before it, 2 = it returns EIO
/// once, 3 = it and all later ones return ENOSPC.
pub fn inject(k: u64, mode: u32) {
    unsafe { sym_inject(k, mode) }
}
/// Switches injection off; (number of mutations seen, whether the fault fired).
pub fn inject_off() -> (u64, bool) {
    let r = unsafe { sym_inject_off() };
    (r / 2, r & 1 == 1)
}
pub fn out_take() -> Vec<u8> {
    let mut v = vec![0u8; 1 << 16];
    let n = unsafe { sym_out_take(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    v
}
/// What was written to stderr since.
pub fn err_take() -> Vec<u8> {
    let mut v = vec![0u8; 1 << 16];
    let n = unsafe { sym_err_take(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    v
}
/// Whether writes to stdout fail from now on.
pub fn out_break(on: bool) {
    unsafe { sym_out_break(on as u64) }
}
/// Ends the path in good order (used when the program calls exit).
pub fn ended() -> ! {
    unsafe { sym_ended() }
}
pub fn tmpdir() -> String {
    let mut v = vec![0u8; 256];
    let n = unsafe { sym_tmpdir(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    String::from_utf8(v).unwrap()
}
pub fn panic_loc() -> String {
    let mut v = vec![0u8; 256];
    let n = unsafe { sym_panic_loc(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    String::from_utf8(v).unwrap_or_default()
}

/// Runs `f`: `Some(r)` if it returned, `None` if it panicked (which is not a violation by itself).
/// The second component is 0 (returned), 1 (panicked) or 2 (killed by an injected crash).
pub fn catch<R, F: FnOnce() -> R>(f: F) -> (Option<R>, u32) {
    struct D<R, F> {
        f: Option<F>,
        r: Option<R>,
    }
    extern "C" fn go<R, F: FnOnce() -> R>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<R, F>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d: D<R, F> = D { f: Some(f), r: None };
    let c = unsafe { sym_catch(go::<R, F>, &mut d as *mut D<R, F> as *mut u8) };
    if c != 0 {
        std::mem::forget(d);
        return (None, c);
    }
    (d.r.take(), 0)
}

/// A symbolic ASCII string of concrete length `len` (every byte arbitrary in `lo..=hi`).
pub fn bytes(name: &str, len: usize, lo: u8, hi: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        let b = u8s(name);
        assume(b >= lo && b <= hi);
        v.push(b);
    }
    v
}
pub fn ascii(name: &str, len: usize) -> String {
    unsafe { String::from_utf8_unchecked(bytes(name, len, 0, 127)) }
}
/// A symbolic string whose bytes all come from `set`.
pub fn from_set(name: &str, len: usize, set: &[u8]) -> String {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        let b = u8s(name);
        let mut ok = false;
        for c in set {
            ok |= b == *c;
        }
        assume(ok);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// how high the degree of a polynomial in one byte may be before its values are told apart
pub fn split(degree: u64) {
    unsafe { sym_split(degree) }
}
/// A second coroutine that runs `f`; it starts with the first switch.
pub fn co_start<F: FnOnce()>(f: F) {
    extern "C" fn go<F: FnOnce()>(d: *mut u8) {
        let f = unsafe { Box::from_raw(d as *mut F) };
        f()
    }
    unsafe { sym_co_start(go::<F>, Box::into_raw(Box::new(f)) as *mut u8) }
}
/// Goes on with the other coroutine, until that one switches back or ends; false if there is none.
pub fn co_switch() -> bool {
    unsafe { sym_co_switch() & 1 == 1 }
}
