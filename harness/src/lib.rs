//! Harness interface: every `se_*` function is a primitive of the symbolic executor; natively
//! (counterexample replay) they are provided by `shim.c`.
#![allow(clippy::missing_safety_doc)]

pub mod refm;

unsafe extern "C" {
    fn se_u8() -> u8;
    fn se_ascii() -> u8;
    fn se_u16() -> u16;
    fn se_u32() -> u32;
    fn se_u64() -> u64;
    fn se_below(n: u32) -> u32;
    fn se_fix(v: u64) -> u64;
    fn se_assume(c: bool);
    fn se_assert(c: bool, p: *const u8, n: usize);
    fn se_reach(n: u32);
    fn se_param(n: u32) -> u64;
    fn se_observe(p: *const u8, n: usize);
    fn se_stdin(p: *const u8, n: usize);
    fn se_stdin_left() -> usize;
    fn se_stdin_err(n: u32);
    fn se_out_len(fd: u32) -> usize;
    fn se_out(fd: u32, p: *mut u8, off: usize, n: usize);
    fn se_out_clear(fd: u32);
    fn se_wfail(fd: u32, nth: u32);
    fn se_winsize(w: u16, h: u16, on: bool);
    fn se_advance(ns: u64);
    fn se_clock(sec: u64, nsec: u64);
    fn se_sched(preempt: u32, ticks: u32);
    fn se_settle();
    fn se_threads() -> u32;
    fn se_call_main(f: unsafe extern "C" fn(i32, *const *const u8) -> i32, argc: i32, argv: *const *const u8) -> i32;
    fn se_target_main(argc: i32, argv: *const *const u8) -> i32;
    fn se_show(p: *const u8, n: usize);
    fn se_raise(sig: u32);
    fn se_signals(sig: u32, budget: u32);
    fn se_signals_left() -> u32;
    fn se_on_exit(f: extern "C" fn(i32));
    fn se_sig(sig: u32) -> usize;
}

/// Symbolic inputs.
pub fn u8() -> u8 { unsafe { se_u8() } }
pub fn u16() -> u16 { unsafe { se_u16() } }
pub fn u32() -> u32 { unsafe { se_u32() } }
pub fn u64() -> u64 { unsafe { se_u64() } }
pub fn boolean() -> bool { unsafe { se_below(2) == 1 } }
pub fn i128() -> i128 { (u64() as u128 | (u64() as u128) << 64) as i128 }
pub fn u128() -> u128 { u64() as u128 | (u64() as u128) << 64 }
/// A symbolic ASCII byte (0..=127).
pub fn ascii() -> u8 { unsafe { se_ascii() } }
/// A symbolic value below `n`.
pub fn below(n: u32) -> u32 { unsafe { se_below(n) } }
/// A case split: a value below `n`, one path per value.
pub fn choose(n: u32) -> u32 { unsafe { se_fix(se_below(n) as u64) as u32 } }
/// One path per feasible value.
pub fn fix(v: u64) -> u64 { unsafe { se_fix(v) } }
pub fn assume(c: bool) { unsafe { se_assume(c) } }
pub fn check(c: bool, msg: &str) { unsafe { se_assert(c, msg.as_ptr(), msg.len()) } }
/// Reachability witness.
pub fn reach(n: u32) { unsafe { se_reach(n) } }
/// Bound parameter (set per tier).
pub fn param(n: u32) -> u32 { unsafe { se_param(n) as u32 } }
/// Record an observed result (compared with the native run of the same inputs).
pub fn observe(b: &[u8]) { unsafe { se_observe(b.as_ptr(), b.len()) } }
pub fn observe_n(n: u64) { observe(&n.to_le_bytes()) }
pub fn stdin(b: &[u8]) { unsafe { se_stdin(b.as_ptr(), b.len()) } }
pub fn stdin_left() -> usize { unsafe { se_stdin_left() } }
pub fn stdin_err(n: u32) { unsafe { se_stdin_err(n) } }
pub fn out(fd: u32) -> Vec<u8> {
    unsafe {
        let n = se_out_len(fd);
        let mut v = vec![0; n];
        se_out(fd, v.as_mut_ptr(), 0, n);
        v
    }
}
pub fn out_len(fd: u32) -> usize { unsafe { se_out_len(fd) } }
pub fn out_clear(fd: u32) { unsafe { se_out_clear(fd) } }
pub fn wfail(fd: u32, nth: u32) { unsafe { se_wfail(fd, nth) } }
/// The nth next write is interrupted by a signal.
pub fn wintr(fd: u32, nth: u32) { unsafe { se_wfail(fd, nth | 1 << 16) } }
/// The nth next write takes only `n` bytes.
pub fn wshort(fd: u32, nth: u32, n: u32) { unsafe { se_wfail(fd, nth | (n + 1) << 16) } }
pub fn winsize(w: u16, h: u16) { unsafe { se_winsize(w, h, true) } }
pub fn no_winsize() { unsafe { se_winsize(0, 0, false) } }
pub fn advance_ms(n: u64) { unsafe { se_advance(n * 1_000_000) } }
pub fn clock(s: u64, n: u64) { unsafe { se_clock(s, n) } }
pub fn sched(preempt: u32, ticks: u32) { unsafe { se_sched(preempt, ticks) } }
pub fn settle() { unsafe { se_settle() } }
pub fn threads() -> u32 { unsafe { se_threads() } }
/// Run the real program (linked into the module) with these arguments.
pub fn run_program(args: &[Vec<u8>]) -> i32 {
    let mut own: Vec<Vec<u8>> = args.to_vec();
    for a in &mut own {
        a.push(0);
    }
    let mut argv: Vec<*const u8> = own.iter().map(|a| a.as_ptr()).collect();
    argv.push(core::ptr::null());
    unsafe { se_call_main(se_target_main, args.len() as i32, argv.as_ptr()) }
}
/// Deliver a signal to this thread now.
pub fn raise(sig: u32) { unsafe { se_raise(sig) } }
/// Up to `budget` signals may arrive from here on, at any visible operation of any thread.
pub fn signals(sig: u32, budget: u32) { unsafe { se_signals(sig, budget) } }
pub fn signals_left() -> u32 { unsafe { se_signals_left() } }
/// Called in place of the end of the process.
pub fn on_exit(f: extern "C" fn(i32)) { unsafe { se_on_exit(f) } }
/// Has a handler been registered?
pub fn handled(sig: u32) -> bool { unsafe { se_sig(sig) != 0 } }
pub fn show(b: &[u8]) { unsafe { se_show(b.as_ptr(), b.len()) } }

/// Text of at most `max` characters: each a symbolic ASCII character or one of `alpha`.
/// One path per length and per choice of class; the ASCII values stay symbolic.
pub fn text(max: u32, alpha: &[&str]) -> String {
    let n = choose(max + 1);
    text_n(n, alpha)
}
pub fn text_n(n: u32, alpha: &[&str]) -> String {
    let mut v = Vec::with_capacity(n as usize * 4);
    for _ in 0..n {
        let k = if alpha.is_empty() { 0 } else { choose(alpha.len() as u32 + 1) };
        if k == 0 {
            v.push(ascii());
        } else {
            v.extend_from_slice(alpha[k as usize - 1].as_bytes());
        }
    }
    // SAFETY: built from ASCII and valid UTF-8 pieces.
    unsafe { String::from_utf8_unchecked(v) }
}
/// Text of at most `max` characters, each one of `alpha` (concrete).
pub fn word(max: u32, alpha: &[&str]) -> String {
    let n = choose(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(alpha[choose(alpha.len() as u32) as usize]);
    }
    s
}
/// Byte equality without early exit.
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }

#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::check($c, concat!(stringify!($c), " (", file!(), ":", line!(), ")"))
    };
    ($c:expr, $m:literal) => {
        $crate::check($c, $m)
    };
}
