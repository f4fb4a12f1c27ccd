//! P22: interrupts and resizes, at any point of the real code (built with the `signals` feature).
#![no_main]
use fyi_msg::*;
use harness::*;
use std::{num::NonZeroU32, sync::atomic::{AtomicU32, Ordering::SeqCst}, thread, time::Duration};

const INT: u32 = 2;
const WINCH: u32 = 28;
const HIDE: &[u8] = b"\x1b[?25l";
const SHOW: &[u8] = b"\x1b[?25h";
fn nz(n: u32) -> NonZeroU32 { NonZeroU32::new(n).unwrap() }
fn sleep(ms: u64) { thread::sleep(Duration::from_millis(ms)); }
fn has(h: &[u8], n: &[u8]) -> bool { h.windows(n.len()).any(|w| w == n) }
/// Is the cursor hidden after this output?
fn hidden(o: &[u8]) -> bool {
    let mut h = false;
    for w in o.windows(HIDE.len()) {
        if w == HIDE { h = true; } else if w == SHOW { h = false; }
    }
    h
}
static EXITS: AtomicU32 = AtomicU32::new(0);
/// Is a ticker starting while interrupts arrive?
static STARTING: AtomicU32 = AtomicU32::new(0);
/// The process must not end.
extern "C" fn alive(_: i32) { check!(false, "an interrupt ends the process under a policy that keeps it going"); }
/// The process may end: it fails, and leaves the cursor visible.
extern "C" fn killed(code: i32) {
    check!(code != 0, "the interrupted process succeeds");
    // (the ticker may just have been about to hide it when the interrupt came)
    let o = out(2);
    check!(!hidden(&o) || STARTING.load(SeqCst) == 1 && has(&o, SHOW), "the interrupted process leaves the cursor hidden");
    check!(EXITS.load(SeqCst) == 0, "the process ends twice");
    reach(1);
}
/// A bar at some point of its life.
fn bar(s: u32) -> Progless {
    winsize(80, 24);
    let p = Progless::from(nz(3));
    match s {
        0 => {
            // the policy is registered by the first ticker
            sleep(50);
            p.reset(nz(4));
            out_clear(2);
            STARTING.store(1, SeqCst);
        },
        1 => sleep(50),
        2 => sleep(250),
        _ => {
            sleep(50);
            p.finish();
        },
    }
    p
}
/// Something to be interrupted.
fn work(p: &Progless, k: u32) {
    match k {
        0 => sleep(150),
        1 => { p.finish(); },
        2 => { let _ = p.push_msg(Msg::from("hello").with_newline(true)); },
        3 => p.reset(nz(2)),
        4 => p.increment_n(3),
        5 => {
            p.add("task");
            p.set_title(Some("title"));
            p.increment();
        },
        6 => Msg::from("hello").with_newline(true).eprint(),
        _ => {},
    }
}
/// The default policy: the first interrupt is the end.
#[unsafe(no_mangle)]
pub extern "C" fn h_default() {
    let (s, k) = (choose(4), choose(8));
    let p = bar(s);
    if k == 3 { STARTING.store(1, SeqCst); }
    on_exit(killed);
    check!(handled(INT), "a bar does not handle interrupts");
    sched(param(0), param(1));
    signals(INT, param(2));
    work(&p, k);
    let left = signals_left();
    signals(INT, 0);
    sched(255, 0);
    // (the other thread may be on its way out)
    sleep(50);
    check!(left == param(2), "the process survives an interrupt under the default policy");
    p.finish();
    check!(!hidden(&out(2)), "the cursor stays hidden at the end");
    STARTING.store(0, SeqCst);
    reach(2);
    raise(INT);
    check!(false, "the process survives an interrupt under the default policy");
}
fn warned(o: &[u8]) -> bool { has(o, b"Early shutdown in progress.") }
/// Two strikes, or keep alive.
#[unsafe(no_mangle)]
pub extern "C" fn h_soft() {
    let keep = choose(2) == 1;
    let sw = if keep { Progless::sigint_keepalive() } else { Progless::sigint_two_strike() };
    check!(handled(INT) && !sw.load(SeqCst), "the policy starts with an interrupt");
    let (s, k) = (choose(4), choose(8));
    let p = bar(s);
    if k == 3 { STARTING.store(1, SeqCst); }
    on_exit(if keep || param(2) == 1 { alive } else { killed });
    sched(param(0), param(1));
    signals(INT, param(2));
    work(&p, k);
    let got = param(2) - signals_left();
    signals(INT, 0);
    sched(255, 0);
    sleep(50);
    check!(sw.load(SeqCst) == (got > 0), "the switch does not tell whether there was an interrupt");
    check!(keep || got < 2, "the process survives a second interrupt");
    // once more
    if got == 0 {
        if p.add("probe") {
            sleep(250);
            check!(hidden(&out(2)), "the cursor is visible while the bar runs");
        }
        on_exit(alive);
        raise(INT);
        check!(sw.load(SeqCst), "the interrupt is not reported");
        reach(3);
    }
    check!(!hidden(&out(2)), "the cursor stays hidden after an interrupt");
    if p.add("another") {
        sleep(250);
        check!(warned(&out(2)), "the bar does not tell of the interrupt");
        reach(4);
    }
    if keep {
        raise(INT);
        check!(sw.load(SeqCst), "the interrupt is not reported");
        reach(5);
    }
    p.finish();
    check!(!hidden(&out(2)), "the cursor stays hidden at the end");
    if !keep {
        on_exit(killed);
        raise(INT);
        check!(false, "the process survives a second interrupt");
    }
}
/// The first policy chosen is the one.
#[unsafe(no_mangle)]
pub extern "C" fn h_first_policy() {
    let mut first = 0;
    let mut at: Option<*const ()> = None;
    let k = choose(param(0)) + 1;
    for _ in 0..k {
        let c = choose(3) + 1;
        if first == 0 { first = c; }
        match c {
            1 => {
                winsize(80, 24);
                let p = Progless::from(nz(3));
                sleep(50);
                p.finish();
                check!(handled(INT), "a bar does not handle interrupts");
            },
            2 | 3 => {
                let s = if c == 2 { Progless::sigint_two_strike() } else { Progless::sigint_keepalive() };
                let s: *const () = (&raw const **s).cast();
                check!(at.is_none_or(|a| a == s), "there are two switches");
                at = Some(s);
            },
            _ => {},
        }
    }
    let sw = if first == 3 { Progless::sigint_two_strike() } else { Progless::sigint_keepalive() };
    check!(!sw.load(SeqCst), "the policy starts with an interrupt");
    on_exit(if first == 1 { killed } else { alive });
    raise(INT);
    check!(first != 1, "the default policy was replaced");
    check!(sw.load(SeqCst), "the interrupt is not reported");
    on_exit(if first == 3 { alive } else { killed });
    raise(INT);
    check!(first == 3, "the two-strike policy was replaced");
    reach(3);
}
/// The cursor, without interrupts: hidden by a running bar, shown at its end.
#[unsafe(no_mangle)]
pub extern "C" fn h_cursor() {
    winsize(80, 24);
    if choose(2) == 1 { let _ = Progless::sigint_keepalive(); }
    let p = Progless::from(nz(2));
    let (a, b) = (choose(6), choose(4));
    let q = p.clone();
    let h = if b == 0 { drop(q); None } else { Some(thread::spawn(move || match b {
        1 => { q.finish(); },
        2 => q.increment_n(2),
        _ => q.reset(nz(4)),
    })) };
    sched(param(0), param(1));
    match a {
        0 => { p.finish(); },
        1 => p.increment_n(2),
        2 => p.reset(nz(3)),
        3 => {
            p.finish();
            p.reset(nz(3));
        },
        4 => { let _ = p.push_msg(Msg::from("hello").with_newline(true)); },
        _ => {},
    }
    if let Some(h) = h { let _ = h.join(); }
    sched(255, 0);
    sleep(250);
    let run = p.add("probe");
    check!(hidden(&out(2)) == run, "the cursor is hidden with the bar stopped, or visible with the bar running");
    reach(if run { 1 } else { 2 });
    p.reset(nz(2));
    sleep(250);
    check!(hidden(&out(2)), "the cursor is visible while a restarted bar runs");
    drop(p);
    check!(!hidden(&out(2)), "the cursor stays hidden after the last handle is gone");
}
/// A resize: never the end of anything; the next frame fits.
#[unsafe(no_mangle)]
pub extern "C" fn h_resize() {
    winsize(80, 24);
    on_exit(alive);
    let p = Progless::from(nz(2));
    sleep(50);
    check!(handled(WINCH), "a bar does not handle resizes");
    sleep(250);
    let n = param(2);
    let w = if n == 0 { u16() } else { [200, 5, 60, 1, 9, 0, 11, 80, 1000][choose(n) as usize] };
    let c = (fix(u64::from(w < 10)) == 1, fix(u64::from(w > 10)) == 1, fix(u64::from(w >= 80)) == 1);
    winsize(w, 24);
    sched(param(0), param(1));
    signals(WINCH, 1);
    work(&p, choose(8));
    let got = signals_left() == 0;
    signals(WINCH, 0);
    sched(255, 0);
    sleep(50);
    if !got { raise(WINCH); }
    if p.add("probe") {
        p.set_title(None::<Msg>);
        sleep(250);
        out_clear(2);
        p.set_title(Some("t"));
        sleep(250);
        let o = out(2);
        let (none, some, full) = c;
        check!(!none || !has(&o, b"%"), "a frame is drawn in a window too narrow");
        check!(!some || has(&o, b"%"), "no frame is drawn after a resize");
        check!(!full || has(&o, b"t\n"), "no whole frame is drawn after a resize");
        reach(if none { 1 } else if full { 2 } else { 3 });
    }
    p.finish();
    check!(!hidden(&out(2)), "the cursor stays hidden at the end");
}
