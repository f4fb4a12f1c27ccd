//! P11-P14, P17-P20, P25: before/after sizes, totals, counts, labels, frames, summaries.
#![no_main]
use fyi_msg::*;
use dactyl::{NicePercent, NiceU64};
use harness::*;
use std::num::*;

/// The value of a decimal number with thousands separators; None if badly formed.
fn number(s: &[u8]) -> Option<u128> {
    if s.is_empty() { return None; }
    let mut n = 0u128;
    for (i, &c) in s.iter().enumerate() {
        let left = s.len() - i;
        if left % 4 == 0 {
            if c != b',' || i == 0 { return None; }
        } else {
            if !c.is_ascii_digit() { return None; }
            n = n * 10 + u128::from(c - b'0');
        }
    }
    Some(n)
}

/// A size of `param(0)` bits.
fn sized() -> u64 { u64() >> (64 - param(0)) }

// ---------------------------------------------------------------- P11
#[unsafe(no_mangle)]
pub extern "C" fn h_ba() {
    let (b, a) = (u64(), u64());
    let x = match choose(3) {
        0 => BeforeAfter::from((b, a)),
        1 => {
            let mut x = BeforeAfter::start(b);
            check!(x.after().is_none() && x.less().is_none() && x.more().is_none(), "an unfinished pair has a difference");
            check!(x.less_percent().is_none() && x.more_percent().is_none(), "an unfinished pair has a percentage");
            x.stop(a);
            x
        },
        _ => {
            // a second measurement replaces the first
            let mut x = BeforeAfter::start(b);
            x.stop(u64());
            x.stop(a);
            x
        },
    };
    let g = |o: Option<NonZeroU64>| o.map_or(0, NonZeroU64::get);
    check!(g(x.before()) == b && x.before().is_some() == (b != 0), "before is not the size given");
    check!(g(x.after()) == a && x.after().is_some() == (a != 0), "after is not the size given");
    let both = a != 0 && b != 0;
    let (less, more) = (both && a < b, both && a > b);
    check!(x.less().is_some() == less, "a saving is reported wrongly");
    check!(x.more().is_some() == more, "a growth is reported wrongly");
    if less {
        check!(g(x.less()) == b - a, "the saving is not before minus after");
        reach(1);
    }
    if more {
        check!(g(x.more()) == a - b, "the growth is not after minus before");
        reach(2);
    }
    check!(x.less_percent().is_some() == less, "a percentage saved is reported wrongly");
    check!(x.more_percent().is_some() == more, "a percentage grown is reported wrongly");
    observe_n(g(x.less()));
    observe_n(g(x.more()));
}
/// The percentages are the ratio to the size before.
#[unsafe(no_mangle)]
pub extern "C" fn h_ba_pct() {
    let (b, a) = (sized(), sized());
    assume(b != 0 && a != 0);
    let (less, more) = (a < b, a > b);
    let x = BeforeAfter::from((b, a));
    if less {
        let p = x.less_percent();
        check!(p.is_some_and(|p| p > 0.0 && p < 1.0), "the percentage saved is not between none and all");
        check!(p.is_some_and(|p| p == (b - a) as f64 / b as f64), "the percentage saved is not the ratio of the sizes");
        reach(1);
    }
    if more {
        let p = x.more_percent();
        check!(p.is_some_and(|p| p == (a - b) as f64 / b as f64), "the percentage grown is not the ratio of the sizes");
        reach(2);
    }
}

// ---------------------------------------------------------------- P12
#[unsafe(no_mangle)]
pub extern "C" fn h_saved() {
    saved_case(sized(), sized());
}
/// Large sizes: one of several, and any difference of p0 symbolic bits at four places, either way.
#[unsafe(no_mangle)]
pub extern "C" fn h_saved_big() {
    let b = [(1 << 32) - 1, 1_000_000_000_000, (1 << 53) + 1, u64::MAX, 1 << 63, 1 << 24, 1 << 32, 1 << 41][choose(param(1)) as usize];
    let d = (u64() >> (64 - param(0))) << [0, 44, 16, 30][choose(param(2)) as usize];
    assume(d <= b);
    if choose(2) == 0 { saved_case(b, b - d) } else { saved_case(b - d, b) }
}
fn saved_case(b: u64, a: u64) {
    let saved = a != 0 && b != 0 && a < b;
    // an earlier suffix is replaced
    let nl = choose(2) == 1;
    let base = if nl { Msg::info("Body é").with_newline(false) } else { Msg::new(MsgKind::None, "x").with_indent(1) };
    let head = base.as_str().to_owned();
    let m = if nl { base.with_suffix(" old").with_newline(nl) } else { base };
    let m = m.with_bytes_saved(BeforeAfter::from((b, a)));
    observe(m.as_bytes());
    let s = m.as_bytes();
    check!(s.len() > head.len() && same(&s[..head.len()], head.as_bytes()), "the text before the suffix changed");
    let mut t = &s[head.len()..];
    if nl {
        check!(t.ends_with(b"\n"), "the line ending changed");
        t = &t[..t.len() - 1];
    }
    if saved {
        let (o, c) = (b" \x1b[2m(Saved ", b".)\x1b[0m");
        check!(t.len() > o.len() + c.len() && &t[..o.len()] == o && &t[t.len() - c.len()..] == c, "the savings note is not the documented one");
        let t = &t[o.len()..t.len() - c.len()];
        let k = t.iter().position(|&c| c == b' ').unwrap_or(t.len());
        check!(same(&t[..k], NiceU64::from(b - a).as_bytes()), "the number of bytes saved is wrong");
        let t = &t[k..];
        check!(t.len() > 9 && &t[..8] == b" bytes, " && t[t.len() - 1] == b'%', "the savings note has no percentage");
        let p = NicePercent::from((b - a) as f64 / b as f64);
        check!(same(&t[8..], p.as_bytes()), "the percentage is not the ratio of the sizes");
        reach(1);
    } else {
        check!(t == b" \x1b[2m(No savings.)\x1b[0m" || t == b" \x1b[2m(No savings.)\x1b[22m" , "the no-savings note is not the documented one");
        reach(2);
    }
}

// ---------------------------------------------------------------- P13
/// The count as the summary states it.
fn count(p: &Progless) -> u128 {
    let m = p.summary(MsgKind::None, "x", "x");
    let s = m.as_bytes();
    let k = s.iter().position(|&c| c == b' ').unwrap_or(0);
    number(&s[..k]).unwrap_or(u128::MAX)
}
macro_rules! totals {
    ($($n:ident $ty:ty, $sym:expr, $new:expr;)+) => {$(
        fn $n() {
            let t: $ty = $sym;
            let new: fn($ty) -> Result<Progless, ProglessError> = $new;
            let v = i128::try_from(t).ok();
            let ok = v.is_some_and(|v| v >= 1 && v <= 4_294_967_295);
            let zero = v == Some(0);
            match new(t) {
                Ok(p) => {
                    check!(ok, "a total out of range was accepted");
                    check!(threads() == 2, "a started bar has no ticker");
                    check!(count(&p) == 0, "a fresh bar has a count");
                    p.finish();
                    check!(threads() == 1, "the ticker outlives finish");
                    let s = p.summary(MsgKind::None, "x", "x");
                    let w = Progless::from(NonZeroU32::new(t as u32).unwrap());
                    w.finish();
                    check!(same(s.as_bytes(), w.summary(MsgKind::None, "x", "x").as_bytes()), "the bar did not finish at the total");
                    reach(1);
                },
                Err(e) => {
                    check!(!ok, "a good total was refused");
                    check!((e == ProglessError::EmptyTotal) == zero, "the wrong error was reported");
                    check!((e == ProglessError::TotalOverflow) == !zero, "the wrong error was reported");
                    check!(threads() == 1, "a failed start left a thread behind");
                    reach(2);
                },
            }
        }
    )+};
}
/// Any value but zero.
macro_rules! nz { ($ty:ty, $t:expr) => {{ assume($t != 0); <$ty>::new($t).unwrap() }}; }
totals! {
    t_u8 u8, u8(), |t| t.try_into();
    t_u16 u16, u16(), |t| t.try_into();
    t_u32 u32, u32(), |t| t.try_into();
    t_u64 u64, u64(), |t| t.try_into();
    t_usize usize, u64() as usize, |t| t.try_into();
    t_u128 u128, u128(), |t| t.try_into();
    t_i8 i8, u8() as i8, |t| t.try_into();
    t_i16 i16, u16() as i16, |t| t.try_into();
    t_i32 i32, u32() as i32, |t| t.try_into();
    t_i64 i64, u64() as i64, |t| t.try_into();
    t_isize isize, u64() as isize, |t| t.try_into();
    t_i128 i128, i128(), |t| t.try_into();
    t_n8 u8, u8(), |t| Ok(nz!(NonZeroU8, t).into());
    t_n16 u16, u16(), |t| Ok(nz!(NonZeroU16, t).into());
    t_n32 u32, u32(), |t| Ok(nz!(NonZeroU32, t).into());
    t_n64 u64, u64(), |t| nz!(NonZeroU64, t).try_into();
    t_nsize usize, u64() as usize, |t| nz!(NonZeroUsize, t).try_into();
    t_n128 u128, u128(), |t| nz!(NonZeroU128, t).try_into();
}
#[unsafe(no_mangle)]
pub extern "C" fn h_totals() {
    const T: [fn(); 18] = [
        t_u8, t_u16, t_u32, t_u64, t_usize, t_u128, t_i8, t_i16, t_i32, t_i64, t_isize, t_i128,
        t_n8, t_n16, t_n32, t_n64, t_nsize, t_n128,
    ];
    T[choose(18) as usize]();
}

// ---------------------------------------------------------------- P14
/// What the operations imply.
struct Count { done: u64, total: u64, run: bool, task: [bool; 2] }
impl Count {
    fn end(&mut self) {
        if self.run {
            self.run = false;
            self.done = self.total;
            self.task = [false; 2];
        }
    }
    fn to(&mut self, d: u64) {
        if self.run {
            if d < self.total { self.done = d; } else { self.end(); }
        }
    }
    fn start(&mut self, t: u64) {
        *self = Count { done: 0, total: t, run: true, task: [false; 2] };
    }
}
const TASK: [&str; 2] = ["one", "two"];
fn check_count(p: &Progless, m: &Count) {
    check!(m.done <= m.total, "the model overflows");
    let s = p.summary(MsgKind::None, "x", "y");
    let s = s.as_bytes();
    let k = s.iter().position(|&c| c == b' ').unwrap_or(0);
    check!(same(&s[..k], dactyl::NiceU32::from(m.done as u32).as_bytes()), "the count is not what the operations imply");
}
/// A number of `param(1)` bits.
fn step_u32() -> u32 { u32() >> (32 - param(1)) }
/// A bar of any total.
fn any_bar(m: &mut Count) -> Progless {
    let t = step_u32();
    assume(t != 0);
    m.start(t.into());
    Progless::from(NonZeroU32::new(t).unwrap())
}
#[unsafe(no_mangle)]
pub extern "C" fn h_count() {
    let mut m = Count { done: 0, total: 1, run: false, task: [false; 2] };
    let p = if choose(2) == 0 { any_bar(&mut m) } else { Progless::default() };
    let k = choose(param(0) + 1);
    for _ in 0..k {
        match choose(9) {
            0 => {
                let n = step_u32();
                if n != 0 { m.to(m.done + u64::from(n)); }
                p.increment_n(n);
            },
            1 => {
                m.to(m.done + 1);
                p.increment();
            },
            2 => {
                let n = step_u32();
                m.to(n.into());
                p.set_done(n);
            },
            3 | 4 => {
                let t = choose(2) as usize;
                let new = m.run && !m.task[t];
                check!(p.add(TASK[t]) == new, "adding a task is reported wrongly");
                if m.run { m.task[t] = true; }
            },
            5 => {
                let t = choose(2) as usize;
                if m.task[t] {
                    m.task[t] = false;
                    m.to(m.done + 1);
                }
                p.remove(TASK[t]);
            },
            6 => {
                let t = step_u32();
                if t == 0 {
                    check!(p.try_reset(t) == Err(ProglessError::EmptyTotal), "an empty total was accepted");
                } else {
                    m.start(t.into());
                    check!(p.try_reset(t).is_ok(), "a good total was refused");
                }
            },
            7 => {
                let t = step_u32();
                assume(t != 0);
                m.start(t.into());
                p.reset(NonZeroU32::new(t).unwrap());
            },
            _ => {
                m.end();
                p.finish();
            },
        }
    }
    // the ticker changes no count
    if param(2) == 1 {
        std::thread::sleep(std::time::Duration::from_millis(250));
    }
    check_count(&p, &m);
    if k == param(0) { reach(if m.run { 1 } else { 2 }); }
    check!(p.add("probe") == m.run, "the bar runs when it should not, or not when it should");
    p.finish();
    m.end();
    check_count(&p, &m);
}

// ---------------------------------------------------------------- frames
/// What a terminal shows of the bar's output.
struct Screen {
    /// Every frame: its visible lines.
    frames: Vec<Vec<Vec<u8>>>,
    /// The cursor row and column, counted from the first line of the bar.
    row: usize,
    col: usize,
}
/// The display width of a line without sequences.
fn cols_of(l: &[u8]) -> usize { refm::ref_width(l) }
/// Plays the output on a terminal. Only SGR, erase-below and cursor-up sequences are known.
fn play(out: &[u8]) -> Screen {
    let mut s = Screen { frames: vec![], row: 0, col: 0 };
    let mut lines: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        let c = out[i];
        if c == 0x1b {
            check!(out.get(i + 1) == Some(&b'['), "an unknown sequence is written");
            i += 2;
            let mut n = 0usize;
            while i < out.len() && (out[i].is_ascii_digit() || out[i] == b';') {
                n = if out[i] == b';' { 0 } else { n * 10 + usize::from(out[i] - b'0') };
                i += 1;
            }
            match out.get(i) {
                Some(b'm') => {},
                Some(b'J') => {
                    check!(n == 0 && s.row == 0 && s.col == 0, "the screen is not cleared from the start of the bar");
                    if lines.len() > 1 || !lines[0].is_empty() { s.frames.push(std::mem::take(&mut lines)); }
                    lines = vec![vec![]];
                },
                Some(b'A') => {
                    check!(n <= s.row, "the cursor moves above the bar");
                    s.row -= n;
                },
                _ => check!(false, "an unknown sequence is written"),
            }
        } else if c == b'\r' {
            s.col = 0;
        } else if c == b'\n' {
            s.row += 1;
            s.col = 0;
            if s.row == lines.len() { lines.push(vec![]); }
        } else {
            check!(c >= 0x20 && c != 0x7f, "a control character is written");
            s.col += 1;
            lines[s.row].push(c);
        }
        i += 1;
    }
    if lines.len() > 1 || !lines[0].is_empty() { s.frames.push(lines); }
    s
}
/// Lets the ticker draw its first frame, and returns it.
fn first_frame() -> Option<Vec<Vec<u8>>> {
    out_clear(2);
    std::thread::sleep(std::time::Duration::from_millis(250));
    last_frame()
}
fn last_frame() -> Option<Vec<Vec<u8>>> {
    let o = out(2);
    observe(&o);
    let mut s = play(&o);
    check!(s.row == 0 && s.col == 0, "the cursor is not back where the bar starts");
    out_clear(2);
    s.frames.pop()
}

// ---------------------------------------------------------------- P20
const COLS: [u16; 12] = [80, 11, 40, 41, 45, 60, 53, 120, 200, 256, 1000, 39];
fn percent(done: u32, total: u32) -> NicePercent {
    NicePercent::from(if fix(u64::from(done == 0)) == 1 { 0.0 } else if fix(u64::from(done >= total)) == 1 { 1.0 } else { (f64::from(done) / f64::from(total)) as f32 })
}
fn check_bar(line: &[u8], cols: u16, clock: &[u8], done: u32, total: u32) {
    let usable = usize::from(cols - 1).min(255);
    let d = dactyl::NiceU32::from(done);
    let t = dactyl::NiceU32::from(total);
    let pct = percent(done, total);
    // the fixed part of the line
    let mut head = Vec::new();
    head.push(b'[');
    head.extend_from_slice(clock);
    head.extend_from_slice(b"]  [");
    let mut tail = b"]  ".to_vec();
    tail.extend_from_slice(d.as_bytes());
    tail.push(b'/');
    tail.extend_from_slice(t.as_bytes());
    tail.extend_from_slice(b"  ");
    tail.extend_from_slice(pct.as_bytes());
    let fixed = head.len() + tail.len();
    if usable < 40 || fixed > usable {
        // no room: only the percentage
        let mut want = " » ".as_bytes().to_vec();
        want.extend_from_slice(pct.as_bytes());
        check!(same(line, &want), "the short form does not show the percentage");
        reach(3);
        return;
    }
    let space = if usable - fixed >= 10 { usable - fixed } else { 0 };
    check!(line.len() == fixed + space, "the bar does not have the room that is left");
    check!(same(&line[..head.len()], &head), "the elapsed time is not the current one");
    check!(same(&line[line.len() - tail.len()..], &tail), "the count, total or percentage is not the current one");
    let bar = &line[head.len()..head.len() + space];
    let k = bar.iter().take_while(|c| **c == b'#').count();
    check!(bar[k..].iter().all(|c| *c == b'-'), "the bar is not done cells followed by remaining cells");
    let (k, s, d, t) = (k as u64, space as u64, u64::from(done), u64::from(total));
    check!(k * t <= d * s && d * s < (k + 1) * t, "the bar is not proportional to the count");
    if k > 0 && k < s { reach(1); }
    reach(2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bar() {
    let cols = COLS[choose(param(1)) as usize];
    winsize(cols, 24);
    let t = u32() >> (32 - param(0));
    let d = u32() >> (32 - param(0));
    assume(t != 0 && d < t);
    fix(percent(d, t).len() as u64);
    let p = Progless::from(NonZeroU32::new(t).unwrap());
    p.set_done(d);
    let f = first_frame();
    check!(f.is_some(), "nothing was drawn");
    let f = f.unwrap_or_default();
    check!(f.len() == 1, "the bar alone is not one line");
    check_bar(&f[0], cols, b"00:00:00", d, t);
    p.finish();
}
const TOTALS: [u32; 8] = [u32::MAX, 7, 1000, 1 << 24, 999_999_999, 65_537, 1 << 31, 1];
/// Some totals, every count below them.
#[unsafe(no_mangle)]
pub extern "C" fn h_bar_big() {
    let cols = [80, 60, 120, 256, 54, 40][choose(param(1)) as usize];
    winsize(cols, 24);
    let t = TOTALS[choose(param(0)) as usize];
    let d = u32();
    assume(d < t);
    fix(percent(d, t).len() as u64);
    let p = Progless::from(NonZeroU32::new(t).unwrap());
    p.set_done(d);
    let f = first_frame();
    check!(f.is_some(), "nothing was drawn");
    let f = f.unwrap_or_default();
    check!(f.len() == 1, "the bar alone is not one line");
    check_bar(&f[0], cols, b"00:00:00", d, t);
    p.finish();
}

/// The elapsed time shown is the time since the start.
#[unsafe(no_mangle)]
pub extern "C" fn h_bar_clock() {
    const SECS: [u64; 14] = [0, 1, 59, 60, 61, 599, 3599, 3600, 3661, 36_000, 86_398, 86_399, 86_400, 4_294_967_297];
    winsize(80, 24);
    let p = Progless::try_from(10u8).unwrap();
    p.set_done(3);
    let f = first_frame();
    check!(f.is_some_and(|f| f.len() == 1 && f[0].starts_with(b"[00:00:00]  [")), "the first frame is not drawn, or not at time zero");
    let s = SECS[choose(SECS.len() as u32) as usize];
    advance_ms(s * 1000 + u64::from(choose(2)) * 500);
    std::thread::sleep(std::time::Duration::from_millis(250));
    let f = last_frame();
    check!(f.is_some() == (s > 0), "the display is not refreshed exactly when the time changed");
    if let Some(f) = f {
        let n = s.min(86_399);
        let t = [n / 3600, n / 60 % 60, n % 60].map(|v| [b'0' + (v / 10) as u8, b'0' + (v % 10) as u8]);
        let mut c = t[0].to_vec();
        c.push(b':');
        c.extend_from_slice(&t[1]);
        c.push(b':');
        c.extend_from_slice(&t[2]);
        check_bar(&f[0], 80, &c, 3, 10);
    }
    p.finish();
}
/// The frame follows every change: counts, totals, window.
#[unsafe(no_mangle)]
pub extern "C" fn h_bar_steps() {
    let (mut d, mut t) = (0u32, 200u32);
    let mut cols = 80;
    winsize(cols, 24);
    let p = Progless::from(NonZeroU32::new(t).unwrap());
    let f = first_frame();
    check!(f.is_some_and(|f| { check_bar(&f[0], cols, b"00:00:00", d, t); true }), "nothing was drawn");
    for _ in 0..param(0) {
        let before = (d, t, cols);
        match choose(4) {
            0 => {
                d = [0, 1, 57, 100, 199][choose(5) as usize];
                p.set_done(d);
            },
            1 => {
                if d < 197 {
                    d += 3;
                    p.increment_n(3);
                }
            },
            2 => {
                d = 0;
                t = [200, 1000, 4_000_000_000][choose(3) as usize];
                p.reset(NonZeroU32::new(t).unwrap());
                // the display is drawn anew
                std::thread::sleep(std::time::Duration::from_millis(250));
                let f = last_frame();
                check!(f.is_some_and(|f| { check_bar(&f[0], cols, b"00:00:00", d, t); true }), "a restarted bar is not drawn");
                continue;
            },
            _ => {
                cols = [80, 41, 61, 12][choose(4) as usize];
                winsize(cols, 24);
            },
        }
        std::thread::sleep(std::time::Duration::from_millis(200));
        if let Some(f) = last_frame() {
            check!(f.len() == 1, "the bar alone is not one line");
            check_bar(&f[0], cols, b"00:00:00", d, t);
        } else {
            check!(before == (d, t, cols), "a change is not drawn");
        }
    }
    p.finish();
}

// ---------------------------------------------------------------- P17
fn is_ws(s: &[u8], i: usize) -> bool {
    matches!(s[i], b' ' | 9..=13) || s[i..].starts_with("\u{85}".as_bytes()) || s[i..].starts_with("\u{2028}".as_bytes())
}
/// As the above, among the special characters.
const SPACES: [&str; 12] = ["\u{a0}", "\u{1680}", "\u{2000}", "\u{2003}", "\u{200a}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{85}", "\u{2028}", "\t"];
/// Not to be shown.
const CONTROLS: [&str; 9] = ["\u{80}", "\u{84}", "\u{86}", "\u{8d}", "\u{90}", "\u{9b}", "\u{9d}", "\u{9f}", "\x7f"];
/// To be shown as they are, though nearly among the others.
const PLAIN: [&str; 9] = ["\u{a1}", "\u{ad}", "\u{180e}", "\u{200b}", "\u{2060}", "\u{feff}", "\u{e000}", "\u{10ffff}", "\u{7ff}"];
/// P17: every sort of whitespace, control and other characters.
#[unsafe(no_mangle)]
pub extern "C" fn h_label_special() {
    let mut s = String::new();
    let mut want = String::new();
    if boolean() { s.push('A'); want.push('A'); }
    for _ in 0..=choose(param(0)) {
        let k = choose(30) as usize;
        match k {
            0..12 => { s.push_str(SPACES[k]); want.push(' '); },
            12..21 => s.push_str(CONTROLS[k - 12]),
            _ => { s.push_str(PLAIN[k - 21]); want.push_str(PLAIN[k - 21]); },
        }
    }
    if boolean() { s.push_str("\x1b[1mé\x1b[0m"); want.push('é'); }
    want.truncate(want.trim_end_matches(' ').len());
    label_show(&s, if want.is_empty() { None } else { Some(want.into_bytes()) });
}
fn trim(v: &mut Vec<u8>) {
    loop {
        let n = v.len();
        let k = if n >= 1 && is_ws(v, n - 1) { 1 } else if n >= 2 && v.ends_with("\u{85}".as_bytes()) { 2 } else if n >= 3 && v.ends_with("\u{2028}".as_bytes()) { 3 } else { return };
        v.truncate(n - k);
    }
}
/// The label shown for a text: None if there is nothing to show.
fn label_of(s: &str) -> Option<Vec<u8>> {
    let mut s = s.as_bytes().to_vec();
    trim(&mut s);
    let m = refm::mark(&s);
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let k = refm::clen(s[i]);
        if !m[i] {
            if is_ws(&s, i) {
                out.push(b' ');
            } else if s[i] >= 0x20 && s[i] != 0x7f && !s[i..].starts_with("\u{9b}".as_bytes()) {
                out.extend_from_slice(&s[i..i + k]);
            }
        }
        i += k;
    }
    trim(&mut out);
    if out.is_empty() { None } else { Some(out) }
}
/// The labels of a frame.
fn labels(f: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let pre = "    ↳ ".as_bytes();
    let mut v = vec![];
    for l in f {
        if l.starts_with(pre) { v.push(l[pre.len()..].to_vec()); }
    }
    v
}
const LABEL: [&str; 5] = ["é", "宽", "\u{85}", "\u{2028}", "\u{9b}"];
#[unsafe(no_mangle)]
pub extern "C" fn h_label() {
    let s = text(param(0), &LABEL);
    label_case(&s);
}
/// Longer labels, from pieces.
#[unsafe(no_mangle)]
pub extern "C" fn h_label_tok() {
    let s = word(param(0), &["\x1b[1m", "\x1b[", "\x1b", "\x1b]0;", "\x07", "m", " ", "\n", "\u{85}", "宽", "A", "\\"]);
    label_case(&s);
}
fn label_case(s: &str) { label_show(s, label_of(s)); }
fn label_show(s: &str, want: Option<Vec<u8>>) {
    winsize(200, 50);
    let p = Progless::try_from(10u8).unwrap();
    check!(p.add(s) == want.is_some(), "a label is refused although it shows something, or accepted although it shows nothing");
    let f = first_frame().unwrap_or_default();
    let l = labels(&f);
    if let Some(w) = want {
        check!(f.len() == 2 && l.len() == 1, "a label does not take exactly one line");
        check!(same(&l[0], &w), "the label is not its visible text");
        reach(1);
    } else {
        check!(f.len() == 1, "a refused label is shown");
        reach(2);
    }
    p.finish();
}
#[unsafe(no_mangle)]
pub extern "C" fn h_title() {
    let s = text(param(0), &LABEL[..4]);
    winsize(200, 50);
    let p = Progless::try_from(10u8).unwrap();
    let how = choose(4);
    let p = match how {
        0 => p.with_title(Some(s.as_str())),
        1 => {
            p.set_title(Some(Msg::from(s.clone()).with_newline(true)));
            p
        },
        2 => {
            p.set_title(Some(Msg::info("x")));
            p.set_title_msg(&s);
            p
        },
        _ => p.with_reticulating_splines(&s),
    };
    // what it should say: the very text, any whitespace as spaces
    let full = match how {
        0 | 1 => s.clone(),
        2 => Msg::info(s.as_str()).as_str().to_owned(),
        _ => Msg::new((s.as_str(), fyi_msg::AnsiColor::Misc199), "Reticulating splines…").as_str().to_owned(),
    };
    let full: String = full.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect();
    out_clear(2);
    std::thread::sleep(std::time::Duration::from_millis(250));
    let o = out(2);
    observe(&o);
    // clear, the title line, the bar
    let bar = b"\x1b[0;2m[\x1b[0;1m00:00:00";
    check!(o.starts_with(b"\x1b[J"), "the frame does not start by clearing");
    let nl = o.iter().position(|&c| c == b'\n');
    let head = &o[3..];
    if let Some(k) = nl {
        check!(o[k + 1..].starts_with(bar), "the title takes more than one line");
        let t = &o[3..k];
        let mut i = 0;
        while i < t.len() {
            check!(!(9..=13).contains(&t[i]) && !t[i..].starts_with("\u{85}".as_bytes()) && !t[i..].starts_with("\u{2028}".as_bytes()), "a title holds whitespace other than spaces");
            i += 1;
        }
        check!(o.ends_with(b"\x1b[0m\r\x1b[1A"), "the cursor does not return to the title");
        let full = full.trim_end_matches(' ');
        check!(t.starts_with(full.as_bytes()) && t[full.len()..].iter().all(|&c| c == b' '), "the title line does not show the title");
        reach(1);
    } else {
        check!(s.is_empty() && how < 2, "a title is not shown");
        check!(head.starts_with(bar), "the frame is neither title and bar nor bar");
        check!(o.ends_with(b"\x1b[0m\r"), "the cursor does not return to the bar");
        reach(2);
    }
    p.finish();
}

// ---------------------------------------------------------------- P18
const LABELS: [&str; 5] = ["one", "two \t", "\x1b[1mo\u{301}n\x1b[0me\x07", "", "one\n"];
/// Any sequence of additions and removals.
#[unsafe(no_mangle)]
pub extern "C" fn h_tasks() {
    winsize(100, 40);
    let p = Progless::try_from(100u8).unwrap();
    let mut set: Vec<Vec<u8>> = vec![];
    let mut done = 0;
    let k = choose(param(0)) + 1;
    for _ in 0..k {
        let s = LABELS[choose(LABELS.len() as u32) as usize];
        let l = label_of(s);
        let has = l.as_ref().is_some_and(|l| set.contains(l));
        if choose(2) == 0 {
            check!(p.add(s) == (l.is_some() && !has), "adding a task is reported wrongly");
            if let (Some(l), false) = (l, has) { set.push(l); }
        } else {
            p.remove(s);
            if let (Some(l), true) = (l, has) {
                set.retain(|x| *x != l);
                done += 1;
                reach(1);
            } else {
                reach(2);
            }
        }
    }
    check!(count(&p) == done, "removing a task does not count exactly once");
    let f = first_frame().unwrap_or_default();
    check_tasks(&f, &mut set);
    p.finish();
    // a finished bar takes no tasks; a restarted one starts without any
    check!(!p.add("late"), "a finished bar takes a task");
    p.remove("late");
    check!(count(&p) == 100, "a task removed after the end counts");
    p.reset(NonZeroU32::new(5).unwrap());
    let f = first_frame().unwrap_or_default();
    check_tasks(&f, &mut vec![]);
    check!(count(&p) == 0, "a restarted bar has a count");
    p.finish();
}
fn check_tasks(f: &[Vec<u8>], set: &mut Vec<Vec<u8>>) {
    check!(!f.is_empty(), "nothing was drawn");
    let mut l = labels(f);
    l.sort();
    set.sort();
    check!(l == *set, "the tasks shown are not those in progress");
}
/// Two labels of symbolic text.
#[unsafe(no_mangle)]
pub extern "C" fn h_task_text() {
    let (a, b) = (text(param(0), &LABEL[..2]), text(param(1), &LABEL[..2]));
    let (la, lb) = (label_of(&a), label_of(&b));
    let p = Progless::try_from(100u8).unwrap();
    let (ha, mut hb) = (la.is_some(), lb.is_some());
    let eq = la == lb;
    if eq { hb = false; }
    check!(p.add(&a) == ha, "adding a task is reported wrongly");
    check!(p.add(&b) == hb, "adding a task is reported wrongly");
    let mut n = 0;
    p.remove(&a);
    n += u128::from(ha);
    check!(count(&p) == n, "a task is not removed by its own text, or counts other than once");
    p.remove(&a);
    check!(count(&p) == n, "a task removed twice counts twice");
    p.remove(&b);
    n += u128::from(hb);
    check!(count(&p) == n, "a task is not removed by its own text, or counts other than once");
    check!(p.add(&a) == ha, "a removed task cannot be added again");
    if ha && hb { reach(1); }
    if eq { reach(2); }
    p.finish();
}

// ---------------------------------------------------------------- P19
/// Checks every frame against the size of the terminal.
fn check_fit(cols: u16, rows: u16) -> bool { last_fit(cols, rows).is_some() }
/// The last frame drawn, if any, after having checked them all.
fn last_fit(cols: u16, rows: u16) -> Option<Vec<Vec<u8>>> {
    let o = out(2);
    observe(&o);
    out_clear(2);
    let s = play(&o);
    check!(s.row == 0 && s.col == 0, "the cursor is not back where the bar starts");
    for f in &s.frames {
        check!(f.len() < usize::from(rows), "there are more lines than the terminal has to spare");
        for l in f {
            check!(cols_of(l) < usize::from(cols), "a line is wider than the terminal less a column");
        }
        if f.len() > 1 { reach(1); }
        reach(2);
    }
    s.frames.into_iter().last()
}
const COUNTS: [(u32, u32); 6] = [(3, 9), (0, 1), (999, 1000), (1_000_000, u32::MAX), (u32::MAX - 1, u32::MAX), (9, 99)];
/// Every width, one by one up to 256 and all others at once.
fn any_width() -> u16 {
    let w = choose(258) as u16;
    if w < 257 { return w; }
    let w = u16();
    assume(w > 256);
    w
}
/// Every width.
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_width() {
    let (w, h) = (any_width(), 24);
    let (d, t) = COUNTS[choose(param(0)) as usize];
    winsize(w, h);
    let p = Progless::from(NonZeroU32::new(t).unwrap());
    p.set_done(d);
    let kind = choose(param(1));
    match kind {
        0 => {
            p.set_title(Some(Msg::info("A 宽 title, which goes on and on and on and on and on and on and on")));
            p.add("task 宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽宽");
            p.add("o\u{301}ther");
        },
        1 => {},
        _ => { p.add("x"); },
    }
    std::thread::sleep(std::time::Duration::from_millis(250));
    let last = last_fit(w, h);
    check!(last.is_some() == (w > 10), "the bar is drawn when it should not, or not when it should");
    if let Some(f) = last {
        // (Below 40 columns, or too few for the counts, only the percentage is shown.)
        let short = f.len() == 1 && f[0].starts_with(" »".as_bytes());
        let counts = dactyl::NiceU32::from(d).len() + dactyl::NiceU32::from(t).len() + percent(d, t).len();
        check!(short == (w < 41 || usize::from(w) < 20 + counts), "the bar is short though there is room for it, or long though there is none");
        check!(short || f.len() == [4, 1, 2][kind as usize], "a task or a title is not shown although there is room for it");
    }
    p.finish();
}
/// Every height, with changes between frames.
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_steps() {
    let w0 = [80, 41, 53, 15, 256][choose(param(1)) as usize];
    let mut w = w0;
    let mut h = u16();
    winsize(w, h);
    let p = Progless::from(NonZeroU32::new(1000).unwrap());
    std::thread::sleep(std::time::Duration::from_millis(250));
    check_fit(w, h);
    let mut n = 0;
    for _ in 0..param(0) {
        match choose(6) {
            0 => p.set_title(Some(["a\nb", "宽 title", "\x1b[1mx\x1b[0m"][choose(3) as usize])),
            1 => p.set_title(None::<Msg>),
            2 => {
                n += 1;
                p.add(["é", "宽", "three"][n % 3]);
            },
            3 => {
                h = [2, 3, 4, 24][choose(4) as usize];
                winsize(w, h);
            },
            4 => {
                w = if w == w0 { 60 } else { w0 };
                winsize(w, h);
            },
            _ => p.remove("宽"),
        }
        std::thread::sleep(std::time::Duration::from_millis(200));
        check_fit(w, h);
    }
    p.finish();
}
/// Every number of tasks up to p0, and a few more.
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_rows() {
    let (w, h) = (if choose(2) == 0 { 80 } else { 41 }, u16());
    winsize(w, h);
    let p = Progless::from(NonZeroU32::new(1000).unwrap());
    let title = choose(2);
    if title == 1 { p.set_title(Some("title")); }
    let n = choose(param(0) + 1);
    let n = if n == param(0) { 300 } else { n };
    for i in 0..n {
        let b = [b'a' + (i / 26) as u8, b'a' + (i % 26) as u8];
        p.add(std::str::from_utf8(&b).unwrap_or("x"));
    }
    std::thread::sleep(std::time::Duration::from_millis(250));
    let all = n as usize + title as usize + 1;
    let last = last_fit(w, h);
    if all < usize::from(h.min(255)) {
        check!(last.is_some_and(|f| f.len() == all), "a task or a title is not shown although there is room for it");
    }
    p.finish();
}

// ---------------------------------------------------------------- P25
#[unsafe(no_mangle)]
pub extern "C" fn h_summary() {
    let t = u32();
    assume(t != 0);
    let p = Progless::from(NonZeroU32::new(t).unwrap());
    let mut want = 0;
    match choose(3) {
        0 => {
            let d = u32();
            want = if fix(u64::from(d < t)) == 1 { d } else { t };
            p.set_done(d);
        },
        1 => {},
        _ => {
            want = t;
        },
    }
    let ms = [0, 1, 10, 1000, 1500, 60_000, 61_010, 3_600_000, 90_061_000, 172_800_000][choose(param(0)) as usize];
    advance_ms(ms);
    let mut e = std::time::Duration::from_millis(ms);
    if want == t {
        // (stopping the ticker takes up to one tick)
        let min = e;
        e = p.finish();
        check!(e >= min && e <= min + std::time::Duration::from_millis(101), "the time returned is not the time elapsed");
    }
    let (one, many) = [("file", "files"), ("", "s"), ("bœuf", "bœufs")][choose(3) as usize];
    let kind = [MsgKind::Crunched, MsgKind::None, MsgKind::Done, MsgKind::Error, MsgKind::Confirm][choose(param(1)) as usize];
    let m = p.summary(kind, one, many);
    observe(m.as_bytes());
    let mut body = dactyl::NiceU32::from(want).as_str().to_owned();
    body.push(' ');
    body.push_str(if want == 1 { one } else { many });
    body.push_str(" in ");
    body.push_str(dactyl::NiceElapsed::from(e).as_str());
    body.push('.');
    let w = Msg::new(kind, body.as_str()).with_newline(true);
    check!(same(m.as_bytes(), w.as_bytes()), "the summary does not state the count and the time");
    check!(m.as_bytes().ends_with(b".\n"), "the summary is not one line");
    reach(if want == 1 { 1 } else { 2 });
    let e = p.finish();
    let m = Msg::from(p);
    let mut body = "Finished in ".to_owned();
    body.push_str(dactyl::NiceElapsed::from(e).as_str());
    body.push('.');
    let w = Msg::new(MsgKind::Done, body.as_str()).with_newline(true);
    check!(same(m.as_bytes(), w.as_bytes()), "the generic summary does not state the time");
}

// ---------------------------------------------------------------- long texts, many tasks
const LONG: [usize; 12] = [31, 63, 64, 127, 150, 255, 256, 257, 1023, 8192, 65535, 65536];
/// A long label: a symbolic character amid n others.
fn long_label(n: usize) -> String {
    let mid = text_n(1, &LABEL);
    match choose(4) {
        0 => format!("{}{mid}", "a".repeat(n)),
        1 => format!("A{mid}\x1b[{}mB", "1;".repeat(n)),
        2 => format!("{}A{mid}B", " ".repeat(n)),
        _ => format!("{}{mid}{}", "\x1b[1mé".repeat(n.min(300)), "\x1b]0;x\x07z".repeat(n.min(300))),
    }
}
/// P17: what is shown of a long label is the beginning of its visible text, all that fits of it.
#[unsafe(no_mangle)]
pub extern "C" fn h_label_long() {
    let s = long_label(LONG[choose(param(0)) as usize]);
    let Some(want) = label_of(&s) else { return };
    winsize(200, 50);
    let p = Progless::try_from(10u8).unwrap();
    check!(p.add(&s), "a long label is refused");
    let f = first_frame().unwrap_or_default();
    let l = labels(&f);
    check!(f.len() == 2 && l.len() == 1, "a label does not take exactly one line");
    check!(same(&l[0], &want[..l[0].len().min(want.len())]), "the label is not the beginning of its visible text");
    let (w, all) = (refm::ref_width(&l[0]), refm::ref_width(&want));
    check!(w == all || (w >= 180 && w < all), "the label is cut although there is room");
    if w == all { reach(1) } else { reach(2) }
    p.remove(&s);
    check!(count(&p) == 1, "a long label cannot be removed by its own text");
    p.finish();
}
/// P17: long titles.
#[unsafe(no_mangle)]
pub extern "C" fn h_title_long() {
    let n = LONG[choose(param(0)) as usize];
    let s = match choose(3) { 0 => "t".repeat(n), 1 => format!("{}T", "t\n".repeat(n)), _ => format!("T\x1b[{}mt", "1;".repeat(n)) };
    winsize(200, 50);
    let p = Progless::try_from(10u8).unwrap().with_title(Some(s.as_str()));
    let f = first_frame().unwrap_or_default();
    check!(f.len() == 2, "a long title does not take exactly one line");
    let mut want: Vec<u8> = refm::strip_all(s.as_bytes());
    for b in &mut want { if *b == b'\n' { *b = b' '; } }
    let t = refm::strip_all(&f[0]);
    check!(same(&t, &want[..t.len().min(want.len())]), "the title is not the beginning of its text");
    check!(t.len() == want.len() || t.len() >= 190, "the title is cut although there is room");
    reach(1);
    p.finish();
}
/// P18: long labels that differ in one symbolic character at most.
#[unsafe(no_mangle)]
pub extern "C" fn h_task_long() {
    let n = LONG[choose(param(0)) as usize];
    let (a, b) = (text_n(1, &[]), text_n(1, &[]));
    let base = "a".repeat(n);
    let (sa, sb) = if choose(2) == 0 { (format!("{base}{a}z"), format!("{base}{b}z")) } else { (format!("{a}{base}"), format!("{b}{base}")) };
    let (la, lb) = (label_of(&sa), label_of(&sb));
    let eq = la == lb;
    let p = Progless::try_from(100u8).unwrap();
    check!(p.add(&sa) == la.is_some() && p.add(&sb) == (lb.is_some() && !eq), "adding a long task is reported wrongly");
    p.remove(&sa);
    check!(count(&p) == u128::from(la.is_some()), "a long task is not removed by its own text");
    p.remove(&sb);
    check!(count(&p) == u128::from(la.is_some()) + u128::from(lb.is_some() && !eq), "a long task is not removed by its own text, or counts twice");
    if eq { reach(1) } else { reach(2) }
    p.finish();
}
/// P18: many tasks at once, removed from either end or the middle.
#[unsafe(no_mangle)]
pub extern "C" fn h_task_many() {
    let n = LONG[choose(param(0)) as usize].min(300) as u32;
    winsize(100, 200);
    let p = Progless::try_from(1000u32).unwrap();
    let label = |i: u32| format!("task {i}");
    for i in 0..n { check!(p.add(label(i)), "a new task is refused"); }
    for i in 0..n { check!(!p.add(label(i)), "a task is added twice"); }
    let how = choose(3);
    let k = choose(2);
    let k = if k == 0 { n / 2 } else { n };
    for j in 0..k {
        let i = match how { 0 => j, 1 => n - 1 - j, _ => (n / 2 + j) % n };
        p.remove(&label(i));
        p.remove(&label(i));
        check!(count(&p) == u128::from(j + 1), "removing a task does not count exactly once");
    }
    p.remove("task");
    check!(count(&p) == u128::from(k), "removing a task that is not there counts");
    let f = first_frame().unwrap_or_default();
    let l = labels(&f);
    let mut i = 0;
    for l in &l {
        let mut ok = false;
        for j in k..n {
            let i = match how { 0 => j, 1 => n - 1 - j, _ => (n / 2 + j) % n };
            if l == label(i).as_bytes() { ok = true; }
        }
        check!(ok, "a task that was removed is shown");
        i += 1;
    }
    check!(i == n - k || n - k > 190, "a task in progress is not shown although there is room");
    if k < n { reach(1) } else { reach(2) }
    p.finish();
}
