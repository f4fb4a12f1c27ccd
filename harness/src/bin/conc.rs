//! P15, P16, P21, P23: several threads and the ticker, under every schedule.
#![no_main]
use fyi_msg::*;
use harness::*;
use std::{num::NonZeroU32, sync::{Arc, Mutex}, thread, time::Duration};

const TASK: [&str; 2] = ["one", "two"];
fn nz(n: u32) -> NonZeroU32 { NonZeroU32::new(n).unwrap() }
fn sleep(ms: u64) { thread::sleep(Duration::from_millis(ms)); }
/// The count as the summary states it (single digits).
fn count(p: &Progless) -> u32 {
    let m = p.summary(MsgKind::None, "x", "x");
    let s = m.as_bytes();
    check!(s.len() > 1 && s[1] == b' ' && s[0].is_ascii_digit(), "the summary has no count");
    u32::from(s[0].wrapping_sub(b'0'))
}

// ---------------------------------------------------------------- operations and what they imply
#[derive(Clone, Copy, PartialEq)]
enum Op { Inc(u32), Set(u32), Add(usize), Remove(usize), Finish, Reset(u32), Start(u32) }
fn run(p: &Progless, o: Op) -> bool {
    match o {
        Op::Inc(n) => p.increment_n(n),
        Op::Set(n) => p.set_done(n),
        Op::Add(t) => return p.add(TASK[t]),
        Op::Remove(t) => p.remove(TASK[t]),
        Op::Finish => { p.finish(); },
        Op::Reset(t) => p.reset(nz(t)),
        Op::Start(_) => {},
    }
    false
}
#[derive(Clone, Copy)]
struct Model { done: u32, total: u32, run: bool, task: [bool; 2] }
impl Model {
    fn end(&mut self) {
        if self.run { *self = Self { done: self.total, total: self.total, run: false, task: [false; 2] }; }
    }
    fn to(&mut self, d: u32) {
        if self.run {
            if d < self.total { self.done = d; } else { self.end(); }
        }
    }
    fn step(mut self, o: Op) -> (Self, bool) {
        let mut r = false;
        match o {
            Op::Inc(n) => self.to(self.done + n),
            Op::Set(n) => self.to(n),
            Op::Add(t) => {
                r = self.run && !self.task[t];
                if self.run { self.task[t] = true; }
            },
            Op::Remove(_) | Op::Reset(_) => {},
            Op::Finish => self.end(),
            Op::Start(t) => self = Self { done: 0, total: t, run: true, task: [false; 2] },
        }
        (self, r)
    }
}
/// Is there an order of the operations that explains the results and the outcome?
/// (A removal takes the task off, then counts it; a restart ends the old run, then starts the new.)
fn explained(m: Model, a: &[(Op, bool)], b: &[(Op, bool)], end: (u32, bool, [bool; 2])) -> bool {
    if a.is_empty() && b.is_empty() { return (m.done, m.run, m.task) == end; }
    first(m, a, b, end) || first(m, b, a, end)
}
fn first(m: Model, a: &[(Op, bool)], b: &[(Op, bool)], end: (u32, bool, [bool; 2])) -> bool {
    let Some((&(o, r), rest)) = a.split_first() else { return false; };
    let mut next = m;
    let then = match o {
        Op::Remove(t) if m.task[t] => {
            next.task[t] = false;
            Op::Inc(1)
        },
        Op::Reset(t) => {
            next.end();
            Op::Start(t)
        },
        _ => {
            let (n, q) = m.step(o);
            return q == r && explained(n, rest, b, end);
        },
    };
    let mut v = vec![(then, false)];
    v.extend_from_slice(rest);
    explained(next, &v, b, end)
}
fn outcome(p: &Progless) -> (u32, bool, [bool; 2]) {
    let done = count(p);
    let run = p.add("probe");
    let task = [run && !p.add(TASK[0]), run && !p.add(TASK[1])];
    (done, run, task)
}

// ---------------------------------------------------------------- P15
/// Two threads incrementing by any amounts.
#[unsafe(no_mangle)]
pub extern "C" fn h_sum() {
    let (t, a, b) = (u32(), u32(), u32());
    assume(t != 0 && a != 0 && b != 0);
    let sum = u64::from(a) + u64::from(b);
    let full = fix(u64::from(sum < t.into())) == 0;
    let (fa, fb) = (fix(u64::from(a < t)), fix(u64::from(b < t)));
    let p = Progless::from(nz(t));
    let q = p.clone();
    let h = thread::spawn(move || q.increment_n(a));
    sched(param(0), param(1));
    p.increment_n(b);
    let _ = h.join();
    sched(255, 0);
    let m = p.summary(MsgKind::None, "x", "y");
    let s = m.as_bytes();
    let k = s.iter().position(|&c| c == b' ').unwrap_or(0);
    let want = if full { t } else { a + b };
    check!(same(&s[..k], dactyl::NiceU32::from(want).as_bytes()), "concurrent increments do not add up");
    check!(p.add("probe") == !full, "the bar runs when it should not, or not when it should");
    p.finish();
    if full && fa == 1 && fb == 1 { reach(1); }
    if !full { reach(2); }
}
/// Three threads: two that increment, one that increments or takes tasks off.
#[unsafe(no_mangle)]
pub extern "C" fn h_sum3() {
    let (t, a, b) = ([9, 6, 5][choose(param(2)) as usize], 1, 3);
    let k = choose(param(3));
    let sum = a + b + [3, 1, 2][k as usize];
    let full = sum >= t;
    let p = Progless::from(nz(t));
    if k != 0 { p.add(TASK[0]); }
    if k == 2 { p.add(TASK[1]); }
    let (q, r) = (p.clone(), p.clone());
    let h = thread::spawn(move || q.increment_n(a));
    let i = thread::spawn(move || match k {
        0 => r.increment_n(3),
        1 => r.remove(TASK[0]),
        _ => {
            r.remove(TASK[0]);
            r.remove(TASK[1]);
        },
    });
    sched(param(0), param(1));
    p.increment_n(b);
    let _ = h.join();
    let _ = i.join();
    sched(255, 0);
    check!(count(&p) == sum.min(t), "concurrent increments do not add up");
    check!(p.add("probe") == !full, "the bar runs when it should not, or not when it should");
    p.finish();
    if full { reach(1) } else { reach(2) }
}
fn op(n: u32) -> Op {
    match choose(n) {
        0 => Op::Inc(1),
        1 => Op::Finish,
        2 => Op::Set(2),
        3 => Op::Remove(0),
        4 => Op::Add(1),
        5 => Op::Inc(2),
        6 => Op::Set(3),
        7 => Op::Add(0),
        _ => Op::Set(0),
    }
}
/// Two threads with any operations: some order explains what is seen.
#[unsafe(no_mangle)]
pub extern "C" fn h_linear() {
    let a: Vec<Op> = (0..param(2)).map(|_| op(9)).collect();
    let b: Vec<Op> = (0..param(3)).map(|_| op(9)).collect();
    let p = Progless::from(nz(3));
    p.increment();
    p.add(TASK[0]);
    let m = Model { done: 1, total: 3, run: true, task: [true, false] };
    let q = p.clone();
    let a2 = a.clone();
    let h = thread::spawn(move || {
        let mut v = vec![];
        for o in a2 {
            v.push((o, run(&q, o)));
            if o == Op::Finish { check!(count(&q) == 3, "the count is not the total after finishing"); }
        }
        v
    });
    sched(param(0), param(1));
    let mut rb = vec![];
    for &o in &b {
        rb.push((o, run(&p, o)));
        if o == Op::Finish { check!(count(&p) == 3, "the count is not the total after finishing"); }
    }
    let ra = h.join().unwrap_or_default();
    sched(255, 0);
    let end = outcome(&p);
    check!(explained(m, &ra, &rb, end), "no order of the operations explains the outcome");
    p.finish();
    check!(count(&p) == 3, "the count is not the total after finishing");
    reach(if end.1 { 1 } else { 2 });
}
/// A run restarted while another thread works on it.
#[unsafe(no_mangle)]
pub extern "C" fn h_linear_reset() {
    let a = match choose(7) {
        0 => Op::Inc(1),
        1 => Op::Finish,
        2 => Op::Set(2),
        3 => Op::Add(0),
        4 => Op::Inc(3),
        5 => Op::Reset(4),
        _ => Op::Set(4),
    };
    let b = Op::Reset(3);
    let p = Progless::from(nz(2));
    let t0 = choose(2) == 1;
    if t0 { p.add(TASK[1]); }
    let m = Model { done: 0, total: 2, run: true, task: [false, t0] };
    let q = p.clone();
    let h = thread::spawn(move || run(&q, a));
    sched(param(0), param(1));
    run(&p, b);
    let ra = h.join().unwrap_or_default();
    sched(255, 0);
    let end = outcome(&p);
    check!(explained(m, &[(a, ra)], &[(b, false)], end), "no order of the operations explains the outcome");
    p.finish();
    reach(if end.1 { 1 } else { 2 });
}

// ---------------------------------------------------------------- P16
/// A terminal without bottom. Only SGR, erase-below and cursor-up sequences are known.
struct Term { rows: Vec<Vec<u32>>, r: usize, c: usize }
fn term(o: &[u8]) -> Term {
    let mut t = Term { rows: vec![vec![]], r: 0, c: 0 };
    let mut i = 0;
    while i < o.len() {
        let c = o[i];
        i += 1;
        match c {
            0x1b => {
                check!(o.get(i) == Some(&b'['), "an unknown sequence is written");
                i += 1;
                let mut n = 0usize;
                while i < o.len() && (o[i].is_ascii_digit() || o[i] == b';') {
                    n = if o[i] == b';' { 0 } else { n * 10 + usize::from(o[i] - b'0') };
                    i += 1;
                }
                match o.get(i) {
                    Some(b'm') => {},
                    Some(b'J') => {
                        check!(n == 0, "an unknown sequence is written");
                        t.rows.truncate(t.r + 1);
                        t.rows[t.r].truncate(t.c);
                    },
                    Some(b'A') => {
                        check!(n <= t.r, "the cursor moves above the start");
                        t.r -= n;
                    },
                    _ => check!(false, "an unknown sequence is written"),
                }
                i += 1;
            },
            b'\r' => t.c = 0,
            b'\n' => {
                t.r += 1;
                t.c = 0;
                if t.r == t.rows.len() { t.rows.push(vec![]); }
            },
            _ => {
                let mut u = u32::from(c);
                while i < o.len() && o[i] & 0xc0 == 0x80 {
                    u = u << 8 | u32::from(o[i]);
                    i += 1;
                }
                let row = &mut t.rows[t.r];
                while row.len() < t.c { row.push(32); }
                if t.c < row.len() { row[t.c] = u; } else { row.push(u); }
                t.c += 1;
            },
        }
    }
    t
}
/// Does any of it draw?
fn draws(o: &[u8]) -> bool {
    let mut i = 0;
    while i < o.len() {
        if !o[i..].starts_with(b"\x1b[J") { return true; }
        i += 3;
    }
    false
}
/// A bar of two, as it is some time into its life; the first frame may have been drawn.
fn some_bar(done: u32) -> Progless {
    winsize([80, 30][choose(2) as usize], 24);
    let p = Progless::from(nz(2));
    match choose(3) {
        0 => {},
        1 => {
            p.add(TASK[0]);
            sleep(250);
        },
        _ => {
            p.set_title(Some("title"));
            sleep(150);
        },
    }
    p.add(TASK[0]);
    p.set_done(done);
    p
}
/// The bar ends in one thread while another works with it.
#[unsafe(no_mangle)]
pub extern "C" fn h_after() {
    let k = choose(4);
    let o = match choose(param(2)) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => 4,
    };
    let p = some_bar(u32::from(k == 3));
    let q = p.clone();
    let h = if o == 0 { None } else { Some(thread::spawn(move || match o {
        1 => { q.finish(); },
        2 => q.increment(),
        3 => {
            q.add(TASK[1]);
            q.set_title(Some("other"));
        },
        _ => q.increment_n(2),
    })) };
    sched(param(0), param(1));
    match k {
        0 => { p.finish(); },
        1 => p.increment_n(2),
        2 => p.set_done(2),
        _ => p.remove(TASK[0]),
    }
    let mark = out_len(2);
    check!(count(&p) == 2, "the count is not the total at the end");
    if let Some(h) = h { let _ = h.join(); }
    sched(255, 0);
    sleep(250);
    let all = out(2);
    check!(!draws(&all[mark..]), "the bar is drawn after its end");
    let t = term(&all);
    check!(t.rows.len() == 1 && t.rows[0].is_empty() && t.r == 0 && t.c == 0, "the bar is left on the screen");
    check!(threads() == 1, "the ticker goes on after the end");
    if all.len() > 100 { reach(1); }
    p.finish();
    check!(out_len(2) == all.len() || !draws(&out(2)[all.len()..]), "the bar is drawn after its end");
}

// ---------------------------------------------------------------- P20
/// Whatever is changed while a frame is drawn is in the next.
#[unsafe(no_mangle)]
pub extern "C" fn h_current() {
    let (a, b) = (choose(param(2)), choose(param(3)));
    winsize(80, 24);
    let p = Progless::from(nz(9));
    p.set_title(Some("title"));
    p.add(TASK[0]);
    match choose(3) {
        0 => {},
        1 => sleep(250),
        _ => {
            sleep(250);
            p.increment();
        },
    }
    let before = count(&p);
    let q = p.clone();
    let h = if b == 0 { None } else { Some(thread::spawn(move || match b {
        1 => check!(q.push_msg(Msg::from("message")).is_ok(), "a message is handed back without cause"),
        2 => q.increment(),
        _ => { q.add("added"); },
    })) };
    sched(param(0), param(1));
    match a {
        0 => p.increment(),
        1 => p.set_title(Some("other")),
        2 => { p.add(TASK[1]); },
        3 => p.remove(TASK[0]),
        4 => p.set_title(None::<Msg>),
        5 => p.set_title_msg("text"),
        6 => p.set_done(5),
        _ => p.reset(nz(4)),
    }
    if let Some(h) = h { let _ = h.join(); }
    sched(255, 0);
    sleep(250);
    let done = count(&p);
    match a {
        0 | 3 => check!(done == before + 1 + u32::from(b == 2), "an update is lost"),
        1 | 2 | 4 | 5 => check!(done == before + u32::from(b == 2), "an update is lost"),
        _ => {},
    }
    let t = term(&out(2));
    let want = match a { 1 => "other", 4 => "", 5 => "text", _ => "title" };
    let mut rows = t.rows[t.r..].iter();
    let mut row = || -> Vec<u32> { rows.next().cloned().unwrap_or_default() };
    let is = |r: &[u32], w: &str| r.iter().copied().eq(w.bytes().map(u32::from));
    if !want.is_empty() { check!(is(&row(), want), "the title is not the current one"); }
    let bar = row();
    let total = if a == 7 { 4 } else { 9 };
    let pct = dactyl::NicePercent::from(if done == 0 { 0.0_f32 } else { (f64::from(done) / f64::from(total)) as f32 });
    let space = 79 - 19 - 2 - pct.as_str().len();
    let cells = done as usize * space / total as usize;
    let mut line = String::from("]  [");
    line.push_str(&"#".repeat(cells));
    line.push_str(&"-".repeat(space - cells));
    line.push_str("]  ");
    line.push(char::from(b'0' + done as u8));
    line.push('/');
    line.push(char::from(b'0' + total));
    line.push_str("  ");
    line.push_str(pct.as_str());
    check!(bar.len() > 9 && is(&bar[9..], &line), "the bar does not show the current count");
    let mut tasks: Vec<&str> = vec![];
    if a == 7 {
        if b == 3 {
            // (before the restart, or after)
            if !p.add("added") { tasks.push("added"); } else { p.remove("added"); }
        }
    } else {
        if b == 3 { tasks.push("added"); }
        if a != 3 { tasks.push(TASK[0]); }
        if a == 2 { tasks.push(TASK[1]); }
    }
    for w in tasks {
        let r = row();
        check!(r.len() > 6 && is(&r[6..], w), "the tasks shown are not the current ones");
    }
    check!(row().is_empty(), "more is shown than there should be");
    reach(1);
    p.finish();
}

// ---------------------------------------------------------------- P21
/// Two threads end, drop or restart a bar.
#[unsafe(no_mangle)]
pub extern "C" fn h_end() {
    let (k, o) = (choose(4), choose(6));
    let p = some_bar(0);
    let q = p.clone();
    let gate = Arc::new(Mutex::new(()));
    let g2 = gate.clone();
    let held = gate.lock();
    let h = thread::spawn(move || {
        match o {
            0 => { q.finish(); },
            1 => q.increment_n(2),
            2 => drop(q.clone()),
            3 => q.set_title(None::<Msg>),
            4 => q.reset(nz(3)),
            _ => {
                q.reset(nz(3));
                q.finish();
            },
        }
        let _g = g2.lock();
        drop(q);
    });
    sched(param(0), param(1));
    let mut p = Some(p);
    match k {
        0 => {
            if let Some(p) = &p { p.finish(); }
            check!(o >= 4 || threads() == 2, "the ticker goes on after finish returned");
        },
        1 => p = None,
        2 => if let Some(p) = &p { p.reset(nz(4)); },
        _ => if let Some(p) = &p {
            p.reset(nz(4));
            p.finish();
            check!(o >= 4 || threads() == 2, "the ticker goes on after finish returned");
        },
    }
    drop(held);
    let _ = h.join();
    sched(255, 0);
    if let Some(p) = p {
        sleep(150);
        let run = p.add("probe");
        check!(threads() == 1 + u32::from(run), "the ticker and the bar disagree whether it runs");
        if run {
            out_clear(2);
            sleep(250);
            check!(draws(&out(2)), "a running bar is not drawn");
            reach(1);
        } else {
            reach(2);
        }
        // and again
        p.reset(nz(2));
        check!(threads() == 2 && p.add("x"), "a restarted bar has no ticker");
        out_clear(2);
        sleep(250);
        check!(draws(&out(2)), "a restarted bar is not drawn");
        p.finish();
        check!(threads() == 1, "the ticker goes on after finish returned");
    } else {
        check!(threads() == 1, "the ticker outlives the last handle");
    }
}
/// Any sequence of life events in one thread.
#[unsafe(no_mangle)]
pub extern "C" fn h_life() {
    winsize(80, 24);
    let mut run = choose(2) == 1;
    let mut v = vec![if run { Progless::from(nz(2)) } else { Progless::default() }];
    let mut ended = !run;
    let k = choose(param(0)) + 1;
    sched(param(1), param(2));
    for _ in 0..k {
        match choose(7) {
            0 => {
                v[0].finish();
                (run, ended) = (false, true);
            },
            1 => {
                v[0].reset(nz(2));
                (run, ended) = (true, false);
            },
            2 => {
                v[0].increment_n(2);
                run = false;
            },
            3 => v.push(v[0].clone()),
            4 => drop(v.pop()),
            5 => {
                check!(v[0].push_msg(Msg::from("m")).is_ok(), "a message is handed back without cause");
            },
            _ => {
                // (with exploration on, the ticker may be late by any time)
                sched(255, 0);
                sleep(150);
                if !run { ended = true; }
                sched(param(1), param(2));
            },
        }
        if v.is_empty() {
            check!(threads() == 1, "the ticker outlives the last handle");
            reach(1);
            return;
        }
        if run { check!(threads() == 2, "a running bar has no ticker"); }
        if ended { check!(threads() == 1, "the ticker goes on after the end"); }
    }
    sched(255, 0);
    out_clear(2);
    sleep(250);
    check!(draws(&out(2)) == run || run, "a stopped bar is drawn");
    drop(v);
    check!(threads() == 1, "the ticker outlives the last handle");
    reach(2);
}

// ---------------------------------------------------------------- P23
const MSGS: [&str; 4] = ["first message", "x\n", "", "two\nlines"];
/// Takes the lines of a message off the screen.
fn take_lines(rows: &mut Vec<Vec<u32>>, m: &str) -> bool {
    let want: Vec<Vec<u32>> = m.split('\n').map(|l| l.bytes().map(u32::from).collect()).collect();
    for i in 0..rows.len() {
        if i + want.len() <= rows.len() && rows[i..i + want.len()] == want[..] {
            rows.drain(i..i + want.len());
            return true;
        }
    }
    false
}
/// Messages pushed by two threads while the bar runs, ends and starts.
#[unsafe(no_mangle)]
pub extern "C" fn h_push() {
    let k = choose(4);
    let (m1, m2) = (MSGS[choose(param(2)) as usize], MSGS[choose(param(3)) as usize]);
    let p = some_bar(0);
    let stopped = k == 3;
    if stopped { p.finish(); }
    let q = p.clone();
    let h = thread::spawn(move || q.push_msg(Msg::from(m1).with_newline(true)).is_ok());
    sched(param(0), param(1));
    match k {
        0 => check!(p.push_msg(Msg::from(m2)).is_ok(), "a message is handed back without cause"),
        1 => { p.finish(); },
        2 => p.increment_n(2),
        _ => {
            p.reset(nz(3));
            sleep(150);
        },
    }
    check!(h.join().unwrap_or(false), "a message is handed back without cause");
    sched(255, 0);
    sleep(150);
    p.finish();
    let mut t = term(&out(2));
    check!(t.c == 0 && t.r + 1 == t.rows.len() && t.rows[t.r].is_empty(), "the bar is left on the screen");
    t.rows.pop();
    check!(take_lines(&mut t.rows, m1), "a message is not on the screen whole");
    if k == 0 { check!(take_lines(&mut t.rows, m2), "a message is not on the screen whole"); }
    check!(t.rows.is_empty(), "something is on the screen twice, or without being a message");
    reach(1);
}
/// Pushes, changes and ticks in one thread: messages above, the bar below.
#[unsafe(no_mangle)]
pub extern "C" fn h_push_seq() {
    winsize(80, 24);
    let p = Progless::from(nz(9));
    p.set_title(Some("title"));
    p.add(TASK[0]);
    let mut want: Vec<&str> = vec![];
    let (mut done, mut title, mut seen) = (0, true, false);
    if choose(2) == 1 {
        sleep(250);
        seen = true;
    }
    for _ in 0..param(0) {
        let mut fresh = seen;
        match choose(4) {
            0 => {
                let m = MSGS[choose(MSGS.len() as u32) as usize];
                want.push(m);
                check!(p.push_msg(Msg::from(m)).is_ok(), "a message is handed back without cause");
            },
            1 => {
                p.increment();
                done += 1;
                fresh = false;
            },
            2 => {
                title = !title;
                p.set_title(if title { Some("title") } else { None });
                fresh = false;
            },
            _ => {
                sleep(250);
                seen = true;
                fresh = true;
            },
        }
        let o = out(2);
        let t = term(&o);
        check!(t.c == 0, "the cursor is not at the start of a line");
        let mut i = 0;
        for m in &want {
            for l in m.split('\n') {
                check!(t.rows.len() > i && t.rows[i].iter().copied().eq(l.bytes().map(u32::from)), "the messages are not above the bar, whole and in order");
                i += 1;
            }
        }
        check!(t.r == i, "the cursor is not at the start of the bar");
        let bar = &t.rows[i..];
        if fresh {
            check!(bar.len() == 2 + usize::from(title), "the bar is not below the messages");
            let l = &bar[usize::from(title)];
            check!(l[0] == u32::from(b'[') && l.contains(&(u32::from(b'0') + done)), "the bar is not up to date");
            check!(!title || bar[0].iter().copied().eq("title".bytes().map(u32::from)), "the title is not above the bar");
            reach(1);
        } else if !seen {
            reach(2);
        }
    }
    p.finish();
}
/// Any text.
#[unsafe(no_mangle)]
pub extern "C" fn h_push_text() {
    winsize(80, 24);
    let s = text(param(0), &["é", "宽"]);
    let k = choose(3);
    let p = Progless::from(nz(9));
    if k == 1 { sleep(250); }
    if k == 2 { p.finish(); }
    let m = match choose(3) {
        0 => Msg::from(s.clone()),
        1 => Msg::from(s.clone()).with_newline(true),
        _ => Msg::info(s.as_str()).with_indent(1).with_newline(false),
    };
    let w = m.clone().with_newline(true);
    out_clear(2);
    check!(p.push_msg(m).is_ok(), "a message is handed back without cause");
    let o = out(2);
    let o = if k == 2 { &o[..] } else {
        check!(o.starts_with(b"\x1b[J"), "the bar is not cleared before the message");
        &o[3..]
    };
    let w = w.as_bytes();
    check!(o.len() >= w.len() && same(&o[..w.len()], w), "the message is not printed whole");
    let o = &o[w.len()..];
    if k == 1 {
        check!(o.starts_with(b"\x1b[J\x1b[0;2m["), "the bar is not drawn again after the message");
        reach(1);
    } else {
        check!(o.is_empty(), "more than the message is printed");
        reach(2);
    }
    observe(&out(2));
    p.finish();
}
/// A write fails, is interrupted, or takes only part of the data.
#[unsafe(no_mangle)]
pub extern "C" fn h_push_fail() {
    winsize(80, 24);
    let p = Progless::from(nz(9));
    p.add(TASK[0]);
    let k = choose(3);
    if k == 1 { sleep(250); }
    if k == 2 { p.finish(); }
    out_clear(2);
    let nth = choose(6) + 1;
    let how = choose(2 + param(0));
    match how {
        0 => wfail(2, nth),
        1 => wintr(2, nth),
        n => wshort(2, nth, n - 1),
    }
    let m = Msg::info("a message").with_newline(choose(2) == 1);
    let w = m.clone().with_newline(true);
    let r = p.push_msg(m);
    let o = out(2);
    observe(&o);
    wfail(2, 0);
    let whole = o.windows(w.len()).any(|x| x == w.as_bytes());
    match r {
        Ok(()) => {
            check!(whole || k == 2, "a message is lost");
            if how > 0 {
                check!(whole, "a message is lost");
                if k == 1 {
                    check!(o.ends_with(b"\x1b[0m\r\x1b[1A"), "the bar is not drawn whole after the message");
                    let t = term(&o);
                    check!(t.rows.len() == 3 && t.r == 1 && t.rows[2].len() == 9, "the bar is not drawn whole after the message");
                }
            }
            reach(1);
        },
        Err(m) => {
            check!(how == 0, "a message is handed back although it could be printed");
            check!(!whole, "a message is handed back although it was printed");
            check!(same(m.as_bytes(), w.as_bytes()), "the message handed back is not the one given");
            reach(2);
        },
    }
    p.finish();
}

/// Long messages, printed through a running, drawn or stopped bar.
#[unsafe(no_mangle)]
pub extern "C" fn h_push_long() {
    winsize(80, 24);
    let n = [63usize, 79, 80, 255, 256, 1023, 1024, 8191, 8192, 65535, 65536, 70000][choose(param(0)) as usize];
    let k = choose(3);
    let p = Progless::from(nz(9));
    if k == 1 { sleep(250); }
    if k == 2 { p.finish(); }
    let c = text_n(1, &["宽"]);
    let s = if choose(2) == 0 { "é".repeat(n) + &c } else { "line\n".repeat(n / 5) + &c };
    let m = if choose(2) == 0 { Msg::from(s.clone()) } else { Msg::info(s.as_str()).with_newline(false) };
    let w = m.clone().with_newline(true);
    out_clear(2);
    check!(p.push_msg(m).is_ok(), "a message is handed back without cause");
    let o = out(2);
    let o = if k == 2 { &o[..] } else {
        check!(o.starts_with(b"\x1b[J"), "the bar is not cleared before the message");
        &o[3..]
    };
    let w = w.as_bytes();
    check!(o.len() >= w.len() && same(&o[..w.len()], w), "a long message is not printed whole");
    let o = &o[w.len()..];
    if k == 1 {
        check!(o.starts_with(b"\x1b[J\x1b[0;2m["), "the bar is not drawn again after the message");
        reach(1);
    } else {
        check!(o.is_empty(), "more than the message is printed");
        reach(2);
    }
    p.finish();
}
