//! P01-P08: messages, prefixes, ANSI stripping, fitting, prompts, colours, kinds.
#![no_main]
use fyi_msg::*;
use harness::{refm::*, *};
use std::borrow::Cow;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- P05
/// The cut point for every text of up to p0 characters and every 64-bit limit.
#[unsafe(no_mangle)]
pub extern "C" fn h_cut() {
    let s = text(param(0), &WIDE);
    let w = u64() as usize;
    let n = length_width(&s, w);
    observe_n(n as u64);
    check!(n <= s.len() && s.is_char_boundary(n), "the cut point is not a character boundary");
    let b = s.as_bytes();
    check!(ref_width(&b[..n]) <= w, "the text before the cut is wider than the limit");
    let mut m = n + 1;
    while m <= s.len() {
        if s.is_char_boundary(m) {
            check!(ref_width(&b[..m]) > w, "a later cut point would also fit");
        }
        m += 1;
    }
    if n < s.len() { reach(1) } else { reach(2) }
}
/// As h_cut, with the text built from whole tokens (sequences, wide characters, breaks).
#[unsafe(no_mangle)]
pub extern "C" fn h_cut_tok() {
    let s = word(param(0), &TOK);
    let w = u64() as usize;
    cut_check(&s, w);
}
fn cut_check(s: &str, w: usize) {
    let n = length_width(s, w);
    observe_n(n as u64);
    check!(n <= s.len() && s.is_char_boundary(n), "the cut point is not a character boundary");
    let b = s.as_bytes();
    check!(ref_width(&b[..n]) <= w, "the text before the cut is wider than the limit");
    let mut m = n + 1;
    while m <= s.len() {
        if s.is_char_boundary(m) {
            check!(ref_width(&b[..m]) > w, "a later cut point would also fit");
        }
        m += 1;
    }
    check!(width(s) == ref_width(b), "width differs from the sum over the visible characters");
    if n < s.len() { reach(1) } else { reach(2) }
}
const TOK: [&str; 9] = ["a", "宽", "\u{301}", "\x1b", "\x1b[", "\x1b]0;", "œ", "m", "\\"];

#[unsafe(no_mangle)]
pub extern "C" fn h_width() {
    let s = text(param(0), &WIDE);
    let n = width(&s);
    observe_n(n as u64);
    check!(n == ref_width(s.as_bytes()), "width differs from the sum over the visible characters");
    reach(1);
    if n == 0 && !s.is_empty() { reach(2) }
}
/// Arbitrary valid UTF-8 of up to p0 bytes, all bytes symbolic.
#[unsafe(no_mangle)]
pub extern "C" fn h_cut_utf8() {
    let n = choose(param(0) + 1);
    let mut v = Vec::new();
    for _ in 0..n { v.push(u8()); }
    let Ok(s) = String::from_utf8(v) else { return };
    let w = u64() as usize;
    let k = length_width(&s, w);
    observe_n(k as u64);
    check!(k <= s.len() && s.is_char_boundary(k), "the cut point is not a character boundary");
    check!(width(&s[..k]) <= w, "the text before the cut is wider than the limit");
    if k < s.len() {
        let c = clen(s.as_bytes()[k]);
        check!(width(&s[..k + c]) > w, "a later cut point would also fit");
        reach(1);
    }
    reach(2);
}
/// Any special characters, alone or within a text; every limit.
fn special(n: u32) -> String {
    let mut s = String::new();
    if boolean() { s.push_str("\x1b[1ma"); }
    for _ in 0..=choose(n) { s.push_str(SPECIAL[choose(SPECIAL.len() as u32) as usize].0); }
    match choose(3) {
        0 => {},
        1 => s.push_str("z宽\x1b[0m"),
        _ => s.push_str("\r\nœ\u{301}"),
    }
    s
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cut_special() {
    let s = special(param(0));
    let w = u64() as usize;
    cut_check(&s, w);
}

// ---------------------------------------------------------------- P04
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_special() {
    let s = special(param(0));
    let w = u64() as usize;
    fit_check(&s, w);
}
fn ref_fit(s: &[u8], w: usize) -> Vec<u8> {
    if w == 0 { return Vec::new(); }
    let mut out = Vec::new();
    let mut a = 0;
    while a < s.len() {
        let mut z = a;
        while z < s.len() && s[z] != b'\n' { z += 1; }
        if z < s.len() { z += 1; }
        let line = &s[a..z];
        a = z;
        let m = mark(line);
        let n = line.len();
        // the line break, if it is not inside an unclosed sequence
        let mut brk = n;
        if n > 0 && line[n - 1] == b'\n' && !m[n - 1] {
            brk = n - 1;
            if n > 1 && line[n - 2] == b'\r' && !m[n - 2] { brk = n - 2; }
        }
        let mut cum = 0;
        let mut full = false;
        let mut i = 0;
        while i < n {
            if m[i] || i >= brk { out.push(line[i]); i += 1; continue; }
            let l = clen(line[i]);
            cum += cwidth(line, i);
            if cum > w { full = true; }
            if !full { out.extend_from_slice(&line[i..i + l]); }
            i += l;
        }
    }
    out
}
fn fit_check(s: &str, w: usize) {
    let f = fit_to_width(s, w);
    observe(f.as_bytes());
    let want = ref_fit(s.as_bytes(), w);
    check!(f.as_bytes() == want.as_slice(), "the fitted text is not the widest fitting prefix of each line plus every sequence and break");
    if f.len() < s.len() { reach(1) } else { reach(2) }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_fit() {
    let s = text(param(0), &WIDE);
    let w = u64() as usize;
    fit_check(&s, w);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_tok() {
    const T: [&str; 10] = ["a", "bcd", "宽", "\n", "\r\n", "\u{301}", "\x1b", "[1m", "]x", "\x07"];
    let s = word(param(0), &T);
    let w = u64() as usize;
    fit_check(&s, w);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_msg() {
    let s = text(param(0), &["\n", "宽"]);
    let w = u64() as usize;
    let m = Msg::new(MsgKind::Info, &s).with_suffix(" \x1b[1mZ\x1b[0m").with_newline(boolean());
    let f = m.fitted(w);
    observe(f.as_bytes());
    check!(f == fit_to_width(m.as_str(), w), "Msg::fitted differs from fit_to_width");
    check!(f.as_bytes() == ref_fit(m.as_bytes(), w).as_slice(), "the fitted message is not its widest fitting prefix plus sequences and breaks");
    reach(1);
}

// ---------------------------------------------------------------- P03
struct Parts { ind: u8, ts: bool, pre: String, msg: String, suf: String, nl: bool }
const TS: &str = "\x1b[2m[\x1b[0;34m2001-09-09 01:46:40\x1b[0;2m]\x1b[0m ";
fn sp(n: u8) -> &'static str { &"                                "[..(n.min(8) as usize) * 4] }
impl Parts {
    fn text(&self) -> String {
        let mut o = String::new();
        o.push_str(sp(self.ind));
        if self.ts { o.push_str(TS); }
        if !self.pre.is_empty() { o.push_str(&self.pre); o.push_str(": "); }
        o.push_str(&self.msg);
        o.push_str(&self.suf);
        if self.nl { o.push('\n'); }
        o
    }
    fn build(&self) -> Msg {
        let mut m = Msg::new(self.pre.as_str(), &self.msg).with_suffix(&self.suf).with_newline(self.nl).with_indent(self.ind);
        if self.ts { m.set_timestamp(true); }
        m
    }
}
fn strip_check(pre: String, msg: String, suf: String) {
    clock(1_000_000_000, 0);
    let ind = choose(2) as u8;
    let p = Parts { ind, ts: ind == 1, pre, msg, suf, nl: boolean() };
    let m0 = p.build();
    check!(m0 == p.text().as_str(), "the built message is not the concatenation of its parts");
    let mut m = m0.clone();
    let changed = m.strip_ansi();
    observe(m.as_bytes());
    let full = if p.pre.is_empty() { String::new() } else { format!("{}: ", p.pre) };
    let mut ok = false;
    let mut parts = [vec![], vec![], vec![]];
    for f in [strip_all as fn(&[u8]) -> Vec<u8>, strip_one_by_one] {
        let v = [f(full.as_bytes()), f(p.msg.as_bytes()), f(p.suf.as_bytes())];
        let mut t = Vec::new();
        t.extend_from_slice(sp(p.ind).as_bytes());
        if p.ts { t.extend_from_slice(b"[2001-09-09 01:46:40] "); }
        for x in &v { t.extend_from_slice(x); }
        if p.nl { t.push(b'\n'); }
        if t.as_slice() == m.as_bytes() { ok = true; parts = v; }
    }
    check!(ok, "the stripped message is not its parts without their escape sequences");
    check!(changed == (m != m0), "strip_ansi does not report whether it changed anything");
    let mut again = m.clone();
    check!(!again.strip_ansi() && again == m, "stripping twice is not stripping once");
    check!(m0.clone().without_ansi() == m, "without_ansi differs from strip_ansi");
    // part boundaries survived
    let [a, b, c] = parts;
    let head = if p.ts { format!("{}[2001-09-09 01:46:40] ", sp(p.ind)) } else { sp(p.ind).to_owned() };
    let nl: &[u8] = if p.nl { b"\n" } else { b"" };
    let e = m.clone().with_suffix("S");
    check!(e.as_bytes() == [head.as_bytes(), &a, &b, b"S", nl].concat().as_slice(), "the suffix boundary moved");
    let e = m.clone().with_msg("M");
    check!(e.as_bytes() == [head.as_bytes(), &a, b"M", &c, nl].concat().as_slice(), "the body boundary moved");
    let e = m.clone().with_prefix("P");
    check!(e.as_bytes() == [head.as_bytes(), b"P: ", &b, &c, nl].concat().as_slice(), "the prefix boundary moved");
    let e = m.clone().with_newline(!p.nl).with_indent(2);
    let nl: &[u8] = if p.nl { b"" } else { b"\n" };
    check!(e.as_bytes() == [sp(2).as_bytes(), &head.as_bytes()[sp(p.ind).len()..], &a, &b, &c, nl].concat().as_slice(), "the indentation or line break boundary moved");
    if changed { reach(1) } else { reach(2) }
}
/// Symbolic characters spread over the body and suffix.
#[unsafe(no_mangle)]
pub extern "C" fn h_strip() {
    let a = choose(param(0) + 1);
    let msg = text_n(a, &[]);
    let b = choose(param(0) + 1 - a);
    let suf = text_n(b, &[]);
    strip_check("P".to_owned(), msg, suf);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_strip_pre() {
    let pre = text(param(0), &[]);
    strip_check(pre, "M".to_owned(), "\x1b[2mS".to_owned());
}
/// Token texts: nested, unclosed and interleaved sequences.
#[unsafe(no_mangle)]
pub extern "C" fn h_strip_tok() {
    const T: [&str; 9] = ["\x1b", "[", "]", "1m", "\x1b[31m", "œ", "\x07", "\\", "\x1b]"];
    let msg = word(param(0), &T);
    let suf = ["", "\x1b[1mS\x1b[0m", "\x1b]0;x"][choose(3) as usize].to_owned();
    strip_check(String::new(), msg, suf);
}

// ---------------------------------------------------------------- P01
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) { self.0.push(b's'); self.0.extend_from_slice(b); }
    fn write_u8(&mut self, b: u8) { self.0.extend_from_slice(&[b'b', b]); }
    fn finish(&self) -> u64 { 0 }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Bytes(Vec::new());
    t.hash(&mut h);
    h.0
}
fn content(max: u32) -> String { text(max, &["é"]) }
fn op(m: &mut Msg, p: &mut Parts, max: u32) {
    let builder = boolean();
    macro_rules! go { ($set:ident, $with:ident, $v:expr) => {{
        if builder { *m = core::mem::take(m).$with($v); } else { m.$set($v); }
    }} }
    match choose(6) {
        0 => { let n = u8(); p.ind = if n > 8 { 8 } else { fix(n as u64) as u8 }; go!(set_indent, with_indent, n) }
        1 => { p.ts = choose(2) == 1; go!(set_timestamp, with_timestamp, p.ts) }
        2 => { p.pre = content(max); go!(set_prefix, with_prefix, p.pre.as_str()) }
        3 => { p.msg = content(max); go!(set_msg, with_msg, p.msg.as_str()) }
        4 => { p.suf = content(max); go!(set_suffix, with_suffix, p.suf.as_str()) }
        _ => { p.nl = choose(2) == 1; go!(set_newline, with_newline, p.nl) }
    }
}
fn views(m: &Msg, t: &str) {
    check!(m.as_str() == t, "the message is not the concatenation of its parts");
    check!(m.len() == t.len() && m.is_empty() == t.is_empty(), "len or is_empty disagrees with the text");
    check!(m.as_bytes() == t.as_bytes(), "as_bytes disagrees with the text");
}
/// Any reachable combination of parts, then p1 arbitrary operations.
#[unsafe(no_mangle)]
pub extern "C" fn h_parts() {
    clock(1_000_000_000, 0);
    let max = param(0);
    let mut p = Parts { ind: choose(3) as u8, ts: choose(2) == 1, pre: content(max), msg: content(max), suf: content(max), nl: choose(2) == 1 };
    let mut m = p.build();
    views(&m, &p.text());
    for _ in 0..param(1) {
        op(&mut m, &mut p, max);
        views(&m, &p.text());
        observe(m.as_bytes());
        reach(1);
    }
    reach(2);
}
/// Histories from each constructor: p1 operations on parts of up to p0 characters.
#[unsafe(no_mangle)]
pub extern "C" fn h_history() {
    clock(1_000_000_000, 0);
    let max = param(0);
    let mut p = Parts { ind: 0, ts: false, pre: String::new(), msg: String::new(), suf: String::new(), nl: false };
    let mut m = match choose(3) {
        0 => Msg::default(),
        1 => { p.msg = content(max); Msg::from(p.msg.as_str()) }
        _ => { p.pre = content(max); p.msg = content(max); Msg::new(p.pre.as_str(), p.msg.as_str()) }
    };
    for _ in 0..param(1) {
        op(&mut m, &mut p, max);
        views(&m, &p.text());
        reach(1);
    }
    observe(m.as_bytes());
    reach(2);
}
/// Comparison, ordering, hash, display and conversion views of two arbitrary messages.
#[unsafe(no_mangle)]
pub extern "C" fn h_views() {
    let max = param(0);
    let (a, b) = (content(max), content(max));
    let (c, d) = (content(1), content(1));
    let x = Msg::from(a.as_str()).with_suffix(&c);
    let y = Msg::new("", b.as_str()).with_indent(0).with_suffix(&d);
    let (tx, ty) = (format!("{a}{c}"), format!("{b}{d}"));
    check!((x == y) == (tx == ty), "== disagrees with the text");
    check!(x.cmp(&y) == tx.cmp(&ty), "cmp disagrees with the text");
    check!(x.partial_cmp(&y) == Some(tx.cmp(&ty)), "partial_cmp disagrees with the text");
    check!(hashed(&x) == hashed(tx.as_str()), "hash disagrees with the text");
    check!(x.to_string() == tx, "Display disagrees with the text");
    check!(x == tx.as_str() && x == tx && tx == x && x == *tx.as_bytes() && x == tx.as_bytes().to_vec() && x == Cow::Borrowed(tx.as_str()), "== with text disagrees");
    let bx: [Box<str>; 2] = [tx.as_str().into(), ty.as_str().into()];
    let bb: [Box<[u8]>; 2] = [tx.as_bytes().into(), ty.as_bytes().into()];
    for (i, t) in [&tx, &ty].into_iter().enumerate() {
        let e = tx == *t;
        let (v, c, d) = (t.as_bytes().to_vec(), Cow::Borrowed(t.as_str()), Cow::Borrowed(t.as_bytes()));
        check!((x == *t.as_str()) == e && (*t.as_str() == x) == e && (x == t.as_str()) == e && (t.as_str() == x) == e && (x == t) == e && (t == x) == e && (x == *t) == e && (*t == x) == e, "== with str or String disagrees");
        check!((x == bx[i]) == e && (bx[i] == x) == e && (x == &bx[i]) == e && (&bx[i] == x) == e && (x == c) == e && (c == x) == e && (x == &c) == e && (&c == x) == e, "== with boxed or borrowed text disagrees");
        check!((x == *t.as_bytes()) == e && (*t.as_bytes() == x) == e && (x == t.as_bytes()) == e && (t.as_bytes() == x) == e && (x == v) == e && (v == x) == e && (x == &v) == e && (&v == x) == e, "== with bytes disagrees");
        check!((x == bb[i]) == e && (bb[i] == x) == e && (x == &bb[i]) == e && (&bb[i] == x) == e && (x == d) == e && (d == x) == e && (x == &d) == e && (&d == x) == e, "== with boxed or borrowed bytes disagrees");
    }
    check!((x == ty) == (tx == ty) && (ty.as_bytes() == x) == (tx == ty), "!= with text disagrees");
    check!(AsRef::<str>::as_ref(&x) == tx && AsRef::<[u8]>::as_ref(&x) == tx.as_bytes(), "AsRef disagrees with the text");
    check!(std::borrow::Borrow::<str>::borrow(&x) == tx, "Borrow disagrees with the text");
    check!(String::from(x.clone()) == tx && x.clone().into_string() == tx && x.clone().into_bytes() == tx.as_bytes(), "into_* disagrees with the text");
    check!(Msg::from(&tx) == tx && Msg::from(tx.clone()) == tx && Msg::from(Cow::Borrowed(tx.as_str())) == tx, "From disagrees with the text");
    if tx == ty { reach(1) } else { reach(2) }
}
/// Printing a message writes exactly its text to the stream asked for, once.
#[unsafe(no_mangle)]
pub extern "C" fn h_print() {
    let m = Msg::new(content(1).as_str(), content(param(0)).as_str()).with_newline(boolean());
    let err = choose(2);
    if err == 1 { m.eprint() } else { m.print() }
    check!(out(1 + err) == m.as_bytes(), "print does not write exactly the message");
    check!(out(2 - err).is_empty(), "print writes to the other stream");
    reach(1);
}

// ---------------------------------------------------------------- P02
fn made(m: Msg, want: &str, body: &str) {
    check!(m.as_str() == [want, body].concat().as_str(), "the new message is not the documented prefix and the body");
    observe(m.as_bytes());
    check!(m.clone().with_msg("Q").as_str() == [want, "Q"].concat().as_str(), "set_msg after new touches the prefix");
    check!(m.clone().with_prefix("R").as_str() == ["R: ", body].concat().as_str(), "set_prefix after new touches the body");
    check!(m.clone().with_prefix(MsgKind::None).as_str() == body, "removing the prefix leaves some of it");
    check!(m.clone().with_suffix("S").with_newline(true).as_str() == [want, body, "S\n"].concat().as_str(), "set_suffix after new misplaces it");
    check!(m.with_indent(1).as_str() == ["    ", want, body].concat().as_str(), "set_indent after new misplaces it");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_new_text() {
    let (p, body) = (content(param(0)), content(param(0)));
    let want = if p.is_empty() { String::new() } else { [p.as_str(), ": "].concat() };
    let m = match choose(6) {
        0 => Msg::new(p.as_str(), &body),
        1 => Msg::new(&p, &body),
        2 => Msg::new(p.clone(), &body),
        3 => Msg::new(Cow::Borrowed(p.as_str()), &body),
        4 => Msg::new(&Cow::<str>::Owned(p.clone()), &body),
        _ => Msg::from("zz").with_prefix(p.as_str()).with_msg(&body),
    };
    if p.is_empty() { reach(1) } else { reach(2) }
    made(m, &want, &body);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_new_color() {
    let c = u8();
    let (p, body) = (content(param(0)), content(1));
    let k = AnsiColor::from_u8(c);
    let m = match choose(10) {
        0 => Msg::new((p.as_str(), c), &body),
        1 => Msg::new((&p, c), &body),
        2 => Msg::new((p.clone(), c), &body),
        3 => Msg::new((Cow::Borrowed(p.as_str()), c), &body),
        4 => Msg::new((&Cow::<str>::Owned(p.clone()), c), &body),
        5 => Msg::new((p.as_str(), k), &body),
        6 => Msg::new((&p, k), &body),
        7 => Msg::new((p.clone(), k), &body),
        8 => Msg::new((Cow::Borrowed(p.as_str()), k), &body),
        _ => Msg::new((&Cow::<str>::Owned(p.clone()), k), &body).with_prefix("x").with_prefix((p.as_str(), c)),
    };
    let want = if p.is_empty() { reach(1); String::new() } else {
        let c = fix(c as u64) as u8;
        reach(2);
        ["\x1b[1;", &color_code(c), "m", &p, ":\x1b[0m "].concat()
    };
    made(m, &want, &body);
}
/// (kind, label, colour, one-shot constructor)
type Row = (MsgKind, &'static str, u8, &'static str, Option<fn(&str) -> Msg>);
const KINDS: [Row; 17] = [
    (MsgKind::None, "", 0, "", None),
    (MsgKind::Aborted, "Aborted", 9, "aborted", Some(|b| Msg::aborted(b))),
    (MsgKind::Confirm, "Confirm", 208, "confirm", None),
    (MsgKind::Crunched, "Crunched", 10, "crunched", Some(|b| Msg::crunched(b))),
    (MsgKind::Debug, "Debug", 14, "debug", Some(|b| Msg::debug(b))),
    (MsgKind::Done, "Done", 10, "done", Some(|b| Msg::done(b))),
    (MsgKind::Error, "Error", 9, "error", Some(|b| Msg::error(b))),
    (MsgKind::Found, "Found", 10, "found", Some(|b| Msg::found(b))),
    (MsgKind::Info, "Info", 13, "info", Some(|b| Msg::info(b))),
    (MsgKind::Notice, "Notice", 13, "notice", Some(|b| Msg::notice(b))),
    (MsgKind::Review, "Review", 14, "review", Some(|b| Msg::review(b))),
    (MsgKind::Skipped, "Skipped", 11, "skipped", Some(|b| Msg::skipped(b))),
    (MsgKind::Success, "Success", 10, "success", Some(|b| Msg::success(b))),
    (MsgKind::Task, "Task", 199, "task", Some(|b| Msg::task(b))),
    (MsgKind::Warning, "Warning", 11, "warning", Some(|b| Msg::warning(b))),
    (MsgKind::Blank, "", 0, "blank", None),
    (MsgKind::Custom, "", 0, "print", None),
];
fn row() -> Row { KINDS[choose(17) as usize] }
fn kind_prefix(r: &Row) -> String {
    if r.1.is_empty() { String::new() } else { ["\x1b[1;", &color_code(r.2), "m", r.1, ":\x1b[0m "].concat() }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_new_kind() {
    let r = row();
    let body = content(param(0));
    let want = kind_prefix(&r);
    match r.4 {
        Some(f) => {
            let m = f(&body);
            check!(m == Msg::new(r.0, &body).with_newline(true), "the one-shot constructor differs from new plus a line break");
            made(m.with_newline(false), &want, &body);
            reach(1);
        }
        None => reach(2),
    }
    made(Msg::new(r.0, &body), &want, &body);
    made(r.0.into_msg(&body), &want, &body);
    made(Msg::new(("x", 9), &body).with_prefix(r.0), &want, &body);
}

// ---------------------------------------------------------------- P07
#[unsafe(no_mangle)]
pub extern "C" fn h_color() {
    let n = u8();
    let c = AnsiColor::from_u8(n);
    check!(c as u8 == n && AnsiColor::from(n) == c, "the colour is not its number");
    check!(c == n && n == c, "the colour does not equal its number");
    let k = u8();
    let d = AnsiColor::from_u8(k);
    check!((c == d) == (n == k) && (c == k) == (n == k), "colour equality differs from the numbers'");
    check!(c.cmp(&d) == n.cmp(&k) && c.partial_cmp(&d) == Some(n.cmp(&k)), "colour order differs from the numbers'");
    check!(hashed(&c) == hashed(&n), "the colour's hash is not its number's");
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_color_str() {
    let n = u8();
    let c = AnsiColor::from_u8(n);
    let s = c.as_str();
    let k = fix(n as u64) as u8;
    let want = ["\x1b[", &color_code(k), "m"].concat();
    check!(s == want, "the colour's sequence is not the standard one for its number");
    check!(c.to_string() == want, "the colour does not display as its sequence");
    check!(AnsiColor::RESET == "\x1b[0m", "the reset sequence is wrong");
    check!(Msg::new(("A", c), "").as_str() == ["\x1b[1;", &color_code(k), "mA:\x1b[0m "].concat(), "a prefix in this colour does not use its bold sequence");
    observe(s.as_bytes());
    reach(1);
}
macro_rules! names { ($(($n:ident, $v:expr)),* $(,)?) => { [$((AnsiColor::$n, $v as u8)),*] } }
#[unsafe(no_mangle)]
pub extern "C" fn h_color_names() {
    let t = names![(Black, 0), (Red, 1), (Green, 2), (Yellow, 3), (Blue, 4), (Magenta, 5), (Cyan, 6), (LightGrey, 7), (DarkGrey, 8), (LightRed, 9), (LightGreen, 10), (LightYellow, 11), (LightBlue, 12), (LightMagenta, 13), (LightCyan, 14), (White, 15), (NavyBlue, 17), (DarkBlue, 18), (DarkGreen, 22), (DarkCyan, 36), (LightSeaGreen, 37), (DarkTurquoise, 44), (MediumSpringGreen, 49), (BlueViolet, 57), (RoyalBlue, 63), (SteelBlue, 67), (CornflowerBlue, 69), (MediumTurquoise, 80), (LightSlateGrey, 103), (MediumPurple, 104), (LightSlateBlue, 105), (DarkSeaGreen, 108), (MediumVioletRed, 126), (DarkGoldenrod, 136), (RosyBrown, 138), (DarkKhaki, 143), (LightSteelBlue, 147), (GreenYellow, 154), (Orchid, 170), (Violet, 177), (Tan, 180), (Honeydew, 194), (OrangeRed, 201), (DarkOrange, 208), (Salmon, 209), (LightCoral, 210), (SandyBrown, 215), (Cornsilk, 230), (Misc016, 16), (Misc199, 199), (Misc255, 255)];
    let i = below(t.len() as u32);
    let (c, v) = t[i as usize];
    check!(c == v, "a named colour is not the number documented");
    reach(1);
}

// ---------------------------------------------------------------- P08
#[unsafe(no_mangle)]
pub extern "C" fn h_kind_table() {
    let r = row();
    let i = choose(17);
    check!(MsgKind::ALL.contains(&r.0), "a kind is missing from ALL");
    check!((KINDS[i as usize].0 == r.0) == (KINDS[i as usize].3 == r.3), "two kinds are confused");
    check!(r.0.as_str() == r.1 && r.0.to_string() == r.1, "a kind's label is wrong");
    check!(r.0.command() == r.3, "a kind's command word is wrong");
    check!(MsgKind::from(r.0.command().as_bytes()) == r.0, "a kind's command word does not parse back to it");
    check!(r.0.is_empty() == r.1.is_empty(), "is_empty is wrong");
    check!(r.0.prefix_color() == if r.1.is_empty() { None } else { Some(AnsiColor::from_u8(r.2)) }, "a kind's colour is wrong");
    check!(Msg::new(r.0, "x").as_str() == [&kind_prefix(&r), "x"].concat(), "a message does not show its kind's prefix");
    reach(1);
}
/// Any bytes of up to p0: only the command words (trimmed) mean a kind.
#[unsafe(no_mangle)]
pub extern "C" fn h_kind_parse() {
    let n = choose(param(0) + 1);
    let mut v = Vec::new();
    for _ in 0..n { v.push(u8()); }
    let k = MsgKind::from(v.as_slice());
    let ws = |b: u8| (b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r') | (b == 0x0c);
    let (mut a, mut z) = (0, v.len());
    while a < z && ws(v[a]) { a += 1; }
    while z > a && ws(v[z - 1]) { z -= 1; }
    let t = &v[a..z];
    let mut want = MsgKind::None;
    for r in &KINDS {
        if t == r.3.as_bytes() { want = r.0; }
    }
    if t == b"prompt" { want = MsgKind::Confirm; }
    check!(k == want, "a command word maps to the wrong kind");
    if want == MsgKind::None { reach(1) } else { reach(2) }
}

// ---------------------------------------------------------------- P06
fn prompt_check(lines: &[String], eof_ok: bool) {
    let m = Msg::new(MsgKind::Confirm, "Q").with_suffix("zz").with_newline(boolean()).with_indent(choose(2) as u8);
    let before = m.clone();
    let def = choose(2) == 1;
    let err = choose(2);
    for l in lines { stdin(l.as_bytes()); }
    // reference
    let mut asked = 0;
    let mut ans = def;
    let mut left = 0;
    let mut done = false;
    for l in lines {
        if done { left += l.len(); continue; }
        asked += 1;
        let t = l.to_lowercase();
        let t = t.trim();
        if t.is_empty() { ans = def; done = true; }
        else if t == "n" || t == "no" { ans = false; done = true; }
        else if t == "y" || t == "yes" { ans = true; done = true; }
    }
    if !done {
        if !eof_ok { return; }
        asked += 1; // end of input: an empty answer
    }
    let got = match (def, err) {
        (false, 0) => m.prompt(),
        (false, _) => m.eprompt(),
        (true, 0) => m.prompt_with_default(true),
        (true, _) => m.eprompt_with_default(true),
    };
    check!(got == ans, "the answer is not what was typed");
    check!(m == before, "prompting changed the message");
    let o = out(1 + err);
    observe(&o);
    let q = if def { " \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m " } else { " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m " };
    let q = m.clone().with_suffix(q).with_newline(false);
    let mut want = Vec::new();
    let bad = b"\x1b[1;91mError:\x1b[0m Invalid input; enter \x1b[91mN\x1b[0m or \x1b[92mY\x1b[0m.\n";
    for i in 0..asked {
        if i > 0 { want.extend_from_slice(bad); }
        want.extend_from_slice(q.as_bytes());
    }
    check!(o == want, "the question was not printed once per attempt, with a note after each invalid answer");
    check!(out(3 - 1 - err).is_empty(), "the prompt wrote to the other stream");
    let _ = left;
    if asked > 1 { reach(1) }
    if got { reach(2) } else { reach(3) }
}
/// One or two lines of symbolic ASCII characters.
#[unsafe(no_mangle)]
pub extern "C" fn h_prompt() {
    let mut a = text_n(choose(param(0) + 1), &[]);
    for b in a.as_bytes() { assume(*b != b'\n'); }
    a.push('\n');
    prompt_check(&[a, "YES\n".to_owned()], false);
}
/// The macro's six forms are the prompts they stand for.
#[unsafe(no_mangle)]
pub extern "C" fn h_prompt_macro() {
    const T: [(&str, Option<bool>); 6] = [("\n", None), ("y\n", Some(true)), (" NO\n", Some(false)), ("Yes\n", Some(true)), ("", None), ("n\n", Some(false))];
    let a = T[choose(6) as usize];
    let again = boolean() && !a.0.is_empty();
    if again { stdin(b"what\n"); }
    if !a.0.is_empty() { stdin(a.0.as_bytes()); }
    let n = choose(3) as u8;
    let form = choose(6);
    let text = content(1);
    let got = match form {
        0 => confirm!(yes: text.as_str()),
        1 => confirm!(yes: text.as_str(), n),
        2 => confirm!(no: text.as_str()),
        3 => confirm!(no: text.as_str(), n),
        4 => confirm!(text.as_str()),
        _ => confirm!(text.as_str(), n),
    };
    let def = form < 2;
    check!(got == a.1.unwrap_or(def), "the answer is not what was typed");
    let ind = if form % 2 == 1 { n } else { 0 };
    let q = if def { " \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m " } else { " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m " };
    let q = Msg::new(MsgKind::Confirm, text.as_str()).with_indent(ind).with_suffix(q);
    let o = out(1);
    check!(o.starts_with(q.as_bytes()) && o.ends_with(q.as_bytes()), "the question was not printed");
    check!((o.len() > q.len()) == again, "the question was not printed once for each answer");
    if got { reach(1) } else { reach(2) }
}
/// Token answers, several lines, possibly ending without a line break or a valid answer.
#[unsafe(no_mangle)]
pub extern "C" fn h_prompt_tok() {
    const T: [&str; 11] = ["ye\u{17f}\n", "\n", "y\n", "N\n", " yEs \r\n", "no\n", "q\n", "yes no\n", "Ｙ\n", "ye\n", "\u{a0}Y\t\n"];
    let mut v = Vec::new();
    for _ in 0..choose(param(0) + 1) { v.push(T[choose(T.len() as u32) as usize].to_owned()); }
    match choose(3) { 0 => {} 1 => v.push("Yes".to_owned()), _ => v.push("x".to_owned()) }
    prompt_check(&v, true);
}
/// Input that is not text is an invalid answer, never a yes.
#[unsafe(no_mangle)]
pub extern "C" fn h_prompt_bad() {
    let n = 1 + choose(param(0));
    let mut v = Vec::new();
    for _ in 0..n {
        let b = u8();
        assume(b != b'\n');
        v.push(b);
    }
    assume(core::str::from_utf8(&v).is_err());
    v.push(b'\n');
    stdin(&v);
    stdin(b"n\n");
    let m = Msg::new(MsgKind::Confirm, "Q");
    let got = m.prompt();
    check!(!got, "input that is not text was taken for a yes");
    reach(1);
}
/// A read error is never an answer: neither alone nor after part of a line.
#[unsafe(no_mangle)]
pub extern "C" fn h_prompt_err() {
    let part = text_n(choose(param(0) + 1), &["yes"]);
    for b in part.as_bytes() { assume(*b != b'\n'); }
    if !part.is_empty() { stdin(part.as_bytes()); }
    let n = 1 + choose(2);
    stdin_err(n);
    let def = choose(2) == 1;
    let m = Msg::new(MsgKind::Confirm, "Q");
    let got = m.prompt_with_default(def);
    check!(got == def, "unreadable input was taken for an answer");
    let o = out(1);
    observe(&o);
    let asked = o.windows(7).filter(|w| *w == b"Confirm").count();
    check!(asked == n as usize + 1, "the question was not asked again after unreadable input");
    reach(1);
}

// ---------------------------------------------------------------- long texts
/// Lengths around the limits of small integers and of common buffers.
const LONG: [usize; 14] = [31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 8191, 8192, 65535, 65536];
fn fill(unit: &str, n: usize) -> String { unit.repeat(n) }
/// P01: long parts, set, replaced by others and measured.
#[unsafe(no_mangle)]
pub extern "C" fn h_parts_long() {
    clock(1_000_000_000, 0);
    let n = LONG[choose(param(0)) as usize];
    let m = [0, 3, 300][choose(3) as usize];
    let which = choose(3);
    let mut p = Parts { ind: choose(2) as u8 * 8, ts: choose(2) == 1, pre: "P".to_owned(), msg: "M".to_owned(), suf: "S".to_owned(), nl: choose(2) == 1 };
    let long = |p: &mut Parts, n: usize| *[&mut p.pre, &mut p.msg, &mut p.suf][which as usize] = fill("x", n);
    if choose(2) == 0 { long(&mut p, n) }
    let mut t = p.build();
    views(&t, &p.text());
    match choose(5) {
        0 => { long(&mut p, m); match which { 0 => t.set_prefix(&p.pre), 1 => t.set_msg(&p.msg), _ => t.set_suffix(&p.suf) } }
        1 => { long(&mut p, n); match which { 0 => t.set_prefix(&p.pre), 1 => t.set_msg(&p.msg), _ => t.set_suffix(&p.suf) } }
        2 => { p.ind = 3; t.set_indent(3) }
        3 => { p.ts = !p.ts; t.set_timestamp(p.ts) }
        _ => { p.nl = !p.nl; t.set_newline(p.nl) }
    }
    views(&t, &p.text());
    p.suf = text_n(1, &[]);
    t.set_suffix(&p.suf);
    views(&t, &p.text());
    p.pre.clear();
    t.set_prefix(MsgKind::None);
    views(&t, &p.text());
    check!(t.to_string().len() == t.len(), "Display disagrees with the length");
    reach(1);
}
/// P01: timestamps of several moments.
#[unsafe(no_mangle)]
pub extern "C" fn h_stamp() {
    let (s, t) = [
        (946_684_800, "2000-01-01 00:00:00"), (951_782_399, "2000-02-28 23:59:59"), (951_782_400, "2000-02-29 00:00:00"),
        (1_000_000_000, "2001-09-09 01:46:40"), (1_709_251_199, "2024-02-29 23:59:59"), (2_147_483_648, "2038-01-19 03:14:08"),
        (4_102_444_799, "2099-12-31 23:59:59"),
    ][choose(7) as usize];
    clock(s, u32() as u64 % 1_000_000_000);
    let mut m = Msg::new(content(1).as_str(), "b").with_indent(1);
    let old = m.as_str()[4..].to_owned();
    if choose(2) == 1 { m = m.with_timestamp(true); }
    m.set_timestamp(true);
    check!(m.as_str() == ["    \x1b[2m[\x1b[0;34m", t, "\x1b[0;2m]\x1b[0m ", &old].concat(), "the timestamp is not the moment's");
    m.set_timestamp(false);
    check!(m.as_str() == ["    ", &old].concat(), "removing the timestamp leaves some of it");
    reach(1);
}
/// P02: long prefixes and bodies.
#[unsafe(no_mangle)]
pub extern "C" fn h_new_long() {
    let n = LONG[choose(param(0)) as usize];
    let (p, body) = if choose(2) == 0 { (fill("x", n), "b".to_owned()) } else { ("p".to_owned(), fill("é", n)) };
    let (m, want) = match choose(3) {
        0 => (Msg::new(p.as_str(), &body), format!("{p}: ")),
        1 => (Msg::new((p.as_str(), 199), &body), format!("\x1b[1;38;5;199m{p}:\x1b[0m ")),
        _ => (Msg::info(&body).with_newline(false), "\x1b[1;95mInfo:\x1b[0m ".to_owned()),
    };
    made(m, &want, &body);
    reach(1);
}
/// P03: long sequences, many sequences, long texts between them.
#[unsafe(no_mangle)]
pub extern "C" fn h_strip_long() {
    let n = LONG[choose(param(0)) as usize];
    let (t, bare) = match choose(6) {
        0 => (format!("a\x1b[{}mb", fill("0", n)), "ab".to_owned()),
        1 => (format!("a\x1b[{}mb", fill(";1", n)), "ab".to_owned()),
        2 => (format!("a\x1b]0;{}\x07b", fill("x", n)), "ab".to_owned()),
        3 => (format!("a\x1b]8;;{}\x1b\\b", fill("y", n)), "ab".to_owned()),
        4 => (format!("{}\x1b[1mb", fill("x", n)), format!("{}b", fill("x", n))),
        _ => { let n = n.min(300); (fill("\x1b[1ma", n), fill("a", n)) }
    };
    let which = choose(2);
    let mut m = Msg::new("P", if which == 0 { &t } else { "B" }).with_suffix(if which == 1 { t.as_str() } else { "\x1b[2mS" });
    check!(m.strip_ansi(), "strip_ansi does not report that it changed something");
    let want = if which == 0 { format!("P: {bare}S") } else { format!("P: B{bare}") };
    check!(m == want.as_str(), "a long text is not stripped to its visible characters");
    check!(!m.strip_ansi() && m == want.as_str(), "stripping twice is not stripping once");
    m.set_suffix("Z");
    check!(m == if which == 0 { format!("P: {bare}Z") } else { "P: BZ".to_owned() }, "the suffix boundary moved");
    m.set_prefix("Q");
    check!(m == if which == 0 { format!("Q: {bare}Z") } else { "Q: BZ".to_owned() }, "the prefix boundary moved");
    reach(1);
}
/// A long text of n characters, with a sequence in the middle or none, its width, and a short tail.
fn long_text(max: u32) -> (String, usize) {
    let n = LONG[choose(max) as usize];
    // (The longest ones are costly: fewer forms of them.)
    let all = n < 10_000;
    let (u, w) = [("宽", 2), ("a", 1), ("œ", 1)][choose(if all { 3 } else { 2 }) as usize];
    let s = match choose(if all { 3 } else { 1 }) {
        0 => fill(u, n),
        1 => format!("{}\x1b[{}m{}", fill(u, n / 2), fill("1;", 200), fill(u, n - n / 2)),
        _ => format!("{}\x1b]0;{}\x07{}", fill(u, n / 2), fill("x", 300), fill(u, n - n / 2)),
    };
    (s, n * w)
}
/// P05: long texts, limits about their width.
#[unsafe(no_mangle)]
pub extern "C" fn h_cut_long() {
    let (s, w) = long_text(param(0));
    let long = w > 60_000;
    if !long { check!(width(&s) == w, "the width of a long text is wrong"); }
    let all = s.len();
    let t = s + ["", "b", "宽", "\u{301}"][choose(4) as usize];
    let full = w + match t.chars().last() { Some('b') => 1, Some('宽') if t.len() > all => 2, _ => 0 };
    check!(width(&t) == full, "the width of a long text is wrong");
    {
        // symbolic limits: about the middle, about the whole
        let k = [w - 2, w / 2 - 2][choose(if long { 1 } else { 2 }) as usize] + below(8) as usize;
        let n = length_width(&t, k);
        if long {
            let want = if k >= full { t.len() } else if k >= w { all } else if t.starts_with('a') { k } else { k / 2 * 3 };
            check!(n == want, "the cut point of a very long text is wrong");
            return;
        }
        check!(t.is_char_boundary(n), "the cut point is not a character boundary");
        check!(width(&t[..n]) <= k, "the text before the cut is wider than the limit");
        if n < t.len() {
            check!(width(&t[..n + clen(t.as_bytes()[n])]) > k, "a later cut point would also fit");
            reach(1);
        } else { reach(2) }
    }
}
/// P04: long lines, alone or among short ones.
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_long() {
    let (s, w) = long_text(param(0));
    let t = match choose(3) { 0 => s, 1 => format!("x\n{s}\nyz\n"), _ => format!("\x1b[1m{s}\x1b[0m\r\n{}", fill("q", 300)) };
    // widths about the long line, its half, the others
    let k = [w - 2, 0, 296, w / 2 - 2][choose(if w < 60_000 { 4 } else { 1 }) as usize] + choose(6) as usize;
    fit_check(&t, k);
}
/// P04: many lines.
#[unsafe(no_mangle)]
pub extern "C" fn h_fit_lines() {
    let n = LONG[choose(param(0)) as usize];
    let t = fill(["ab\n", "ab\r\n", "\n"][choose(3) as usize], n);
    fit_check(&t, 1 + choose(2) as usize);
}
/// P06: answers after, before and within long runs of spaces or other characters.
#[unsafe(no_mangle)]
pub extern "C" fn h_prompt_long() {
    let n = LONG[choose(param(0)) as usize];
    let a = ["y", "Yes", "n", "", "no"][choose(5) as usize];
    let c = ascii();
    assume(c != b'\n');
    let f = fill([" ", "\t", "x"][choose(3) as usize], n) + &String::from_utf8(vec![c]).unwrap();
    let l = if choose(2) == 0 { format!("{f}{a}\n") } else { format!("{a}{f}\n") };
    prompt_check(&[l, "yes\n".to_owned()], false);
}
/// P06: many invalid answers.
#[unsafe(no_mangle)]
pub extern "C" fn h_prompt_many() {
    let n = LONG[choose(param(0)) as usize];
    let mut v = vec!["q\n".to_owned(); n];
    v.push(["y\n", "no\n", "\n"][choose(3) as usize].to_owned());
    prompt_check(&v, false);
}
