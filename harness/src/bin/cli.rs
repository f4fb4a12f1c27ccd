//! The command line program (P09, P10): the real `main`, linked into the module and run with
//! symbolic arguments; natively the real binary is executed.
#![no_main]
use harness::refm::*;
use harness::{check, *};

/// (command, label, colour)
const CMDS: [(&str, &str, u8); 16] = [
    ("aborted", "Aborted", 9), ("blank", "", 0), ("confirm", "Confirm", 208), ("crunched", "Crunched", 10), ("debug", "Debug", 14), ("done", "Done", 10),
    ("error", "Error", 9), ("found", "Found", 10), ("info", "Info", 13), ("notice", "Notice", 13), ("print", "", 0), ("review", "Review", 14),
    ("skipped", "Skipped", 11), ("success", "Success", 10), ("task", "Task", 199), ("warning", "Warning", 11),
];
const BLANK: usize = 1;
const CONFIRM: usize = 2;
const PRINT: usize = 10;
const ERR: &[u8] = b"\x1b[1;91mError:\x1b[0m ";

fn cat(v: &[&[u8]]) -> Vec<u8> { v.concat() }
fn colored(c: u8, label: &[u8]) -> Vec<u8> {
    if label.is_empty() { Vec::new() } else { cat(&[b"\x1b[1;", color_code(c).as_bytes(), b"m", label, b":\x1b[0m "]) }
}

/// What the arguments ask for.
enum Ask {
    Help,
    Version,
    Invalid,
    NoMessage,
    Blank { stderr: bool, count: u64 },
    Say { text: Vec<u8>, prefix: Vec<u8>, indent: bool, stamp: bool, stderr: bool, exit: u8, yes: bool },
}
/// Match one argument against keys, as documented: the key itself, a short key with its value
/// attached, or a long key with `=value`.
fn key(arg: &[u8], short: u8, long: &str, valued: bool) -> Option<Option<Vec<u8>>> {
    if short != 0 && arg.len() >= 2 && arg[0] == b'-' && arg[1] == short {
        if arg.len() == 2 { return Some(None); }
        let v = if arg[2] == b'=' { &arg[3..] } else { &arg[2..] };
        return Some(if valued { Some(v.to_vec()) } else { None });
    }
    let l = long.as_bytes();
    if arg.len() >= l.len() && &arg[..l.len()] == l {
        if arg.len() == l.len() { return Some(None); }
        if arg[l.len()] == b'=' { return Some(if valued { Some(arg[l.len() + 1..].to_vec()) } else { None }); }
    }
    None
}
fn trim(v: &[u8]) -> &[u8] {
    let ws = |b: u8| (b == b' ') | (b >= 9) & (b <= 13);
    let (mut a, mut z) = (0, v.len());
    while a < z && ws(v[a]) { a += 1; }
    while z > a && ws(v[z - 1]) { z -= 1; }
    &v[a..z]
}
/// A decimal number not above `max`.
fn number(v: &[u8], max: u64) -> Option<u64> {
    let v = trim(v);
    if v.is_empty() { return None; }
    let mut n = 0u128;
    for b in v {
        if (*b < b'0') | (*b > b'9') { return None; }
        n = n * 10 + (*b - b'0') as u128;
        if n > max as u128 { n = max as u128 + 1; }
    }
    if n > max as u128 { None } else { Some(n as u64) }
}
fn parse_blank(args: &[Vec<u8>]) -> Ask {
    let (mut stderr, mut count) = (false, 1);
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if a == b"--" { break; }
        if key(a, b'h', "--help", false).is_some() { return Ask::Help; }
        if key(a, 0, "--stderr", false).is_some() { stderr = true; continue; }
        if let Some(v) = key(a, b'c', "--count", true) {
            let v = match v {
                Some(v) => v,
                None if i < args.len() => { i += 1; args[i - 1].clone() }
                None => break,
            };
            if let Some(n) = number(&v, u64::MAX) { if n > count { count = n; } }
        }
    }
    Ask::Blank { stderr, count }
}
fn parse(args: &[Vec<u8>], cmd: usize) -> Ask {
    let (mut msg, mut pre, mut color): (Option<Vec<u8>>, Vec<u8>, u8) = (None, Vec::new(), 199);
    let (mut indent, mut stamp, mut stderr, mut yes, mut exit) = (false, false, false, false, 0);
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if core::str::from_utf8(a).is_err() { return Ask::Invalid; }
        if a.is_empty() { continue; }
        if a == b"--" { break; }
        if key(a, b'h', "--help", false).is_some() { return Ask::Help; }
        if key(a, b'i', "--indent", false).is_some() { indent = true; continue; }
        if key(a, 0, "--stderr", false).is_some() { stderr = true; continue; }
        if key(a, b't', "--timestamp", false).is_some() { stamp = true; continue; }
        if key(a, b'y', "--yes", false).is_some() { yes = true; continue; }
        let mut hit = None;
        for (k, s, l) in [(0, b'c', "--prefix-color"), (1, b'e', "--exit"), (2, b'p', "--prefix")] {
            if let Some(v) = key(a, s, l, true) { hit = Some((k, v)); }
        }
        if let Some((k, v)) = hit {
            let v = match v {
                Some(v) => v,
                None if i < args.len() => { i += 1; args[i - 1].clone() }
                None => break,
            };
            if core::str::from_utf8(&v).is_err() { return Ask::Invalid; }
            match k {
                0 => if let Some(n) = number(&v, 255) { color = n as u8; },
                1 => if let Some(n) = number(&v, 255) { exit = n as u8; },
                _ => pre = v,
            }
            continue;
        }
        if msg.is_some() { return Ask::Invalid; }
        msg = Some(a.clone());
    }
    let Some(text) = msg else { return Ask::NoMessage };
    let prefix = if cmd == PRINT { if pre.is_empty() { Vec::new() } else { colored(fix(color as u64) as u8, &pre) } } else { colored(CMDS[cmd].2, CMDS[cmd].1.as_bytes()) };
    Ask::Say { text, prefix, indent, stamp, stderr, exit, yes }
}

/// Is this `want`, where `@` bytes of the timestamp stand for digits?
const STAMP: &[u8] = b"\x1b[2m[\x1b[0;34m@@@@-@@-@@ @@:@@:@@\x1b[0;2m]\x1b[0m ";
/// Split off the timestamp at `at` when there should be one.
fn unstamp(o: &[u8], at: usize) -> Option<Vec<u8>> {
    if o.len() < at + STAMP.len() { return None; }
    for i in 0..STAMP.len() {
        let (w, g) = (STAMP[i], o[at + i]);
        if w == b'@' { if !g.is_ascii_digit() { return None; } } else if w != g { return None; }
    }
    Some(cat(&[&o[..at], &o[at + STAMP.len()..]]))
}
fn run(args: &[Vec<u8>]) -> (i32, Vec<u8>, Vec<u8>) {
    clock(1_000_000_000, 0);
    let mut v = vec![b"fyi".to_vec()];
    v.extend_from_slice(args);
    let rc = run_program(&v);
    (rc, out(1), out(2))
}
fn helped(rc: i32, o: &[u8], e: &[u8], word: &[u8]) {
    check!(rc == 0, "asking for help does not exit 0");
    check!(e.is_empty(), "help was written to the error stream");
    check!(o.windows(6).any(|w| w == b"USAGE:") && o.windows(word.len()).any(|w| w == word), "the help screen is not the one asked for");
    reach(1);
}
fn expect(args: &[Vec<u8>], cmd: usize, want: Ask) {
    let (rc, o, e) = run(args);
    let name = CMDS[cmd].0.as_bytes();
    match want {
        Ask::Help => helped(rc, &o, &e, &cat(&[b"fyi ", name, b" "])),
        Ask::Version => {}
        Ask::Invalid => {
            check!(rc != 0, "invalid arguments exit 0");
            check!(o.is_empty(), "invalid arguments print to the standard output");
            check!(e == cat(&[ERR, b"Invalid CLI argument(s); run \x1b[2mfyi ", name, b" --help\x1b[0m for usage.\n"]), "invalid arguments do not print the error");
            observe(&e);
            reach(2);
        }
        Ask::NoMessage => {
            check!(rc != 0, "a missing message exits 0");
            check!(o.is_empty() && e == cat(&[ERR, b"Missing message.\n"]), "a missing message does not print the error");
            reach(3);
        }
        Ask::Blank { stderr, count } => {
            check!(rc == 0, "blank lines do not exit 0");
            let (a, b) = if stderr { (e, o) } else { (o, e) };
            check!(b.is_empty(), "blank lines went to both streams");
            check!(a.len() as u64 == count && a.iter().all(|c| *c == b'\n'), "not the number of blank lines asked for");
            observe_n(a.len() as u64);
            reach(4);
        }
        Ask::Say { text, prefix, indent, stamp, stderr, exit, yes: _ } => {
            check!(rc == exit as i32, "the exit code is not the one asked for");
            let (a, b) = if stderr { (e, o) } else { (o, e) };
            check!(b.is_empty(), "the message went to the wrong stream");
            let ind: &[u8] = if indent { b"    " } else { b"" };
            let a = if stamp {
                let x = unstamp(&a, ind.len());
                check!(x.is_some(), "the timestamp asked for is not shown");
                x.unwrap_or_default()
            } else { a };
            check!(a == cat(&[ind, &prefix, &text, b"\n"]), "the message is not the one asked for");
            observe(&a);
            reach(5);
        }
    }
}

/// A symbolic character that may be in an argument.
fn ch() -> u8 { let b = ascii(); assume(b != 0); b }
fn chars(n: u32) -> Vec<u8> { (0..n).map(|_| ch()).collect() }

/// Every first argument: p0 symbolic characters, or a command or key with one character changed,
/// dropped or added.
#[unsafe(no_mangle)]
pub extern "C" fn h_first() {
    let mut words: Vec<&str> = CMDS.iter().map(|c| c.0).collect();
    words.extend_from_slice(&["-h", "--help", "-V", "--version", "help", "prompt"]);
    let a = match choose(4) {
        0 => chars(choose(param(0) + 1)),
        1 => words[choose(words.len() as u32) as usize].as_bytes().to_vec(),
        2 => {
            let mut w = words[choose(words.len() as u32) as usize].as_bytes().to_vec();
            let i = choose(w.len() as u32) as usize;
            w[i] = ch();
            w
        }
        _ => {
            let mut w = words[choose(words.len() as u32) as usize].as_bytes().to_vec();
            w.push(ch());
            if choose(2) == 1 { w.push(ch()); }
            w
        }
    };
    let rest = choose(2);
    let mut args = vec![a.clone()];
    if rest == 1 { args.push(b"x".to_vec()); }
    // an empty argument is no argument
    let first = if a.is_empty() { if rest == 1 { b"x".to_vec() } else { Vec::new() } } else { a };
    let version = key(&first, b'V', "--version", false).is_some();
    let cmd = CMDS.iter().position(|c| c.0.as_bytes() == first.as_slice());
    if version {
        let (rc, o, e) = run(&args);
        check!(rc == 0 && e.is_empty(), "asking for the version fails");
        check!(o.starts_with(b"FYI v") && o.ends_with(b"\n"), "the version is not printed");
        reach(10);
        return;
    }
    let Some(c) = cmd else {
        let (rc, o, e) = run(&args);
        helped(rc, &o, &e, b"fyi <SUBCOMMAND>");
        return;
    };
    if c == CONFIRM && rest == 1 {
        reach(11);
        return; // asks; see h_confirm
    }
    let want = if c == BLANK { parse_blank(&args[1..]) } else { parse(&args[1..], c) };
    expect(&args, c, want);
}

const T: [&[u8]; 20] = [
    b"-i", b"--stderr", b"-t", b"-y", b"-h", b"--indent", b"--timestamp", b"--yes", b"--help", b"-e", b"--exit", b"-p", b"--prefix", b"-c", b"--prefix-color",
    b"--", b"", b"-x", b"hi\n", "\u{5bbd} \x1b[1m".as_bytes(),
];
fn any_arg(class: u32) -> Vec<u8> {
    match class {
        0 => chars(2),
        1 => cat(&[b"-e", &chars(2)]),
        2 => cat(&[b"--exit=", &chars(1)]),
        3 => cat(&[b"-p", &chars(1)]),
        4 => cat(&[b"--prefix=", &chars(1)]),
        5 => vec![0xff, b'a'],
        n => T[n as usize - 6].to_vec(),
    }
}
/// Every list of p0 arguments from the table, for a built-in prefix or (p1) `print`.
#[unsafe(no_mangle)]
pub extern "C" fn h_args() {
    let c = if param(1) == 1 { PRINT } else { 6 };
    let mut args = vec![CMDS[c].0.as_bytes().to_vec()];
    for _ in 0..param(0) { args.push(any_arg(choose(26))); }
    let want = parse(&args[1..], c);
    expect(&args, c, want);
}
/// Flags and values in every form around a symbolic message, for every command.
#[unsafe(no_mangle)]
pub extern "C" fn h_say() {
    let c = choose(16) as usize;
    if c == BLANK || c == CONFIRM { return; }
    let mut args = vec![CMDS[c].0.as_bytes().to_vec()];
    let text = chars(choose(param(0) + 1));
    let f = choose(16);
    let late = choose(2) == 1;
    if !late { args.push(text.clone()); }
    if f & 1 != 0 { args.push(b"-i".to_vec()); }
    if f & 2 != 0 { args.push(b"--timestamp".to_vec()); }
    if f & 4 != 0 { args.push(b"--stderr".to_vec()); }
    if f & 8 != 0 { args.push(b"-p".to_vec()); args.push(b"Abc".to_vec()); }
    if late { args.push(text); }
    let want = parse(&args[1..], c);
    expect(&args, c, want);
}
/// Every value of p0 characters for the exit code and the prefix colour, attached or apart.
#[unsafe(no_mangle)]
pub extern "C" fn h_value() {
    let v = chars(choose(param(0) + 1));
    let mut args = vec![b"print".to_vec(), b"m".to_vec()];
    match choose(5) {
        0 => { args.push(b"-e".to_vec()); args.push(v); }
        1 => args.push(cat(&[b"--exit=", &v])),
        2 => args.push(cat(&[b"-e", &v])),
        3 => { args.push(b"--prefix-color".to_vec()); args.push(v); args.push(b"-pX".to_vec()); }
        _ => { args.push(b"--prefix=X".to_vec()); args.push(cat(&[b"-c", &v])); }
    }
    let want = parse(&args[1..], PRINT);
    expect(&args, PRINT, want);
}
/// Every decimal number of up to p0 digits for the same.
#[unsafe(no_mangle)]
pub extern "C" fn h_number() {
    let mut v = [&b""[..], b" ", b"0", b"00000000000000000000", b"+", b"-"][choose(6) as usize].to_vec();
    for _ in 0..1 + choose(param(0)) {
        let c = u8();
        assume((c >= b'0') & (c <= b'9'));
        v.push(c);
    }
    let mut args = vec![b"print".to_vec(), b"-pX".to_vec(), b"m".to_vec(), b"-e7".to_vec(), b"-c9".to_vec()];
    if choose(2) == 0 { args.push(cat(&[b"-e=", &v])); } else { args.push(b"-c".to_vec()); args.push(v); }
    let want = parse(&args[1..], PRINT);
    expect(&args, PRINT, want);
}
/// A custom prefix of p0 symbolic characters in a symbolic colour.
#[unsafe(no_mangle)]
pub extern "C" fn h_prefix() {
    let p = chars(choose(param(0) + 1));
    let mut args = vec![b"print".to_vec(), b"--prefix".to_vec(), p];
    if choose(2) == 1 { args.push(b"-c".to_vec()); args.push(fix(u8() as u64).to_string().into_bytes()); }
    args.push(b"m".to_vec());
    let want = parse(&args[1..], PRINT);
    expect(&args, PRINT, want);
}
/// Blank lines: every count of p0 characters in every form, to both streams.
#[unsafe(no_mangle)]
pub extern "C" fn h_blank() {
    let mut args = vec![b"blank".to_vec()];
    if choose(2) == 1 { args.push(b"--stderr".to_vec()); }
    match choose(6) {
        0 => {}
        1 => { args.push(b"-c".to_vec()); args.push(chars(choose(param(0) + 1))); }
        2 => args.push(cat(&[b"--count=", &chars(choose(param(0) + 1))])),
        3 => args.push(cat(&[b"-c", &chars(choose(param(0) + 1))])),
        4 => { args.push(b"-c3".to_vec()); args.push(cat(&[b"-c", &chars(1)])); args.push(b"other".to_vec()); }
        _ => args.push(any_arg(choose(26))),
    }
    let want = parse_blank(&args[1..]);
    expect(&args, BLANK, want);
}
/// Larger counts, around the limits of small integers.
#[unsafe(no_mangle)]
pub extern "C" fn h_blank_large() {
    const N: [&str; 12] = ["127", "128", "255", "256", "257", "4095", "4096", "4097", "32768", "65535", "65536", "65537"];
    let mut args = vec![b"blank".to_vec(), b"-c".to_vec(), N[choose(12) as usize].as_bytes().to_vec()];
    if choose(2) == 1 { args.push(b"--stderr".to_vec()); }
    let want = parse_blank(&args[1..]);
    expect(&args, BLANK, want);
}
/// Any count, however large, to a stream that ends: no panic.
#[unsafe(no_mangle)]
pub extern "C" fn h_blank_huge() {
    const N: [&str; 5] = ["18446744073709551615", "9223372036854775808", "9223372036854775807", "1000000000000", "4294967297"];
    let mut args = vec![b"blank".to_vec(), b"--count".to_vec(), N[choose(5) as usize].as_bytes().to_vec()];
    let err = choose(2);
    if err == 1 { args.push(b"--stderr".to_vec()); }
    wfail(1 + err, 3);
    let (rc, o, e) = run(&args);
    let (a, b) = if err == 1 { (e, o) } else { (o, e) };
    check!(rc != 101, "a large count of blank lines panics");
    check!(b.is_empty() && a.iter().all(|c| *c == b'\n') && a.len() >= 2, "a large count does not print blank lines");
    reach(1);
}

// ---------------------------------------------------------------- P10
fn confirm(lines: &[Vec<u8>]) {
    for l in lines { stdin(l); }
    let f = choose(8);
    let (yes, indent) = (f & 1 != 0, f & 2 != 0);
    let mut args = vec![b"confirm".to_vec()];
    if yes && f & 4 == 0 { args.push(b"-y".to_vec()); }
    if indent { args.push(b"-i".to_vec()); }
    args.push(b"Q?".to_vec());
    if yes && f & 4 != 0 { args.push(b"--yes".to_vec()); }
    let mut asked = 0;
    let mut ans = None;
    for l in lines {
        if ans.is_some() { continue; }
        asked += 1;
        let Ok(t) = core::str::from_utf8(l) else { continue };
        let t = t.to_lowercase();
        let t = t.trim();
        if t.is_empty() { ans = Some(yes); }
        else if t == "n" || t == "no" { ans = Some(false); }
        else if t == "y" || t == "yes" { ans = Some(true); }
    }
    // the end of the input is an empty answer
    let ans = ans.unwrap_or_else(|| { asked += 1; yes });
    let (rc, o, e) = run(&args);
    observe_n(rc as u64);
    observe(&o);
    if ans { check!(rc == 0, "a yes does not exit 0"); } else { check!(rc != 0, "a no exits 0"); check!(rc == 1, "a no does not exit 1"); }
    check!(e.is_empty(), "confirm wrote to the error stream");
    let q = if yes { " \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m " } else { " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m " };
    let q = cat(&[if indent { b"    " } else { b"" }, b"\x1b[1;38;5;208mConfirm:\x1b[0m Q?", q.as_bytes()]);
    let mut want = Vec::new();
    for i in 0..asked {
        if i > 0 { want.extend_from_slice(b"\x1b[1;91mError:\x1b[0m Invalid input; enter \x1b[91mN\x1b[0m or \x1b[92mY\x1b[0m.\n"); }
        want.extend_from_slice(&q);
    }
    check!(o == want, "the question was not asked once per answer, with a note after each invalid one");
    if ans { reach(1) } else { reach(2) }
    if asked > 1 { reach(3) }
}
/// A symbolic first line, then a valid one.
#[unsafe(no_mangle)]
pub extern "C" fn h_confirm() {
    let mut a = text_n(choose(param(0) + 1), &[]).into_bytes();
    for b in &a { assume(*b != b'\n'); }
    a.push(b'\n');
    confirm(&[a, b"Yes\n".to_vec()]);
}
/// Token lines, including ones that are not text, up to p0, then the end of the input.
#[unsafe(no_mangle)]
pub extern "C" fn h_confirm_tok() {
    const L: [&[u8]; 9] = [b"\n", b"y\n", b"NO\n", b" yEs \r\n", b"q\n", b"\xff\n", b"y\xc3\n", b"yy\n", "\u{a0}Y\t\n".as_bytes()];
    let mut v: Vec<Vec<u8>> = Vec::new();
    for _ in 0..choose(param(0) + 1) { v.push(L[choose(L.len() as u32) as usize].to_vec()); }
    match choose(3) { 0 => {} 1 => v.push(b"yes".to_vec()), _ => v.push(b"x".to_vec()) }
    confirm(&v);
}
/// A confirmation that is not asked: no message, or invalid arguments.
#[unsafe(no_mangle)]
pub extern "C" fn h_confirm_args() {
    stdin(b"y\n");
    let mut args = vec![b"confirm".to_vec()];
    for _ in 0..param(0) { args.push(any_arg(choose(26))); }
    match parse(&args[1..], CONFIRM) {
        Ask::Say { text, prefix, indent, stamp, yes, .. } => {
            let (rc, o, e) = run(&args);
            check!(rc == 0, "a yes does not exit 0");
            check!(e.is_empty(), "confirm wrote to the error stream");
            let ind: &[u8] = if indent { b"    " } else { b"" };
            let o = if stamp {
                let x = unstamp(&o, ind.len());
                check!(x.is_some(), "the timestamp asked for is not shown");
                x.unwrap_or_default()
            } else { o };
            let q = if yes { " \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m " } else { " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m " };
            check!(o == cat(&[ind, &prefix, &text, q.as_bytes()]), "the question is not the one asked for");
            observe(&o);
            reach(5);
        }
        want => expect(&args, CONFIRM, want),
    }
}

/// Long messages and prefixes.
#[unsafe(no_mangle)]
pub extern "C" fn h_long() {
    let n = [255usize, 256, 257, 1023, 1024, 4096, 8191, 8192, 65535, 65536][choose(param(0)) as usize];
    let c = choose(16) as usize;
    if c == BLANK || c == CONFIRM { return; }
    let mut args = vec![CMDS[c].0.as_bytes().to_vec()];
    let t = chars(1);
    let long = match choose(2) { 0 => cat(&[&b"x".repeat(n), &t]), _ => cat(&[&"é\n".as_bytes().repeat(n / 2), &t]) };
    if c == PRINT && choose(2) == 1 {
        args.push(b"-p".to_vec());
        args.push(long);
        args.push(b"-i".to_vec());
        args.push(b"m".to_vec());
    } else {
        if choose(2) == 1 { args.push(b"--stderr".to_vec()); }
        args.push(long);
    }
    let want = parse(&args[1..], c);
    expect(&args, c, want);
}
