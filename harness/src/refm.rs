//! Reference models (oracles), written from the documentation and independent of the code checked.

/// The alphabet of multi-byte characters: (text, display width).
pub const ALPHA: [(&str, usize); 4] = [("œ", 1), ("宽", 2), ("\u{301}", 0), ("😀", 2)];
/// Characters of every sort, and how wide they display: soft, zero-width, joining, combining, full and
/// half width, private, unassigned, the first and last of every length.
pub const SPECIAL: [(&str, usize); 40] = [
    ("\u{AD}", 0), ("\u{85}", 0), ("\u{9B}", 0), ("\u{200B}", 0), ("\u{200D}", 0), ("\u{FE0F}", 0), ("\u{FEFF}", 0), ("\u{1160}", 0), ("\u{FDFA}", 1), ("\u{FF21}", 2), ("\u{FF71}", 1), ("\u{1F1E6}", 1), ("\u{231A}", 2), ("\u{263A}", 1), ("\u{AC01}", 2), ("\u{E33}", 1), ("\u{2E3B}", 1), ("\u{3000}", 2), ("\u{D7B0}", 0), ("\u{E0001}", 0), ("\u{10FFFF}", 1), ("\u{2028}", 1), ("\u{2060}", 0), ("\u{20E3}", 0), ("\u{1F3FD}", 2), ("\u{1F469}", 2), ("\u{61C}", 0), ("\u{202E}", 0), ("\u{7FF}", 1), ("\u{800}", 1), ("\u{FFFF}", 1), ("\u{10000}", 1), ("\u{D7FF}", 1), ("\u{E000}", 1), ("\u{20000}", 2), ("\u{2764}", 1), ("\u{3164}", 0), ("\u{A0}", 1), ("\u{2026}", 1), ("\u{2003}", 1),
];
pub const WIDE: [&str; 4] = ["œ", "宽", "\u{301}", "😀"];

/// Which bytes belong to an escape sequence: CSI (`ESC [` through the first byte 0x40..=0x7E) or
/// OSC (`ESC ]` through BEL, `œ` or `ESC \`), to the end of the text when never closed.
pub fn mark(s: &[u8]) -> Vec<bool> {
    let n = s.len();
    let mut out = vec![false; n];
    let mut i = 0;
    while i < n {
        let end = seq_at(s, i);
        if end == i {
            i += 1;
        } else {
            for m in &mut out[i..end] { *m = true; }
            i = end;
        }
    }
    out
}
/// End of the sequence starting at `i`, or `i` if none starts there.
pub fn seq_at(s: &[u8], i: usize) -> usize {
    let n = s.len();
    if i + 1 >= n || s[i] != 0x1b { return i; }
    if s[i + 1] == b'[' {
        let mut j = i + 2;
        while j < n {
            if s[j] >= 0x40 && s[j] <= 0x7e { return j + 1; }
            j += 1;
        }
        return n;
    }
    if s[i + 1] == b']' {
        let mut j = i + 2;
        while j < n {
            if s[j] == 7 { return j + 1; }
            if j + 1 < n && s[j] == 0x1b && s[j + 1] == b'\\' { return j + 2; }
            if j + 1 < n && s[j] == 0xc5 && s[j + 1] == 0x93 { return j + 2; }
            j += 1;
        }
        return n;
    }
    i
}
pub fn has_seq(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        if seq_at(s, i) != i { return true; }
        i += 1;
    }
    false
}
/// Remove every sequence, left to right, once.
pub fn strip_pass(s: &[u8]) -> Vec<u8> {
    let m = mark(s);
    let mut out = Vec::new();
    for i in 0..s.len() {
        if !m[i] { out.push(s[i]); }
    }
    out
}
/// ... until none is left.
pub fn strip_all(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    while has_seq(&v) { v = strip_pass(&v); }
    v
}
/// Remove the first sequence, look again from the start, until none is left.
pub fn strip_one_by_one(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    'outer: loop {
        let mut i = 0;
        while i < v.len() {
            let e = seq_at(&v, i);
            if e != i {
                v.drain(i..e);
                continue 'outer;
            }
            i += 1;
        }
        return v;
    }
}
/// Length in bytes of the character starting with this byte.
pub fn clen(b: u8) -> usize {
    if b < 0x80 { 1 } else if b < 0xe0 { 2 } else if b < 0xf0 { 3 } else { 4 }
}
/// Display width of the character at `i` (ASCII, or a member of the alphabet).
pub fn cwidth(s: &[u8], i: usize) -> usize {
    let b = s[i];
    if b < 0x80 { return usize::from(b >= 0x20 && b != 0x7f); }
    let l = clen(b);
    for (t, w) in ALPHA {
        if &s[i..i + l] == t.as_bytes() { return w; }
    }
    for (t, w) in SPECIAL {
        if &s[i..i + l] == t.as_bytes() { return w; }
    }
    usize::from(l > 2) + 1
}
/// Display width of the visible characters.
pub fn ref_width(s: &[u8]) -> usize {
    let m = mark(s);
    let mut w = 0;
    let mut i = 0;
    while i < s.len() {
        if m[i] { i += 1; continue; }
        w += cwidth(s, i);
        i += clen(s[i]);
    }
    w
}
/// The parameters of a foreground colour sequence.
pub fn color_code(n: u8) -> String {
    if n < 8 { format!("3{n}") } else if n < 16 { format!("9{}", n - 8) } else { format!("38;5;{n}") }
}
