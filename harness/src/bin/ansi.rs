//! The compile-time formatting macros (P24): every code they can produce, and its compositions.
#![no_main]
#![recursion_limit = "1024"]
use fyi_ansi::{ansi, blink, bold, csi, dim, italic, strike, underline};
use fyi_msg::AnsiColor;
use harness::refm::color_code;
use harness::{check, *};

macro_rules! nums { ($($n:tt)*) => { [$((csi!($n), csi!(!$n), csi!(bold, $n), csi!($n, !dim), ansi!(($n) "x", "y"))),*] } }
type Num = (&'static str, &'static str, &'static str, &'static str, &'static str);
static NUMS: [Num; 256] = nums!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255);

macro_rules! names { ($(($p:ident, $s:tt, $n:expr)),*) => { [$((csi!($s), csi!(!$s), ansi!((underline, $s) "x"), AnsiColor::$p, $n as u8)),*] } }
type Name = (&'static str, &'static str, &'static str, AnsiColor, u8);
static NAMES: [Name; 48] = names!((Black, black, 0), (Red, red, 1), (Green, green, 2), (Yellow, yellow, 3), (Blue, blue, 4), (Magenta, magenta, 5), (Cyan, cyan, 6), (LightGrey, light_grey, 7), (DarkGrey, dark_grey, 8), (LightRed, light_red, 9), (LightGreen, light_green, 10), (LightYellow, light_yellow, 11), (LightBlue, light_blue, 12), (LightMagenta, light_magenta, 13), (LightCyan, light_cyan, 14), (White, white, 15), (NavyBlue, navy_blue, 17), (DarkBlue, dark_blue, 18), (DarkGreen, dark_green, 22), (DarkCyan, dark_cyan, 36), (LightSeaGreen, light_sea_green, 37), (DarkTurquoise, dark_turquoise, 44), (MediumSpringGreen, medium_spring_green, 49), (BlueViolet, blue_violet, 57), (RoyalBlue, royal_blue, 63), (SteelBlue, steel_blue, 67), (CornflowerBlue, cornflower_blue, 69), (MediumTurquoise, medium_turquoise, 80), (LightSlateGrey, light_slate_grey, 103), (MediumPurple, medium_purple, 104), (LightSlateBlue, light_slate_blue, 105), (DarkSeaGreen, dark_sea_green, 108), (MediumVioletRed, medium_violet_red, 126), (DarkGoldenrod, dark_goldenrod, 136), (RosyBrown, rosy_brown, 138), (DarkKhaki, dark_khaki, 143), (LightSteelBlue, light_steel_blue, 147), (GreenYellow, green_yellow, 154), (Orchid, orchid, 170), (Violet, violet, 177), (Tan, tan, 180), (Honeydew, honeydew, 194), (OrangeRed, orange_red, 201), (DarkOrange, dark_orange, 208), (Salmon, salmon, 209), (LightCoral, light_coral, 210), (SandyBrown, sandy_brown, 215), (Cornsilk, cornsilk, 230));

/// (code, sequence)
macro_rules! styles { ($(($c:expr, $($k:tt)+)),*) => { [$(($c, csi!($($k)+), ansi!(($($k)+) "t"))),*] } }
static STYLES: [(&str, &str, &str); 18] = styles!(("0", reset), ("0", !reset), ("39", !fg), ("1", bold), ("2", dim), ("3", italic), ("4", underline), ("5", blink), ("9", strike),
    ("21", !bold), ("22", !dim), ("23", !italic), ("24", !underline), ("25", !blink), ("29", !strike), ("91", light_red), ("38;5;199", 199), ("39", !199));

macro_rules! pairs {
    ($(($($a:tt)+))*; $b:tt) => { [$(pairs!(@row ($($a)+) $b)),*] };
    (@row ($($a:tt)+) ($(($($b:tt)+))*)) => { pairs!(@cells ($($a)+) $(($($b)+))*) };
    (@cells $a:tt $($b:tt)*) => { [$(pairs!(@cell $a $b)),*] };
    (@cell ($($a:tt)+) ($($b:tt)+)) => { (csi!($($a)+, $($b)+), ansi!(($($a)+, $($b)+, !fg) "t"), csi!(dim, $($a)+, $($b)+, 9)) };
}
static PAIRS: [[(&str, &str, &str); 18]; 18] = pairs!(
    (reset) (!reset) (!fg) (bold) (dim) (italic) (underline) (blink) (strike) (!bold) (!dim) (!italic) (!underline) (!blink) (!strike) (light_red) (199) (!199);
    ((reset) (!reset) (!fg) (bold) (dim) (italic) (underline) (blink) (strike) (!bold) (!dim) (!italic) (!underline) (!blink) (!strike) (light_red) (199) (!199)));

fn seq(codes: &[&str]) -> String { ["\x1b[", &codes.join(";"), "m"].concat() }

/// Every colour number: set, unset, combined, wrapping, and against the runtime colour.
#[unsafe(no_mangle)]
pub extern "C" fn h_num() {
    let n = u8();
    let t = NUMS[n as usize];
    let rt = AnsiColor::from_u8(n);
    check!(t.0 == rt.as_str(), "the macro's colour differs from the runtime colour");
    let n = fix(n as u64) as u8;
    let c = color_code(n);
    check!(t.0 == seq(&[&c]), "the macro's colour is not the standard sequence");
    check!(t.1 == seq(&["39"]), "unsetting a colour is not the standard sequence");
    check!(t.2 == seq(&["1", &c]) && t.3 == seq(&[&c, "22"]), "a colour combined with a style is wrong");
    check!(t.4 == [seq(&[&c]).as_str(), "xy\x1b[0m"].concat(), "coloured text is not opened by the colour and closed by the reset");
    check!(rt.to_string() == t.0, "the runtime colour displays differently from the macro's");
    observe(t.0.as_bytes());
    reach(1);
}
/// Every colour name is its documented number.
#[unsafe(no_mangle)]
pub extern "C" fn h_name() {
    let i = choose(NAMES.len() as u32) as usize;
    let t = NAMES[i];
    let c = color_code(t.4);
    check!(t.3 as u8 == t.4, "a named runtime colour is not the number documented");
    check!(t.0 == NUMS[t.4 as usize].0 && t.0 == seq(&[&c]), "a named colour differs from its number");
    check!(t.0 == t.3.as_str(), "a named macro colour differs from the runtime colour of that name");
    check!(t.1 == seq(&["39"]), "unsetting a named colour is not the standard sequence");
    check!(t.2 == [seq(&["4", &c]).as_str(), "x\x1b[0m"].concat(), "text in a named colour is wrong");
    observe(t.0.as_bytes());
    reach(1);
}
/// Every style and every pair of styles, in order.
#[unsafe(no_mangle)]
pub extern "C" fn h_style() {
    let (i, j) = (choose(18) as usize, choose(18) as usize);
    let (a, b) = (STYLES[i], STYLES[j]);
    check!(a.1 == seq(&[a.0]), "a style is not its standard sequence");
    check!(a.2 == [seq(&[a.0]).as_str(), "t\x1b[0m"].concat(), "styled text is not opened by its style and closed by the reset");
    let p = PAIRS[i][j];
    check!(p.0 == seq(&[a.0, b.0]), "two styles do not combine in order");
    check!(p.1 == [seq(&[a.0, b.0, "39"]).as_str(), "t\x1b[0m"].concat(), "text with three styles is wrong");
    check!(p.2 == seq(&["2", a.0, b.0, "91"]), "four styles do not combine in order");
    observe(p.2.as_bytes());
    reach(1);
}
/// The wrappers, with every kind and number of pieces.
#[unsafe(no_mangle)]
pub extern "C" fn h_wrap() {
    const R: &str = "\x1b[0m";
    let t: [(&str, &str, &str); 6] = [
        ("1", bold!("a"), bold!("a", 1, 'c', true, csi!(9),)), ("2", dim!("a"), dim!("a", 1, 'c', true, csi!(9),)),
        ("3", italic!("a"), italic!("a", 1, 'c', true, csi!(9),)), ("4", underline!("a"), underline!("a", 1, 'c', true, csi!(9),)),
        ("5", blink!("a"), blink!("a", 1, 'c', true, csi!(9),)), ("9", strike!("a"), strike!("a", 1, 'c', true, csi!(9),)),
    ];
    let t = t[choose(6) as usize];
    check!(t.1 == [seq(&[t.0]).as_str(), "a", R].concat(), "a shortcut does not wrap its text in its style and the reset");
    check!(t.2 == [seq(&[t.0]).as_str(), "a1ctrue\x1b[91m", R].concat(), "a shortcut loses or moves a piece of text");
    check!(csi!() == R && csi!(reset) == R, "the full reset is wrong");
    check!(ansi!((bold, 199) "Hello ", csi!(light_cyan), "World") == "\x1b[1;38;5;199mHello \x1b[96mWorld\x1b[0m", "nested sequences are wrong");
    check!(ansi!((bold) "", ansi!((dim) "x"), 2.5) == "\x1b[1m\x1b[2mx\x1b[0m2.5\x1b[0m", "nested text is wrong");
    observe(t.2.as_bytes());
    reach(1);
}
