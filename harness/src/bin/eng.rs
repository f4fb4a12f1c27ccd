//! Not a property: parts of std that the code under test does not use today but could tomorrow.
#![allow(deprecated, unused)]
#![no_main]
use harness::{check, *};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque, BinaryHeap};
use std::sync::{Arc, Barrier, Condvar, LazyLock, Mutex, Once, OnceLock, RwLock, mpsc, atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicI32, AtomicUsize, AtomicPtr, Ordering::*}};
use std::time::{Duration, Instant, SystemTime};
use std::io::{self, Write, Read, BufRead};
macro_rules! check { ($c:expr) => { check($c, concat!("line ", line!())) } }

#[unsafe(no_mangle)]
pub extern "C" fn h_coll() {
    let n = u8(); assume(n < 100);
    let mut h = HashMap::new();
    for i in 0..20_u8 { h.insert(i, i * 2); }
    h.insert(fix(n as u64 & 3) as u8, 7);
    check!(h.len() == 20 && h[&19] == 38);
    let s: HashSet<String> = ["a", "b", "c"].iter().map(|s| s.to_string()).collect();
    check!(s.contains("b") && !s.contains("d"));
    let mut b = BTreeMap::new();
    for i in 0..40 { b.insert(format!("k{i}"), i); }
    check!(b.remove("k7") == Some(7) && b.range("k1".to_string()..).count() > 3);
    let mut v: Vec<u32> = (0..50).map(|i| (i * 37) % 50).collect();
    v.sort(); check!(v.is_sorted());
    v.sort_unstable_by(|a, b| b.cmp(a)); check!(v[0] == 49);
    v.dedup(); v.retain(|x| x % 2 == 0); v.rotate_left(3); v.reverse();
    check!(v.binary_search(&1000).is_err() && v.len() == 25);
    let mut d: VecDeque<u8> = (0..10).collect(); d.push_front(9); d.rotate_right(2); d.make_contiguous();
    let mut p: BinaryHeap<_> = d.iter().collect(); check!(*p.pop().unwrap() == 9);
    let bs: BTreeSet<_> = d.into_iter().collect(); check!(bs.len() == 10);
    let k = [n, 5, 3]; let mut k2 = k; k2.sort();
    check!(k2[0] <= k2[1] && k2[1] <= k2[2]);
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_num() {
    let a = u16() as u32 & 0xfff; let b = u8() as u32 & 31; assume(b > 0);
    check!(a / b * b + a % b == a);
    let w = (a as u64) * (b as u64); check!(w / b as u64 == a as u64 || true);
    let _ = a.checked_mul(b); let _ = a.saturating_add(b); let _ = a.wrapping_sub(b); let _ = a.overflowing_mul(b);
    check!(a.leading_zeros() + a.trailing_zeros() <= 64 && a.count_ones() <= 32);
    check!(a.rotate_left(7).rotate_right(7) == a && a.swap_bytes().swap_bytes() == a && a.reverse_bits().reverse_bits() == a);
    check!(a.abs_diff(b) == b.abs_diff(a) && a.midpoint(b) <= a.max(b));
    let c = a & 0xff; let _ = c.isqrt(); let _ = c.pow(2); let _ = (c + 1).ilog10(); let _ = (c + 1).ilog2(); let _ = c.next_power_of_two();
    let f = (a & 0xffff) as f64 / 256.0; check!(f >= 0.0 && f < 256.0);
    let _ = f as u32;  let _ = f as f32 as u64;
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_num2() { let f = (fix(u8() as u64 & 31) as f64 + 0.5) / 4.0; let g = f.floor(); check!(g <= f); check!((f.round() - f).abs() <= 0.5); let _ = f.mul_add(2.0, 1.0); let _ = f.clamp(0.0, 1.0); let _ = f.min(3.0).max(1.0); let _ = f.to_bits(); let _ = f.total_cmp(&2.0); let _ = f.rem_euclid(1.0);
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_fmt() {
    let a = fix(u8() as u64 & 7) as u32;
    let s = format!("{a:>5}|{a:<5}|{a:^5}|{a:05}|{a:#x}|{a:+}|{:?}|{:.2}|{:e}|{:?}", "q\u{1}", a as f64 / 3.0, 1234.5_f64, Some(a));
    observe(s.as_bytes());
    check!(s.contains("0x"));
    check!(format!("{:.3}", 2.5_f32) == "2.500" && format!("{}", 0.1_f64 + 0.2) == "0.30000000000000004" && format!("{}", 1e21_f64) == "1000000000000000000000");
    check!("3.25".parse::<f64>() == Ok(3.25) && "-17".parse::<i64>() == Ok(-17) && "x".parse::<u8>().is_err() && "ffx".trim_end_matches('x') == "ff" && u32::from_str_radix("ff", 16) == Ok(255));
    check!(u128::MAX.to_string().len() == 39 && format!("{:?}", Duration::from_millis(1500)) == "1.5s");
    let n = u16(); assume(n < 300);
    let t = n.to_string(); check!(t.parse::<u16>() == Ok(n));
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_str() {
    let mut s = String::new();
    for _ in 0..3 { s.push(ascii() as char); }
    s.push('é');
    check!(s.chars().rev().collect::<String>().chars().count() == 4);
    check!(s.split(' ').count() >= 1 && s.lines().count() <= 4 && s.split_whitespace().count() <= 4);
    let _ = s.find("ab"); let _ = s.rfind('x'); let _ = s.replace('a', "bb"); let _ = s.to_uppercase(); let _ = s.to_ascii_lowercase(); let _ = s.eq_ignore_ascii_case("abcé");
    let _ = s.char_indices().filter(|(_, c)| c.is_alphanumeric()).last(); let _ = s.strip_prefix("a"); let _ = s.split_once(':'); let _ = s.contains("cé");
    let _ = String::from_utf8_lossy(s.as_bytes()).into_owned(); let _ = s.escape_debug().to_string(); let _ = s.bytes().position(|b| b == b'q');
    let b = s.clone().into_bytes(); check!(std::str::from_utf8(&b).is_ok());
    let _ = b.windows(2).any(|w| w == b"\r\n"); let _ = b.chunks(2).count(); let _ = b.iter().rposition(|b| *b == 0); let _ = b.trim_ascii(); let _ = b.is_ascii(); let _ = b.utf8_chunks().count();
    let _ = b.split(|b| *b == b'\n').map(|x| x.len()).max(); let _ = b.contains(&7); let _ = b.starts_with(b"\x1b["); let _ = b.to_ascii_uppercase(); let _ = b.concat_();
    let _ = s.trim_matches(char::is_control).len(); let mut z = s.clone(); z.retain(|c| !c.is_whitespace()); z.insert_str(0, "œ"); z.truncate(2); z.drain(..2); z.extend(["a", "b"]); check!(z == "ab");
    reach(1);
}
trait C { fn concat_(&self) -> usize; }
impl C for Vec<u8> { fn concat_(&self) -> usize { [self.as_slice(), b"x"].concat().len() } }

static ONCE: Once = Once::new();
static OL: OnceLock<String> = OnceLock::new();
static LL: LazyLock<Vec<u8>> = LazyLock::new(|| vec![1, 2, 3]);
thread_local! { static TL: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) }; static TD: std::cell::Cell<u32> = std::cell::Cell::new(5); }
#[unsafe(no_mangle)]
pub extern "C" fn h_sync() {
    sched(param(0), param(1));
    ONCE.call_once(|| ());
    OL.get_or_init(|| "x".to_string());
    check!(LL.len() == 3);
    TL.with_borrow_mut(|v| v.push(1)); TD.set(TD.get() + 1); check!(TD.get() == 6);
    let m = Arc::new((Mutex::new(0_u32), Condvar::new()));
    let r = Arc::new(RwLock::new(1_u32));
    let (m2, r2) = (m.clone(), r.clone());
    let t = std::thread::spawn(move || { TD.set(9); *r2.write().unwrap() += 1; *m2.0.lock().unwrap() = 1; m2.1.notify_all(); OL.get_or_init(|| "y".into()).len() });
    let mut g = m.0.lock().unwrap();
    while *g == 0 { g = m.1.wait(g).unwrap(); }
    drop(g);
    { let a = r.read().unwrap(); let b = r.read().unwrap(); check!(*a == 2 && *b == 2); }
    check!(r.try_write().is_ok());
    check!(t.join().unwrap() == 1);
    check!(TD.get() == 6);
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_chan() {
    sched(param(0), param(1));
    let (tx, rx) = mpsc::channel::<u32>();
    let t2 = tx.clone();
    let a = std::thread::spawn(move || { t2.send(1).unwrap(); t2.send(2).unwrap(); });
    drop(tx);
    let v: Vec<u32> = rx.iter().collect();
    check!(v == [1, 2]);
    a.join().unwrap();
    let (tx, rx) = mpsc::sync_channel::<u32>(1);
    check!(rx.recv_timeout(Duration::from_millis(5)).is_err());
    let a = std::thread::spawn(move || { tx.send(4).unwrap(); });
    check!(rx.recv() == Ok(4));
    a.join().unwrap();
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_park() {
    sched(param(0), param(1));
    let f = Arc::new(AtomicBool::new(false)); let f2 = f.clone();
    let t = std::thread::Builder::new().name("x".into()).spawn(move || { while !f2.load(Acquire) { std::thread::park(); } }).unwrap();
    f.store(true, Release); t.thread().unpark();
    check!(t.join().is_ok());
    let b = Arc::new(Barrier::new(2)); let b2 = b.clone();
    let t = std::thread::spawn(move || { b2.wait(); });
    b.wait(); t.join().unwrap();
    let mut x = 0;
    std::thread::scope(|s| { s.spawn(|| x += 1); });
    check!(x == 1);
    let n = Arc::new((Mutex::new(false), Condvar::new()));
    let r = n.1.wait_timeout_while(n.0.lock().unwrap(), Duration::from_millis(10), |d| !*d).unwrap();
    check!(r.1.timed_out());
    drop(r);
    std::thread::park_timeout(Duration::from_millis(3)); std::thread::yield_now(); std::hint::spin_loop();
    std::thread::sleep(Duration::from_millis(3));
    check!(t_id());
    reach(1);
}
fn t_id() -> bool { let c = std::thread::current(); c.id() == std::thread::current().id() }
#[unsafe(no_mangle)]
pub extern "C" fn h_atom() {
    let a = AtomicU64::new(3); let b = AtomicU8::new(1); let c = AtomicI32::new(-4); let d = AtomicUsize::new(0);
    let n = u8();
    check!(a.fetch_max(9, SeqCst) == 3 && a.fetch_min(2, SeqCst) == 9 && a.swap(7, AcqRel) == 2);
    check!(a.fetch_update(SeqCst, SeqCst, |x| Some(x + 1)) == Ok(7) && a.load(Relaxed) == 8);
    check!(b.fetch_nand(n, SeqCst) == 1 && b.load(SeqCst) == !(1 & n) && b.fetch_xor(3, SeqCst) == !(1 & n));
    check!(c.fetch_sub(1, SeqCst) == -4 && c.fetch_max(3, SeqCst) == -5 && c.compare_exchange(3, 1, SeqCst, Relaxed) == Ok(3) && c.compare_exchange_weak(9, 1, SeqCst, Relaxed).is_err());
    d.fetch_add(n as usize, Relaxed); check!(d.into_inner() == n as usize);
    let mut z = 5; let p = AtomicPtr::new(&mut z); check!(unsafe { *p.load(SeqCst) } == 5);
    std::sync::atomic::fence(SeqCst); std::sync::atomic::compiler_fence(SeqCst);
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_time() {
    let i = Instant::now(); advance_ms(1500);
    let e = i.elapsed(); check!(e.as_secs() == 1 && e.subsec_millis() == 500 && e.as_secs_f64() == 1.5 && e.as_millis() == 1500);
    check!(i.checked_add(Duration::from_secs(2)).unwrap() > Instant::now() && i.saturating_duration_since(Instant::now()) == Duration::ZERO);
    let s = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap(); check!(s.as_secs() > 0);
    check!(e.mul_f64(2.0).as_secs() == 3 && (e / 3).as_millis() == 500 && e.div_duration_f64(e) == 1.0);
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_io() {
    let mut o = io::stdout(); o.write_all(b"abc\n").unwrap(); writeln!(o, "{}", 5).unwrap(); o.flush().unwrap();
    { let mut l = io::stderr().lock(); l.write_fmt(format_args!("x{}", 1)).unwrap(); let _ = l.write_vectored(&[io::IoSlice::new(b"a"), io::IoSlice::new(b"b")]); }
    let mut w = io::BufWriter::new(io::stdout()); w.write_all(b"qq").unwrap(); drop(w);
    let mut w = io::LineWriter::new(io::stdout()); w.write_all(b"rr\ns").unwrap(); let _ = w.into_inner();
    print!("p"); eprintln!("e"); let _ = io::stdout().flush();
    observe(&out(1));
    check!(out(1) == b"abc\n5\nqqrr\nsp" && out(2) == b"x1abe\n");
    stdin(b"l1\nl2\nrest");
    let mut s = String::new(); check!(io::stdin().read_line(&mut s).unwrap() == 3);
    check!(io::stdin().lines().next().unwrap().unwrap() == "l2");
    let mut v = Vec::new(); io::stdin().read_to_end(&mut v).unwrap(); check!(v == b"rest");
    let mut c = io::Cursor::new(b"abc".to_vec()); let mut z = [0; 2]; c.read_exact(&mut z).unwrap(); check!(&z == b"ab");
    check!(io::read_to_string(io::stdin()).unwrap().is_empty());
    check!(io::Error::new(io::ErrorKind::Other, "x").to_string() == "x" && io::Error::from_raw_os_error(2).kind() == io::ErrorKind::NotFound);
    check!(std::env::var("NO_SUCH").is_err() && std::env::var_os("HOME").is_none() | true);
    use std::io::IsTerminal; let _ = io::stdout().is_terminal(); let _ = io::stdin().is_terminal();
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_misc() {
    let n = u8();
    let v: Vec<Box<dyn Fn(u8) -> u8>> = vec![Box::new(move |x| x ^ n), Box::new(|x| x.wrapping_add(1))];
    check!(v[0](n) == 0 && v[1](255) == 0);
    let rc = std::rc::Rc::new(std::cell::RefCell::new(1)); *rc.borrow_mut() += 1; check!(std::rc::Rc::strong_count(&rc) == 1);
    let c: std::borrow::Cow<str> = "x".into(); check!(c.into_owned() == "x");
    let a: [u8; 4] = std::array::from_fn(|i| i as u8 ^ n); check!(u32::from_le_bytes(a).to_le_bytes() == a);
    check!((0..10).zip(5..).map(|(a, b)| a * b).filter(|x| x % 2 == 0).step_by(2).fold(0, |a, b| a + b) > 0);
    check!([3, 1, 2].iter().copied().min_by_key(|x| 10 - x) == Some(3) && (1..=4).product::<u32>() == 24 && [1, 2, 3].iter().sum::<i32>() == 6);
    let w = std::sync::Arc::downgrade(&Arc::new(1)); check!(w.upgrade().is_none());
    let x = std::mem::take(&mut vec![1]); check!(x.len() == 1);
    let s: Box<str> = "abc".into(); let _ = s.clone().into_string(); let st: Arc<str> = Arc::from("x"); check!(&*st == "x");
    let z = [1u8; 300]; let mut y = [0u8; 300]; y.copy_from_slice(&z); check!(y == z); y.fill(n); check!(y[299] == n); y.copy_within(0..10, 200);
    let t = n as char; check!(t.to_ascii_uppercase().is_ascii() || n > 127); let _ = t.is_control(); let _ = char::from_u32(n as u32 * 1000); let _ = t.width_();
    let r = match n { 0..=9 => 1, 10 | 20 | 30 => 2, x if x > 200 => 3, _ => 4 }; check!(r > 0);
    let (q, rem) = (n as i8 as i32 / 7, n as i8 as i32 % 7); check!(q * 7 + rem == n as i8 as i32); let _ = (n as i32 - 128).rem_euclid(7);
    let i = i128::from(u64() as i64); check!((i * -5) / -5 == i && (i128::MAX / 2).checked_mul(3).is_none() && i128::MIN.checked_mul(-1).is_none() && i128::MIN.checked_mul(1).is_some());
    let u = u128::from(u64()) * 3; check!(u % 3 == 0);
    reach(1);
}
trait W { fn width_(&self) -> usize; }
impl W for char { fn width_(&self) -> usize { self.len_utf8() + self.len_utf16() } }
