//! Symbolic execution of LLVM IR with an SMT solver (z3) deciding every branch and assertion.
mod env;
mod exec;
mod expr;
mod ir;
mod lower;
mod solver;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn kill(pid: i32, s: i32) -> i32;
    fn prctl(o: i32, ...) -> i32;
}

struct Shared {
    slots: AtomicI64,
    viol: AtomicI64,
    stop: AtomicI64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Merge-friendly line format: one record per line.
fn dump(e: &Eng, path: &str) {
    let mut o = String::new();
    let r = &e.rep;
    let s = &e.sol.stats;
    o.push_str(&format!(
        "N {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n",
        r.paths, r.killed, r.steps, r.forks, r.asserts, r.truncated, r.sched_points, r.switches, r.max_steps, s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.time_s, s.max_s, r.small
    ));
    for (m, i, c) in &r.violations {
        let i: Vec<String> = i.iter().map(|x| format!("{}:{}", x.0, x.1)).collect();
        let c: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        o.push_str(&format!("V {}\t{}\t{}\n", m.replace(['\n', '\t'], " "), i.join(","), c.join(",")));
    }
    for m in &r.errors {
        o.push_str(&format!("E {}\n", m.replace('\n', " ")));
    }
    for (k, n) in &r.reached {
        o.push_str(&format!("W {k} {n}\n"));
    }
    for m in &r.samples {
        o.push_str(&format!("S {m}\n"));
    }
    for (i, c) in e.covered.iter().enumerate() {
        if *c {
            o.push_str(&format!("F {i}\n"));
        }
    }
    std::fs::write(path, o).unwrap();
}

struct Par {
    sh: *const Shared,
    dir: String,
    top: i32,
    last: std::time::Instant,
}
impl Par {
    fn drain(&mut self, e: &mut Eng) {
        let sh = unsafe { &*self.sh };
        let mut known = 0;
        let mut n = 0u64;
        loop {
            if e.work.is_empty() {
                break;
            }
            let v = e.rep.violations.len();
            if v > known {
                sh.viol.fetch_add((v - known) as i64, Ordering::SeqCst);
                known = v;
            }
            if sh.stop.load(Ordering::SeqCst) != 0 {
                e.work.clear();
                break;
            }
            if sh.viol.load(Ordering::SeqCst) >= e.max_viol as i64 || e.rep.errors.len() >= 8 {
                sh.stop.store(1, Ordering::SeqCst);
                e.work.clear();
                break;
            }
            if let Some(d) = e.deadline {
                if std::time::Instant::now() > d {
                    e.rep.errors.push(format!("time limit reached with {} states pending", e.work.len()));
                    sh.stop.store(1, Ordering::SeqCst);
                    e.work.clear();
                    break;
                }
            }
            if e.work.len() >= 2 && self.last.elapsed().as_millis() > 60 && sh.slots.load(Ordering::SeqCst) > 0 {
                if sh.slots.fetch_sub(1, Ordering::SeqCst) > 0 {
                    // hand every other pending state to a new process
                    let w = std::mem::take(&mut e.work);
                    let (mut a, mut b) = (vec![], vec![]);
                    for (i, s) in w.into_iter().enumerate() {
                        if i % 2 == 0 { a.push(s) } else { b.push(s) }
                    }
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        e.work = a;
                        e.rep = Report::default();
                        e.covered.iter_mut().for_each(|c| *c = false);
                        e.sol.renew(true);
                        self.last = std::time::Instant::now();
                        self.drain(e);
                        self.finish(e);
                        unsafe { _exit(0) };
                    }
                    e.work = b;
                    if pid <= 0 {
                        e.work.extend(a);
                        sh.slots.fetch_add(1, Ordering::SeqCst);
                    }
                    self.last = std::time::Instant::now();
                } else {
                    sh.slots.fetch_add(1, Ordering::SeqCst);
                }
            }
            let s = e.work.pop().unwrap();
            e.run(s);
            n += 1;
            if n % 16 == 0 {
                e.sol.renew(false);
            }
            if n % 64 == 0 && unsafe { kill(self.top, 0) } != 0 {
                unsafe { _exit(9) };
            }
        }
    }
    fn finish(&mut self, e: &mut Eng) {
        unsafe {
            (*self.sh).slots.fetch_add(1, Ordering::SeqCst);
            if getpid() == self.top {
                // workers of workers are reparented here (subreaper)
                loop {
                    let mut s = 0;
                    if waitpid(-1, &mut s, 0) <= 0 {
                        break;
                    }
                    if s != 0 {
                        e.rep.errors.push(format!("worker process failed with status {s:#x}"));
                    }
                }
            }
            dump(e, &format!("{}/{}.rep", self.dir, getpid()));
        }
    }
}

fn main() {
    let mut files = vec![];
    let mut entries = vec![];
    let (mut tmo, mut steps, mut jobs, mut viol, mut limit) = (60_000u32, 50_000_000u64, 8i64, 4usize, 0u64);
    let mut verbose = false;
    let mut params: Vec<u64> = vec![];
    let mut out = None;
    let mut dir = None;
    let mut list = false;
    let mut tables = false;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut nx = || a.next().expect("argument");
        match x.as_str() {
            "-e" => entries.push(nx()),
            "-t" => tmo = nx().parse().unwrap(),
            "-s" => steps = nx().parse().unwrap(),
            "-j" => jobs = nx().parse().unwrap(),
            "-n" => viol = nx().parse().unwrap(),
            "-l" => limit = nx().parse().unwrap(),
            "-o" => out = Some(nx()),
            "-d" => dir = Some(nx()),
            "-p" => params = nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "-v" => verbose = true,
            "-T" => tables = true,
            "--list" => list = true,
            _ => files.push(x),
        }
    }
    let src = std::fs::read(&files[0]).expect("read IR");
    let m = ir::parse(&src);
    drop(src);
    let mut e = Eng::new(m, tmo);
    if list {
        for f in &e.m.funcs {
            println!("{}", f.name);
        }
        return;
    }
    e.max_path_steps = steps;
    e.max_viol = viol;
    e.verbose = verbose;
    e.tables = tables;
    e.params = params;
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const Shared;
    unsafe { prctl(36, 1) };
    let dir = dir.expect("-d scratch directory");
    let mut json = String::from("[");
    for (n, ent) in entries.iter().enumerate() {
        let t0 = std::time::Instant::now();
        let d = format!("{dir}/{ent}");
        std::fs::create_dir_all(&d).unwrap();
        for f in std::fs::read_dir(&d).unwrap().flatten() {
            if f.path().extension().is_some_and(|x| x == "rep") {
                let _ = std::fs::remove_file(f.path());
            }
        }
        unsafe {
            (*sh).slots.store(jobs - 1, Ordering::SeqCst);
            (*sh).viol.store(0, Ordering::SeqCst);
            (*sh).stop.store(0, Ordering::SeqCst);
        }
        if limit > 0 {
            e.deadline = Some(t0 + std::time::Duration::from_secs(limit));
        }
        e.rep = Report::default();
        e.covered.iter_mut().for_each(|c| *c = false);
        e.fork_prof.clear();
        let q0 = e.sol.stats.clone();
        let _ = q0;
        e.sol.stats = Default::default();
        let st = e.initial(ent);
        e.work.push(st);
        let mut p = Par { sh, dir: d.clone(), top: unsafe { getpid() }, last: std::time::Instant::now() };
        p.drain(&mut e);
        p.finish(&mut e);
        if verbose {
            let mut v: Vec<_> = e.fork_prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, b), c) in v.iter().take(15) {
                eprintln!("forks {c:8} {} bb{b}", short(&e.m.funcs[*f as usize].name));
            }
        }
        // merge
        let mut tot = [0f64; 17];
        let (mut vs, mut es, mut ws, mut ss) = (vec![], vec![], std::collections::BTreeMap::<u32, u64>::new(), vec![]);
        let mut fs = std::collections::BTreeSet::new();
        let mut procs = 0;
        for f in std::fs::read_dir(&d).unwrap().flatten() {
            if f.path().extension().is_none_or(|x| x != "rep") {
                continue;
            }
            procs += 1;
            let s = std::fs::read_to_string(f.path()).unwrap();
            for l in s.lines() {
                let (k, r) = l.split_at(2);
                match k {
                    "N " => {
                        for (i, x) in r.split(' ').enumerate() {
                            let x: f64 = x.parse().unwrap();
                            if i == 8 || i == 15 { tot[i] = tot[i].max(x) } else { tot[i] += x }
                        }
                    }
                    "V " => vs.push(r.to_string()),
                    "E " => es.push(r.to_string()),
                    "S " => ss.push(r.to_string()),
                    "W " => {
                        let (a, b) = r.split_once(' ').unwrap();
                        *ws.entry(a.parse().unwrap()).or_default() += b.parse::<u64>().unwrap();
                    }
                    "F " => {
                        fs.insert(r.parse::<usize>().unwrap());
                    }
                    _ => {}
                }
            }
            let _ = std::fs::remove_file(f.path());
        }
        vs.sort();
        let wall = t0.elapsed().as_secs_f64();
        let names = ["paths", "killed", "steps", "forks", "asserts", "truncated", "sched_points", "switches", "max_steps", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s", "solver_max_s", "small_domain"];
        if n > 0 {
            json.push(',');
        }
        json.push_str(&format!("\n{{\"entry\":{},\"wall_s\":{wall:.2},\"processes\":{procs}", esc(ent)));
        for (i, k) in names.iter().enumerate() {
            json.push_str(&format!(",\"{k}\":{}", if i == 14 || i == 15 { format!("{:.3}", tot[i]) } else { format!("{}", tot[i] as u64) }));
        }
        json.push_str(",\"violations\":[");
        for (i, v) in vs.iter().enumerate() {
            let p: Vec<&str> = v.split('\t').collect();
            let ins: Vec<String> = p[1].split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); format!("[{},{b}]", esc(a)) }).collect();
            json.push_str(&format!("{}{{\"msg\":{},\"inputs\":[{}],\"sched\":[{}]}}", if i > 0 { "," } else { "" }, esc(p[0]), ins.join(","), p[2]));
        }
        json.push_str("],\"errors\":[");
        json.push_str(&es.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        json.push_str("],\"samples\":[");
        json.push_str(&ss.iter().take(60).map(|x| esc(x)).collect::<Vec<_>>().join(","));
        json.push_str("],\"reached\":{");
        json.push_str(&ws.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect::<Vec<_>>().join(","));
        json.push_str("},\"functions\":[");
        json.push_str(&fs.iter().map(|&i| esc(&short(&e.m.funcs[i].name))).collect::<Vec<_>>().join(","));
        json.push_str("]}");
        eprintln!(
            "{ent}: {} paths, {} killed, {} asserts, {} queries ({:.1}s solver), {} procs, {wall:.1}s wall, {} violations, {} errors",
            tot[0], tot[1], tot[4], tot[9], tot[14], procs, vs.len(), es.len()
        );
        for v in vs.iter().take(4) {
            eprintln!("  V {v}");
        }
        for v in es.iter().take(4) {
            eprintln!("  E {v}");
        }
    }
    json.push_str("\n]\n");
    match out {
        Some(p) => std::fs::write(p, json).unwrap(),
        None => {
            std::io::stdout().write_all(json.as_bytes()).unwrap();
        }
    }
}
