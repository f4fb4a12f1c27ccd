//! Environment model: LLVM intrinsics, libc, threads, and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

const KNOWN: &[&str] = &[
    "malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "bcmp", "memcmp", "strlen", "memcpy", "memmove", "memset",
    "write", "writev", "read", "open", "open64", "close", "isatty", "ioctl", "clock_gettime", "nanosleep", "clock_nanosleep", "syscall", "__errno_location",
    "getenv", "abort", "exit", "_exit", "gettid", "__cxa_thread_atexit_impl", "sched_yield",
    "pthread_create", "pthread_join", "pthread_detach", "pthread_self", "pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setstacksize",
    "pthread_setname_np", "pthread_key_create", "pthread_key_delete", "pthread_setspecific", "pthread_getspecific",
    "pthread_getattr_np", "pthread_attr_getstack", "pthread_attr_getguardsize",
    "sigaction", "sigemptyset", "signal", "sigaltstack", "poll", "sysconf", "getauxval", "mmap", "mmap64", "munmap", "mprotect", "getpid", "raise", "kill", "sigaddset", "pthread_sigmask",
    "getrandom", "dlsym", "pthread_mutex_lock", "gnu_get_libc_version",
];

/// Is this external modelled (else a weak reference to it is null)?
pub fn known(name: &str) -> bool {
    KNOWN.contains(&name) || name.starts_with("se_")
}

const ETIMEDOUT: u64 = 110;
const EAGAIN: u64 = 11;

impl Eng {
    fn fin(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Val) -> R<()> {
        if let Some(d) = dst {
            self.set(st, d, v);
        }
        if let Some(n) = normal {
            self.jump(st, n);
        }
        Ok(())
    }
    fn errno(&mut self, st: &mut State, code: u64) -> R<()> {
        let t = st.cur;
        if st.threads[t].errno == 0 {
            st.threads[t].errno = self.alloc(st, 4, 16);
        }
        let a = st.threads[t].errno;
        self.wr(st, a, 4, &Val::C(code as u128))
    }
    fn k(&mut self, st: &mut State, av: &[Val], args: &[(TyId, Opd)], i: usize) -> R<u64> {
        let w = self.m.types.bits(args[i].0);
        Ok(self.conc(st, &av[i], w)? as u64)
    }
    fn cond(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(k) => Ok(k & 1 != 0),
            Val::S(e) => self.branch(st, *e, 1),
            _ => panic!("cond"),
        }
    }
    fn cstr(&mut self, st: &State, mut a: u64) -> R<Vec<u8>> {
        let mut o = vec![];
        loop {
            match self.rdbytes(st, a, 1)?[0] {
                B::C(0) => return Ok(o),
                B::C(c) => o.push(c),
                B::S(_) => return Err(self.err(st, "symbolic C string".into())),
            }
            a += 1;
        }
    }
    fn input(&mut self, st: &mut State, w: u32) -> Val {
        let n = st.env.nvars;
        st.env.nvars += 1;
        let e = self.ar.var(&format!("in{n}_{w}"), w);
        Rc::make_mut(&mut st.inputs).push((e, w));
        Val::S(e)
    }
    fn bytes_eq(&mut self, a: &[B], b: &[B]) -> Val {
        let mut acc = Val::C(1);
        for (x, y) in a.iter().zip(b) {
            let (p, q) = (self.bv(x), self.bv(y));
            let e = self.icmp(Pred::Eq, 8, &p, &q);
            acc = self.bin(BinOp::And, 1, &acc, &e);
            if matches!(acc, Val::C(0)) {
                break;
            }
        }
        acc
    }
    fn bv(&self, b: &B) -> Val {
        match b {
            B::C(c) => Val::C(*c as u128),
            B::S(e) => Val::S(*e),
        }
    }

    // ---------------------------------------------------------------- scheduling
    fn runnable(&self, st: &State, but: usize) -> Vec<usize> {
        (0..st.threads.len()).filter(|&i| i != but && st.threads[i].status == Status::Run).collect()
    }
    fn timed(&self, st: &State, but: usize) -> Vec<usize> {
        (0..st.threads.len()).filter(|&i| i != but && matches!(st.threads[i].status, Status::Wait(_, Some(_)))).collect()
    }
    fn switch(&mut self, st: &mut State, to: usize) {
        self.rep.switches += 1;
        if let Status::Wait(_, Some(d)) = st.threads[to].status {
            // the timeout fires, as any does a little late
            st.env.clock = st.env.clock.max(d) + 1;
            st.threads[to].status = Status::Run;
            let dst = st.threads[to].wdst.take();
            let keep = st.cur;
            st.cur = to;
            let _ = self.errno(st, ETIMEDOUT);
            if let Some(r) = dst {
                self.set(st, r, Val::C(mask(64)));
            }
            st.cur = keep;
        }
        st.cur = to;
    }
    fn sched_var(&mut self, st: &mut State) -> E {
        let n = st.env.nsched;
        st.env.nsched += 1;
        let v = self.ar.var(&format!("sch{n}"), 8);
        Rc::make_mut(&mut st.sched).push(v);
        v
    }
    fn sched_pick(&mut self, st: &mut State, v: E, k: usize) {
        let vid = self.ar.n[v as usize].k as u32;
        let kc = self.ar.c(8, k as u128);
        let c = self.ar.eq(v, kc);
        self.add(st, c, Some(vec![(vid, k as u128)]));
    }
    /// May the signal be delivered to the current thread here?
    fn sig_ok(&self, st: &State) -> bool {
        st.env.sig_budget > 0 && st.env.sigs.get(&st.env.sig_no).is_some_and(|h| h.0 >= FBASE) && st.threads[st.cur].frames.iter().all(|f| f.mark != 2)
    }
    /// Run the handler of a signal on the current thread.
    fn deliver(&mut self, st: &mut State, sig: u32) -> R<()> {
        let h = st.env.sigs.get(&sig).copied().unwrap_or((0, 0));
        if h.0 < FBASE || h.0 >= XBASE {
            return Err(self.err(st, format!("signal {sig} has no handler")));
        }
        let info = self.alloc(st, 128, 16);
        self.wrbytes(st, info, &vec![B::C(0); 128])?;
        self.wr(st, info, 4, &Val::C(sig as u128))?;
        let mut fr = self.frame(((h.0 - FBASE) / 16) as u32, vec![Val::C(sig as u128), Val::C(info as u128), Val::C(0)], None, None);
        fr.mark = 2;
        let t = st.cur;
        st.threads[t].frames.push(fr);
        Ok(())
    }
    /// Called before every visible operation (atomics, futex, output).
    pub fn sched_point(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        if st.threads[t].decided || st.threads.len() == 1 && st.env.sig_budget == 0 {
            return Ok(());
        }
        let sig = self.sig_ok(st);
        if !st.env.sched_on && !sig {
            return Ok(());
        }
        self.rep.sched_points += 1;
        st.threads[t].decided = true;
        let mut opts: Vec<usize> = vec![];
        if st.env.sched_on && st.env.preempt > 0 {
            opts = self.runnable(st, t);
            if st.env.ticks > 0 {
                opts.extend(self.timed(st, t));
            }
        }
        if opts.is_empty() && !sig {
            return Ok(());
        }
        let v = self.sched_var(st);
        for (i, &o) in opts.iter().enumerate() {
            let mut s2 = st.clone();
            s2.threads[t].frames.last_mut().unwrap().ip -= 1;
            s2.env.preempt -= 1;
            if s2.threads[o].status != Status::Run {
                s2.env.ticks -= 1;
            }
            self.sched_pick(&mut s2, v, i + 1);
            self.switch(&mut s2, o);
            self.rep.forks += 1;
            self.work.push(s2);
        }
        if sig {
            let mut s2 = st.clone();
            s2.threads[t].frames.last_mut().unwrap().ip -= 1;
            s2.threads[t].decided = false;
            s2.env.sig_budget -= 1;
            self.sched_pick(&mut s2, v, opts.len() + 1);
            let n = s2.env.sig_no;
            self.deliver(&mut s2, n)?;
            self.rep.forks += 1;
            self.work.push(s2);
        }
        self.sched_pick(st, v, 0);
        Ok(())
    }
    /// The current thread cannot continue: choose another one.
    fn block(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        st.threads[t].decided = false;
        let mut opts = self.runnable(st, t);
        if opts.is_empty() {
            // forced timeout: the earliest deadline fires
            let mut tm = self.timed(st, usize::MAX);
            tm.sort_by_key(|&i| match st.threads[i].status {
                Status::Wait(_, Some(d)) => d,
                _ => u64::MAX,
            });
            let Some(&o) = tm.first() else {
                return Err(self.violation(st, "deadlock: every thread is blocked".into()));
            };
            st.env.forced += 1;
            if st.env.forced > 40 {
                return Err(self.violation(st, "no progress: only timeouts keep firing".into()));
            }
            self.switch(st, o);
            return Ok(());
        }
        if st.env.ticks > 0 && st.env.sched_on {
            opts.extend(self.timed(st, usize::MAX));
        }
        if opts.len() > 1 && st.env.sched_on {
            let v = self.sched_var(st);
            for (i, &o) in opts.iter().enumerate().skip(1) {
                let mut s2 = st.clone();
                if s2.threads[o].status != Status::Run {
                    s2.env.ticks -= 1;
                }
                self.sched_pick(&mut s2, v, i);
                self.switch(&mut s2, o);
                self.rep.forks += 1;
                self.work.push(s2);
            }
            self.sched_pick(st, v, 0);
        }
        self.switch(st, opts[0]);
        Ok(())
    }
    fn spin(&mut self, st: &mut State) {
        // a spinning thread yields to the next runnable one, round robin
        let n = st.threads.len();
        for d in 1..n {
            let o = (st.cur + d) % n;
            if st.threads[o].status == Status::Run {
                st.cur = o;
                return;
            }
        }
    }
    fn wake(&mut self, st: &mut State, addr: u64, n: u64) -> u64 {
        let mut c = 0;
        for i in 0..st.threads.len() {
            if c >= n {
                break;
            }
            if let Status::Wait(a, _) = st.threads[i].status {
                if a == addr && a != 0 {
                    st.threads[i].status = Status::Run;
                    st.threads[i].wdst = None;
                    c += 1;
                }
            }
        }
        c
    }
    pub fn thread_exit(&mut self, st: &mut State, _r: Option<Val>) -> R<()> {
        let t = st.cur;
        if t == 0 {
            return Err(Stop::Done);
        }
        if let Some((f, o)) = st.threads[t].dtors.pop() {
            let i = ((f - FBASE) / 16) as u32;
            let mut fr = self.frame(i, vec![Val::C(o as u128)], None, None);
            fr.mark = 3;
            st.threads[t].frames.push(fr);
            return Ok(());
        }
        let keys: Vec<(u32, u64)> = st.threads[t].keys.iter().map(|(k, v)| (*k, *v)).collect();
        for (k, v) in keys {
            st.threads[t].keys.remove(&k);
            let d = st.env.keys.get(&k).copied().unwrap_or(0);
            if v != 0 && d >= FBASE {
                let i = ((d - FBASE) / 16) as u32;
                let mut fr = self.frame(i, vec![Val::C(v as u128)], None, None);
                fr.mark = 3;
                st.threads[t].frames.push(fr);
                return Ok(());
            }
        }
        st.threads[t].status = Status::Done;
        for i in 0..st.threads.len() {
            if st.threads[i].status == Status::Join(t) {
                st.threads[i].status = Status::Run;
            }
        }
        self.block(st)
    }

    // ---------------------------------------------------------------- externals
    pub fn asm_call(&mut self, st: &mut State, s: &str, av: Vec<Val>, _ret: TyId, dst: Option<u32>) -> R<()> {
        if s.is_empty() || s.starts_with('|') {
            if let (Some(d), Some(v)) = (dst, av.first()) {
                self.set(st, d, v.clone());
            }
            return Ok(());
        }
        Err(self.err(st, format!("inline assembly: {s}")))
    }

    #[allow(clippy::too_many_arguments)]
    pub fn ext_call(&mut self, st: &mut State, idx: u32, av: Vec<Val>, args: &[(TyId, Opd)], ret: TyId, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        let name: &'static str = self.exts[idx as usize];
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, av, args, ret, dst, normal);
        }
        if name.starts_with("se_") {
            return self.harness(st, name, av, args, dst, normal);
        }
        let t = st.cur;
        let out = match name {
            "malloc" => {
                let n = self.k(st, &av, args, 0)?;
                Val::C(self.alloc(st, n, 16) as u128)
            }
            "calloc" => {
                let n = self.k(st, &av, args, 0)? * self.k(st, &av, args, 1)?;
                Val::C(self.alloc(st, n, 16) as u128)
            }
            "aligned_alloc" => {
                let (al, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                Val::C(self.alloc(st, n, al) as u128)
            }
            "posix_memalign" => {
                let (p, al, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                let a = self.alloc(st, n, al);
                self.wr(st, p, 8, &Val::C(a as u128))?;
                Val::C(0)
            }
            "realloc" => {
                let (p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                let a = self.alloc(st, n, 16);
                if p != 0 {
                    let old = match st.mem.get(&p) {
                        Some(o) if o.kind == 2 => o.data.len() as u64,
                        _ => return Err(self.violation(st, format!("realloc of bad pointer {p:#x}"))),
                    };
                    let b = self.rdbytes(st, p, old.min(n))?;
                    self.wrbytes(st, a, &b)?;
                    st.mem.remove(&p);
                    st.env.allocs -= 1;
                }
                Val::C(a as u128)
            }
            "free" => {
                let p = self.k(st, &av, args, 0)?;
                if p != 0 {
                    match st.mem.get(&p) {
                        Some(o) if o.kind == 2 => {
                            st.mem.remove(&p);
                            st.env.allocs -= 1;
                        }
                        _ => return Err(self.violation(st, format!("free of bad pointer {p:#x}"))),
                    }
                }
                Val::C(0)
            }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                let (x, y) = (self.rdbytes(st, a, n)?, self.rdbytes(st, b, n)?);
                if name == "bcmp" {
                    let e = self.bytes_eq(&x, &y);
                    let e = self.bin(BinOp::Xor, 1, &e, &Val::C(1));
                    self.cast1(CastOp::ZExt, 1, 32, &e, false, false)
                } else {
                    let mut r = Val::C(0);
                    for (p, q) in x.iter().zip(&y).rev() {
                        let (p, q) = (self.bv(p), self.bv(q));
                        let e = self.icmp(Pred::Eq, 8, &p, &q);
                        let l = self.icmp(Pred::Ult, 8, &p, &q);
                        let d = self.select(32, &l, &Val::C(mask(32)), &Val::C(1));
                        r = self.select(32, &e, &r, &d);
                    }
                    r
                }
            }
            "memcpy" | "memmove" => {
                let (a, b, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                let x = self.rdbytes(st, b, n)?;
                self.wrbytes(st, a, &x)?;
                Val::C(a as u128)
            }
            "memset" => {
                let (a, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 2)?);
                let v = self.cast1(CastOp::Trunc, 32, 8, &av[1], false, false);
                let b = match v {
                    Val::C(k) => B::C(k as u8),
                    Val::S(e) => B::S(e),
                    _ => panic!(),
                };
                self.wrbytes(st, a, &vec![b; n as usize])?;
                Val::C(a as u128)
            }
            "strlen" => {
                let a = self.k(st, &av, args, 0)?;
                let mut n = 0u64;
                loop {
                    match self.rdbytes(st, a + n, 1)?[0] {
                        B::C(0) => break,
                        B::C(_) => {}
                        B::S(e) => {
                            let z = self.ar.c(8, 0);
                            let c = self.ar.eq(e, z);
                            if self.branch(st, c, 1)? {
                                break;
                            }
                        }
                    }
                    n += 1;
                }
                Val::C(n as u128)
            }
            "__errno_location" => {
                if st.threads[t].errno == 0 {
                    st.threads[t].errno = self.alloc(st, 4, 16);
                }
                Val::C(st.threads[t].errno as u128)
            }
            "write" => {
                let (fd, p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                self.sched_point(st)?;
                if st.cur != t {
                    return Ok(());
                }
                self.do_write(st, fd, &[(p, n)])?
            }
            "writev" => {
                let (fd, p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                let mut v = vec![];
                for i in 0..n {
                    let (b, l) = (self.rd(st, p + i * 16, 8)?, self.rd(st, p + i * 16 + 8, 8)?);
                    let (b, l) = (self.conc(st, &b, 64)? as u64, self.conc(st, &l, 64)? as u64);
                    v.push((b, l));
                }
                self.sched_point(st)?;
                if st.cur != t {
                    return Ok(());
                }
                self.do_write(st, fd, &v)?
            }
            "read" => {
                let (fd, p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                if fd != 0 {
                    return Err(self.err(st, format!("read from descriptor {fd}")));
                }
                let left = st.env.stdin.len() - st.env.stdin_pos;
                // chunk boundaries: a read returns at most one pushed chunk
                let lim = st.env.chunks.iter().find(|&&c| c > st.env.stdin_pos).map_or(left, |c| c - st.env.stdin_pos);
                let m = (n as usize).min(left).min(lim);
                if left == 0 && st.env.stdin_err > 0 {
                    st.env.stdin_err -= 1;
                    self.errno(st, 5)?;
                    Val::C(mask(64))
                } else {
                    let b = st.env.stdin[st.env.stdin_pos..st.env.stdin_pos + m].to_vec();
                    st.env.stdin_pos += m;
                    if m == 0 {
                        st.env.eofs += 1;
                        if st.env.eofs > 12 {
                            return Err(self.violation(st, "no progress: reading past the end of input forever".into()));
                        }
                    }
                    self.wrbytes(st, p, &b)?;
                    Val::C(m as u128)
                }
            }
            "open" | "open64" => {
                self.errno(st, 2)?;
                Val::C(mask(32))
            }
            "close" | "pthread_detach" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "sigemptyset" | "sigaddset" | "pthread_sigmask" | "poll" | "signal" | "munmap" | "mprotect" | "sigaltstack" | "getauxval"
            | "pthread_key_delete" => Val::C(0),
            "pthread_getattr_np" | "pthread_attr_getstack" | "pthread_attr_getguardsize" => Val::C(22),
            "getpid" => Val::C(4242),
            "sysconf" => Val::C(4096),
            "mmap" | "mmap64" => {
                let n = self.k(st, &av, args, 1)?;
                if n > 1 << 20 {
                    return Err(self.err(st, "large mmap".into()));
                }
                Val::C(self.alloc(st, n, 4096) as u128)
            }
            "isatty" => {
                let fd = self.k(st, &av, args, 0)?;
                Val::C((st.env.winsize.is_some() && fd > 0) as u128)
            }
            "ioctl" => {
                let (fd, rq, p) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                let _ = fd;
                if rq & 0xffff == 0x5413 {
                    match st.env.winsize.clone() {
                        Some((w, h)) => {
                            self.wr(st, p, 2, &h)?;
                            self.wr(st, p + 2, 2, &w)?;
                            self.wr(st, p + 4, 4, &Val::C(0))?;
                            Val::C(0)
                        }
                        None => {
                            self.errno(st, 25)?;
                            Val::C(mask(32))
                        }
                    }
                } else if rq & 0xffff == 0x5401 {
                    if st.env.winsize.is_some() {
                        Val::C(0)
                    } else {
                        self.errno(st, 25)?;
                        Val::C(mask(32))
                    }
                } else {
                    return Err(self.err(st, format!("ioctl {rq:#x}")));
                }
            }
            "clock_gettime" => {
                let (id, p) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                let _ = id;
                if let Some((s, n)) = st.env.clk.clone() {
                    self.wr(st, p, 8, &s)?;
                    self.wr(st, p + 8, 8, &n)?;
                } else {
                    st.env.clock += st.env.clock_step;
                    let c = st.env.clock;
                    self.wr(st, p, 8, &Val::C((c / 1_000_000_000) as u128))?;
                    self.wr(st, p + 8, 8, &Val::C((c % 1_000_000_000) as u128))?;
                }
                Val::C(0)
            }
            "nanosleep" | "clock_nanosleep" => {
                let i = if name == "nanosleep" { 0 } else { 2 };
                let p = self.k(st, &av, args, i)?;
                let (s, n) = (self.rd(st, p, 8)?, self.rd(st, p + 8, 8)?);
                let (s, n) = (self.conc(st, &s, 64)? as u64, self.conc(st, &n, 64)? as u64);
                if let Some(d) = dst {
                    self.set(st, d, Val::C(0));
                }
                let n = s.saturating_mul(1_000_000_000).saturating_add(n);
                // TIMER_ABSTIME
                let abs = i == 2 && self.k(st, &av, args, 1)? & 1 == 1;
                let dl = if abs { n } else { st.env.clock.saturating_add(n) };
                st.threads[t].status = Status::Wait(0, Some(dl));
                st.threads[t].wdst = None;
                // a sleeper's wake-up needs no tick budget
                return self.block(st);
            }
            "syscall" => {
                let nr = self.k(st, &av, args, 0)?;
                match nr {
                    202 => {
                        let (a, op, val) = (self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?, self.k(st, &av, args, 3)? as u32);
                        self.sched_point(st)?;
                        if st.cur != t {
                            return Ok(());
                        }
                        match op & 0x7f {
                            9 | 0 => {
                                let to = self.k(st, &av, args, 4)?;
                                let cur = self.rd(st, a, 4)?;
                                let cur = self.conc(st, &cur, 32)? as u32;
                                if cur != val {
                                    self.errno(st, EAGAIN)?;
                                    Val::C(mask(64))
                                } else {
                                    let dl = if to == 0 {
                                        None
                                    } else {
                                        let (s, n) = (self.rd(st, to, 8)?, self.rd(st, to + 8, 8)?);
                                        let (s, n) = (self.conc(st, &s, 64)? as u64, self.conc(st, &n, 64)? as u64);
                                        Some(s.saturating_mul(1_000_000_000).saturating_add(n))
                                    };
                                    if let Some(d) = dst {
                                        self.set(st, d, Val::C(0));
                                    }
                                    st.threads[t].status = Status::Wait(a, dl);
                                    st.threads[t].wdst = dst;
                                    st.env.waits += 1;
                                    return self.block(st);
                                }
                            }
                            1 | 10 => {
                                let n = self.wake(st, a, val as u64);
                                Val::C(n as u128)
                            }
                            o => return Err(self.err(st, format!("futex op {o}"))),
                        }
                    }
                    186 => Val::C(1000 + t as u128),
                    318 => {
                        let (p, n) = (self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                        self.wrbytes(st, p, &vec![B::C(7); n as usize])?;
                        Val::C(n as u128)
                    }
                    n => return Err(self.err(st, format!("syscall {n}"))),
                }
            }
            "getrandom" => {
                let (p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                self.wrbytes(st, p, &vec![B::C(7); n as usize])?;
                Val::C(n as u128)
            }
            "dlsym" => Val::C(0),
            "getenv" => {
                let a = self.k(st, &av, args, 0)?;
                let _ = self.cstr(st, a)?;
                Val::C(0)
            }
            "gettid" => Val::C(1000 + t as u128),
            "pthread_self" => Val::C(t as u128 + 1),
            "sched_yield" => {
                self.fin(st, dst, normal, Val::C(0))?;
                self.spin(st);
                return Ok(());
            }
            "__cxa_thread_atexit_impl" => {
                let (f, o) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                st.threads[t].dtors.push((f, o));
                Val::C(0)
            }
            "pthread_key_create" => {
                let (p, d) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                let k = st.env.next_key;
                st.env.next_key += 1;
                st.env.keys.insert(k, d);
                self.wr(st, p, 4, &Val::C(k as u128))?;
                Val::C(0)
            }
            "pthread_setspecific" => {
                let (k, v) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                st.threads[t].keys.insert(k as u32, v);
                Val::C(0)
            }
            "pthread_getspecific" => {
                let k = self.k(st, &av, args, 0)?;
                Val::C(st.threads[t].keys.get(&(k as u32)).copied().unwrap_or(0) as u128)
            }
            "pthread_create" => {
                let (p, f, a) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 2)?, self.k(st, &av, args, 3)?);
                if st.threads.len() >= 6 {
                    return Err(self.err(st, "thread bound exceeded".into()));
                }
                let i = ((f - FBASE) / 16) as u32;
                let fr = self.frame(i, vec![Val::C(a as u128)], None, None);
                st.threads.push(Thread { frames: vec![fr], tls: HashMap::new(), status: Status::Run, dtors: vec![], keys: Default::default(), errno: 0, retval: 0, wdst: None, decided: false });
                let id = st.threads.len();
                self.wr(st, p, 8, &Val::C(id as u128))?;
                Val::C(0)
            }
            "pthread_join" => {
                let id = self.k(st, &av, args, 0)? as usize - 1;
                if st.threads[id].status == Status::Done {
                    Val::C(0)
                } else {
                    if let Some(d) = dst {
                        self.set(st, d, Val::C(0));
                    }
                    st.threads[t].status = Status::Join(id);
                    return self.block(st);
                }
            }
            "sigaction" => {
                let (s, p) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                if args.len() > 2 {
                    let old = self.k(st, &av, args, 2)?;
                    if old != 0 {
                        let h = st.env.sigs.get(&(s as u32)).copied().unwrap_or((0, 0));
                        self.wrbytes(st, old, &vec![B::C(0); 152])?;
                        self.wr(st, old, 8, &Val::C(h.0 as u128))?;
                        self.wr(st, old + 136, 4, &Val::C(h.1 as u128))?;
                    }
                }
                if p != 0 {
                    let h = self.rd(st, p, 8)?;
                    let fl = self.rd(st, p + 136, 4)?;
                    let (h, fl) = (self.conc(st, &h, 64)? as u64, self.conc(st, &fl, 32)? as u64);
                    st.env.sigs.insert(s as u32, (h, fl));
                }
                Val::C(0)
            }
            "abort" => return Err(self.violation(st, "abort".into())),
            "exit" | "_exit" => {
                let code = self.k(st, &av, args, 0)?;
                if st.env.on_exit != 0 {
                    // the process ends here: only the harness looks at what it left
                    let f = std::mem::take(&mut st.env.on_exit);
                    for x in &mut st.threads {
                        x.status = Status::Done;
                    }
                    let fr = self.frame(((f - FBASE) / 16) as u32, vec![Val::C(code as u128 & 0xff)], None, None);
                    st.threads[0].frames = vec![fr];
                    st.threads[0].status = Status::Run;
                    st.threads[0].dtors.clear();
                    st.threads[0].decided = false;
                    st.env.sched_on = false;
                    st.env.sig_budget = 0;
                    st.cur = 0;
                    return Ok(());
                }
                let Some(pos) = st.threads[0].frames.iter().rposition(|f| f.mark == 1) else {
                    return Err(self.violation(st, format!("process exit with code {code}")));
                };
                if t != 0 {
                    return Err(self.err(st, "exit from another thread".into()));
                }
                st.env.exit_code = Some(code as u32);
                while st.threads[0].frames.len() > pos + 1 {
                    let fr = st.threads[0].frames.pop().unwrap();
                    for a in &fr.allocas {
                        st.mem.remove(a);
                    }
                }
                return self.ret(st, Some(Val::C(code as u128 & 0xffff_ffff)));
            }
            _ => return Err(self.err(st, format!("external function {name}"))),
        };
        self.fin(st, dst, normal, out)
    }

    fn do_write(&mut self, st: &mut State, fd: u64, v: &[(u64, u64)]) -> R<Val> {
        if fd != 1 && fd != 2 {
            return Err(self.err(st, format!("write to descriptor {fd}")));
        }
        let i = fd as usize;
        let mut most = u64::MAX;
        if st.env.wfail[i] & 0xffff > 0 {
            st.env.wfail[i] -= 1;
            if st.env.wfail[i] & 0xffff == 0 {
                match st.env.wfail[i] >> 16 {
                    0 | 1 => {
                        let e = if st.env.wfail[i] == 0 { 5 } else { 4 };
                        self.errno(st, e)?;
                        return Ok(Val::C(mask(64)));
                    }
                    k => most = k as u64 - 1,
                }
            }
        }
        let mut n = 0;
        let start = st.env.out[i].len() as u32;
        for &(p, l) in v {
            let l = l.min(most - n);
            let b = self.rdbytes(st, p, l)?;
            n += l;
            Rc::make_mut(&mut st.env.out[i]).extend(b);
        }
        Rc::make_mut(&mut st.env.wlog).push((fd as u8, start, n as u32));
        Ok(Val::C(n as u128))
    }

    // ---------------------------------------------------------------- harness
    fn harness(&mut self, st: &mut State, name: &str, av: Vec<Val>, args: &[(TyId, Opd)], dst: Option<u32>, normal: Option<u32>) -> R<()> {
        st.env.forced = 0;
        let out = match name {
            "se_u8" => self.input(st, 8),
            "se_ascii" => {
                let x = self.input(st, 7);
                self.cast1(CastOp::ZExt, 7, 8, &x, false, false)
            }
            "se_param" => {
                let n = self.k(st, &av, args, 0)? as usize;
                Val::C(self.params.get(n).copied().unwrap_or(0) as u128)
            }
            "se_observe" => {
                let (p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                let b = self.rdbytes(st, p, n)?;
                Rc::make_mut(&mut st.env.obs).push(b);
                Val::C(0)
            }
            "se_u16" => self.input(st, 16),
            "se_u32" => self.input(st, 32),
            "se_u64" => self.input(st, 64),
            // below(n): a fresh value in 0..n
            "se_below" => {
                let n = self.k(st, &av, args, 0)?;
                let v = if n <= 256 {
                    let x = self.input(st, 8);
                    self.cast1(CastOp::ZExt, 8, 32, &x, false, false)
                } else {
                    self.input(st, 32)
                };
                let c = self.icmp(Pred::Ult, 32, &v, &Val::C(n as u128));
                if let Val::S(e) = c {
                    self.add(st, e, None); // model value 0 satisfies it
                }
                v
            }
            // fork over the values of a 64-bit expression
            "se_fix" => {
                let w = self.m.types.bits(args[0].0);
                Val::C(self.conc(st, &av[0], w)?)
            }
            "se_assume" => {
                if let Val::S(e) = av[0] {
                    // no fork: either it holds on the current model, or find one, or drop the path
                    if self.known(st, e).is_none() {
                        match self.may(st, e)? {
                            None => return Err(Stop::Assume),
                            Some(m) => self.add(st, e, m),
                        }
                    } else if self.known(st, e) == Some(0) {
                        return Err(Stop::Assume);
                    }
                } else if let Val::C(0) = av[0] {
                    return Err(Stop::Assume);
                }
                Val::C(0)
            }
            "se_assert" => {
                self.rep.asserts += 1;
                let (p, n) = (self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)?);
                match &av[0] {
                    Val::C(1) => {}
                    Val::C(_) => {
                        let m = self.text(st, p, n)?;
                        return Err(self.violation(st, m));
                    }
                    Val::S(e) => {
                        let nc = self.ar.not(*e);
                        if let Some(m) = self.may2(st, nc, false)? {
                            self.add(st, nc, m);
                            let m = self.text(st, p, n)?;
                            return Err(self.violation(st, m));
                        }
                        Rc::make_mut(&mut st.pc.eqs).insert(*e, 1);
                        Rc::make_mut(&mut st.pc.eqs).insert(nc, 0);
                    }
                    _ => panic!(),
                }
                Val::C(0)
            }
            "se_reach" => {
                let n = self.k(st, &av, args, 0)? as u32;
                if !st.env.reached.contains(&n) {
                    Rc::make_mut(&mut st.env.reached).push(n);
                }
                Val::C(0)
            }
            // and/or without short-circuit forks come for free from `&`/`|` on bools
            "se_stdin" => {
                let (p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                let b = self.rdbytes(st, p, n)?;
                Rc::make_mut(&mut st.env.stdin).extend(b);
                let l = st.env.stdin.len();
                Rc::make_mut(&mut st.env.chunks).push(l);
                Val::C(0)
            }
            "se_stdin_left" => Val::C((st.env.stdin.len() - st.env.stdin_pos) as u128),
            "se_stdin_err" => {
                st.env.stdin_err = self.k(st, &av, args, 0)? as u32;
                Val::C(0)
            }
            "se_out_len" => {
                let fd = self.k(st, &av, args, 0)? as usize;
                Val::C(st.env.out[fd].len() as u128)
            }
            "se_out" => {
                let (fd, p, off, n) = (self.k(st, &av, args, 0)? as usize, self.k(st, &av, args, 1)?, self.k(st, &av, args, 2)? as usize, self.k(st, &av, args, 3)? as usize);
                let b = st.env.out[fd][off..off + n].to_vec();
                self.wrbytes(st, p, &b)?;
                Val::C(0)
            }
            "se_out_clear" => {
                let fd = self.k(st, &av, args, 0)? as usize;
                st.env.out[fd] = Rc::new(vec![]);
                Val::C(0)
            }
            "se_wfail" => {
                let (fd, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                st.env.wfail[fd as usize] = n as u32;
                Val::C(0)
            }
            "se_winsize" => {
                let on = self.k(st, &av, args, 2)?;
                st.env.winsize = if on != 0 { Some((av[0].clone(), av[1].clone())) } else { None };
                Val::C(0)
            }
            "se_advance" => {
                let n = self.k(st, &av, args, 0)?;
                st.env.clock += n;
                Val::C(0)
            }
            "se_clock" => {
                st.env.clk = Some((av[0].clone(), av[1].clone()));
                Val::C(0)
            }
            "se_sched" => {
                let (p, t) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                st.env.sched_on = p != 255;
                st.env.preempt = if p == 255 { 0 } else { p as u32 };
                st.env.ticks = t as u32;
                Val::C(0)
            }
            "se_threads" => Val::C(st.threads.iter().filter(|t| t.status != Status::Done).count() as u128),
            // let every other thread run until it blocks
            "se_settle" => {
                if let Some(d) = dst {
                    self.set(st, d, Val::C(0));
                }
                if !self.runnable(st, st.cur).is_empty() {
                    st.threads[0].status = Status::Wait(0, Some(st.env.clock));
                    st.threads[0].wdst = None;
                    return self.block(st);
                }
                Val::C(0)
            }
            "se_native" => Val::C(0),
            "se_allocs" => Val::C(st.env.allocs as u128),
            "se_sig" => {
                let s = self.k(st, &av, args, 0)?;
                let h = st.env.sigs.get(&(s as u32)).copied().unwrap_or((0, 0)).0;
                Val::C(h as u128)
            }
            // deliver a signal to this thread, now
            "se_raise" => {
                let n = self.k(st, &av, args, 0)? as u32;
                self.fin(st, dst, normal, Val::C(0))?;
                return self.deliver(st, n);
            }
            // up to `budget` signals may arrive, at any visible operation of any thread
            "se_signals" => {
                let (n, b) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                st.env.sig_no = n as u32;
                st.env.sig_budget = b as u32;
                Val::C(0)
            }
            "se_signals_left" => Val::C(st.env.sig_budget as u128),
            "se_on_exit" => {
                st.env.on_exit = self.k(st, &av, args, 0)?;
                Val::C(0)
            }
            // run the C entry point; `exit` returns here
            "se_call_main" => {
                let (f, argc, argv) = (self.k(st, &av, args, 0)?, av[1].clone(), av[2].clone());
                if f < FBASE || f >= XBASE {
                    return Err(self.err(st, "se_call_main: not a function".into()));
                }
                let mut fr = self.frame(((f - FBASE) / 16) as u32, vec![argc, argv, Val::C(0)], dst, normal);
                fr.mark = 1;
                let t = st.cur;
                st.threads[t].frames.push(fr);
                return Ok(());
            }
            "se_show" => {
                let (p, n) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                let v = self.rdbytes(st, p, n)?;
                let s: String = v
                    .iter()
                    .map(|b| match b {
                        B::C(c) => format!("{}", (*c as char).escape_default()),
                        B::S(e) => format!("<{}>", self.ar.show(*e, 4)),
                    })
                    .collect();
                eprintln!("SHOW {s}");
                Val::C(0)
            }
            _ => return Err(self.err(st, format!("harness function {name}"))),
        };
        self.fin(st, dst, normal, out)
    }
    fn text(&mut self, st: &State, p: u64, n: u64) -> R<String> {
        Ok(self.rdbytes(st, p, n)?.iter().map(|b| if let B::C(c) = b { *c as char } else { '?' }).collect())
    }

    // ---------------------------------------------------------------- intrinsics
    fn cnt(&mut self, w: u32, v: &Val, lead: bool) -> Val {
        if let Val::C(k) = v {
            let k = *k & mask(w);
            let r = if lead { if k == 0 { w } else { w - 128 + 0 + (128 - (128 - k.leading_zeros())) } } else if k == 0 { w } else { k.trailing_zeros() };
            let r = if lead && k != 0 { k.leading_zeros() - (128 - w) } else { r };
            return Val::C(r as u128);
        }
        let e = self.e(v, w);
        let mut r = self.ar.c(w, w as u128);
        for i in 0..w {
            let bit = if lead { i } else { w - 1 - i };
            let b = self.ar.extract(e, bit, 1);
            let c = self.ar.c(w, if lead { (w - 1 - bit) as u128 } else { bit as u128 });
            r = self.ar.ite(b, c, r);
        }
        self.v(r)
    }
    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, st: &mut State, n: &str, av: Vec<Val>, args: &[(TyId, Opd)], ret: TyId, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        let base = n.split('.').next().unwrap();
        let out = match base {
            "memcpy" | "memmove" => {
                let len = self.k(st, &av, args, 2)?;
                let (a, b) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 1)?);
                let x = self.rdbytes(st, b, len)?;
                self.wrbytes(st, a, &x)?;
                Val::C(0)
            }
            "memset" => {
                let (a, len) = (self.k(st, &av, args, 0)?, self.k(st, &av, args, 2)?);
                let b = match &av[1] {
                    Val::C(k) => B::C(*k as u8),
                    Val::S(e) => B::S(*e),
                    _ => panic!(),
                };
                self.wrbytes(st, a, &vec![b; len as usize])?;
                Val::C(0)
            }
            "threadlocal" => {
                let a = self.k(st, &av, args, 0)?;
                Val::C(self.tls(st, a) as u128)
            }
            "is" => Val::C(0),
            "expect" => av[0].clone(),
            "trap" | "ubsantrap" => return Err(self.violation(st, "trap".into())),
            "x86" if n == "x86.sse2.pause" => {
                self.fin(st, dst, normal, Val::C(0))?;
                self.spin(st);
                return Ok(());
            }
            "ctlz" | "cttz" => {
                let lead = base == "ctlz";
                self.map2(ret, &av[0], &av[0], &mut |s, w, p, _| s.cnt(w, p, lead))
            }
            "ctpop" => self.map2(ret, &av[0], &av[0], &mut |s, w, p, _| {
                if let Val::C(k) = p {
                    return Val::C(k.count_ones() as u128);
                }
                let e = s.e(p, w);
                let mut r = s.ar.c(w, 0);
                for i in 0..w {
                    let b = s.ar.extract(e, i, 1);
                    let b = s.ar.zext(b, w);
                    r = s.ar.bin(Op::Add, r, b);
                }
                s.v(r)
            }),
            "bswap" => self.map2(ret, &av[0], &av[0], &mut |s, w, p, _| {
                let e = s.e(p, w);
                let mut r = s.ar.extract(e, 0, 8);
                for i in 1..w / 8 {
                    let b = s.ar.extract(e, i * 8, 8);
                    r = s.ar.concat(r, b);
                }
                s.v(r)
            }),
            "bitreverse" => self.map2(ret, &av[0], &av[0], &mut |s, w, p, _| {
                let e = s.e(p, w);
                let mut r = s.ar.extract(e, 0, 1);
                for i in 1..w {
                    let b = s.ar.extract(e, i, 1);
                    r = s.ar.concat(r, b);
                }
                s.v(r)
            }),
            "fshl" | "fshr" => {
                let w = self.m.types.bits(ret);
                let sh = self.bin(BinOp::URem, w, &av[2], &Val::C(w as u128));
                let k = self.conc(st, &sh, w)? as u32;
                let (hi, lo) = (self.e(&av[0], w), self.e(&av[1], w));
                // the 2w-bit concatenation may exceed 128 bits: use shifts
                let (hs, ls) = if base == "fshl" { (k, w - k) } else { (w - k, k) };
                let h = if hs >= w { self.ar.c(w, 0) } else { let c = self.ar.c(w, hs as u128); self.ar.bin(Op::Shl, hi, c) };
                let l = if ls >= w { self.ar.c(w, 0) } else { let c = self.ar.c(w, ls as u128); self.ar.bin(Op::LShr, lo, c) };
                let r = self.ar.or(h, l);
                self.v(r)
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let stp: &State = st;
                self.map2(ret, &av[0], &av[1], &mut |s, w, a, b| {
                    let c = s.icmp(p, w, a, b);
                    s.pick(stp, w, &c, a, b)
                })
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let sat = n.contains(".sat.");
                let w = self.m.types.bits(args[0].0);
                if matches!(av[0], Val::A(_)) {
                    if !sat || signed {
                        return Err(self.err(st, format!("vector {n}")));
                    }
                    let (Val::A(x), Val::A(y)) = (&av[0], &av[1]) else { panic!() };
                    let (_, ew) = self.lanes(args[0].0).unwrap();
                    let (x, y) = (x.clone(), y.clone());
                    let v = (0..x.len())
                        .map(|i| {
                            let (r, o) = self.arith(op, false, ew, &x[i], &y[i]);
                            let lim = if op == BinOp::Sub { 0 } else { mask(ew) };
                            self.select(ew, &o, &Val::C(lim), &r)
                        })
                        .collect();
                    Val::agg(v)
                } else {
                    let (r, o) = self.arith(op, signed, w, &av[0], &av[1]);
                    if sat {
                        let lim = if signed {
                            let neg = self.icmp(Pred::Slt, w, &av[0], &Val::C(0));
                            self.select(w, &neg, &Val::C(1u128 << (w - 1)), &Val::C(mask(w) >> 1))
                        } else if op == BinOp::Sub {
                            Val::C(0)
                        } else {
                            Val::C(mask(w))
                        };
                        self.pick(st, w, &o, &lim, &r)
                    } else {
                        Val::agg(vec![r, o])
                    }
                }
            }
            "ucmp" | "scmp" => {
                let w = self.m.types.bits(args[0].0);
                let rw = self.m.types.bits(ret);
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &av[0], &av[1]);
                let g = self.icmp(gt, w, &av[0], &av[1]);
                let g = self.select(rw, &g, &Val::C(1), &Val::C(0));
                self.select(rw, &l, &Val::C(mask(rw)), &g)
            }
            "abs" => self.map2(ret, &av[0], &av[0], &mut |s, w, a, _| {
                let neg = s.icmp(Pred::Slt, w, a, &Val::C(0));
                let m = s.bin(BinOp::Sub, w, &Val::C(0), a);
                s.select(w, &neg, &m, a)
            }),
            "vector" => {
                let (Val::A(v), kind) = (&av[0], n.split('.').nth(2).unwrap_or("")) else { panic!() };
                let w = self.lanes(args[0].0).unwrap().1;
                let v = v.clone();
                let mut acc = v[0].clone();
                for x in v.iter().skip(1) {
                    acc = match kind {
                        "add" => self.bin(BinOp::Add, w, &acc, x),
                        "or" => self.bin(BinOp::Or, w, &acc, x),
                        "and" => self.bin(BinOp::And, w, &acc, x),
                        "xor" => self.bin(BinOp::Xor, w, &acc, x),
                        "umax" => {
                            let c = self.icmp(Pred::Ugt, w, &acc, x);
                            self.select(w, &c, &acc, x)
                        }
                        "umin" => {
                            let c = self.icmp(Pred::Ult, w, &acc, x);
                            self.select(w, &c, &acc, x)
                        }
                        _ => return Err(self.err(st, format!("intrinsic {n}"))),
                    };
                }
                acc
            }
            "fptoui" | "fptosi" => {
                let (fw, tw) = (self.m.types.bits(args[0].0), self.m.types.bits(ret));
                match &av[0] {
                    Val::C(k) => {
                        let f = if fw == 64 { f64::from_bits(*k as u64) } else { f32::from_bits(*k as u32) as f64 };
                        if base == "fptoui" {
                            let r = f as u128;
                            Val::C(r.min(mask(tw)))
                        } else {
                            let (lo, hi) = (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1);
                            Val::C((f as i128).clamp(lo, hi) as u128 & mask(tw))
                        }
                    }
                    Val::S(e) => {
                        if base != "fptoui" {
                            return Err(self.err(st, "symbolic fptosi.sat".into()));
                        }
                        let nan = self.ar.fp(Op::FIsNan, 1, *e, NONE);
                        let zero = self.ar.c(fw, 0);
                        let lim = 2f64.powi(tw as i32);
                        let limb = if fw == 64 { lim.to_bits() as u128 } else { (lim as f32).to_bits() as u128 };
                        let limc = self.ar.c(fw, limb);
                        let neg = self.ar.fp(Op::FLe, 1, *e, zero);
                        let big = self.ar.fp(Op::FLe, 1, limc, *e);
                        let x = self.ar.fp(Op::FToU, tw, *e, NONE);
                        let mx = self.ar.c(tw, mask(tw));
                        let z = self.ar.c(tw, 0);
                        let r = self.ar.ite(big, mx, x);
                        let bad = self.ar.or(nan, neg);
                        let r = self.ar.ite(bad, z, r);
                        self.v(r)
                    }
                    _ => return Err(self.err(st, "vector fp conversion".into())),
                }
            }
            "fabs" => {
                let w = self.m.types.bits(ret);
                self.bin(BinOp::And, w, &av[0], &Val::C(mask(w) >> 1))
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" | "roundeven" | "nearbyint" | "sqrt" => {
                let w = self.m.types.bits(ret);
                if let (Val::S(e), "round") = (&av[0], base) {
                    let e = self.ar.fp(Op::FRna, w, *e, NONE);
                    return self.fin(st, dst, normal, Val::S(e));
                }
                let x = self.conc(st, &av[0], w)?;
                let f = |x: f64| match base {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    "round" => x.round(),
                    "sqrt" => x.sqrt(),
                    _ => x.round_ties_even(),
                };
                Val::C(if w == 64 { f(f64::from_bits(x as u64)).to_bits() as u128 } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u128 })
            }
            "fma" | "fmuladd" => {
                let w = self.m.types.bits(ret);
                let (x, y, z) = (self.conc(st, &av[0], w)?, self.conc(st, &av[1], w)?, self.conc(st, &av[2], w)?);
                Val::C(if w == 64 {
                    f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128
                } else {
                    f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128
                })
            }
            _ => return Err(self.err(st, format!("intrinsic {n}"))),
        };
        self.fin(st, dst, normal, out)
    }
    /// Wrapping result and overflow bit.
    fn arith(&mut self, op: BinOp, signed: bool, w: u32, a: &Val, b: &Val) -> (Val, Val) {
        let r = self.bin(op, w, a, b);
        let o = match (op, signed) {
            (BinOp::Add, false) => self.icmp(Pred::Ult, w, &r, a),
            (BinOp::Sub, false) => self.icmp(Pred::Ult, w, a, b),
            (BinOp::Add, true) | (BinOp::Sub, true) => {
                // overflow iff operands' signs agree (add) / differ (sub) and the result's differs from a's
                let x = self.bin(BinOp::Xor, w, a, &r);
                let y = self.bin(BinOp::Xor, w, a, b);
                let y = if op == BinOp::Add { self.bin(BinOp::Xor, w, &y, &Val::C(mask(w))) } else { y };
                let z = self.bin(BinOp::And, w, &x, &y);
                self.icmp(Pred::Slt, w, &z, &Val::C(0))
            }
            (_, false) => {
                if w <= 64 {
                    let (x, y) = (self.cast1(CastOp::ZExt, w, 2 * w, a, false, false), self.cast1(CastOp::ZExt, w, 2 * w, b, false, false));
                    let p = self.bin(BinOp::Mul, 2 * w, &x, &y);
                    self.icmp(Pred::Ugt, 2 * w, &p, &Val::C(mask(w)))
                } else if let (Val::C(x), Val::C(y)) = (a, b) {
                    Val::C(x.checked_mul(*y).is_none() as u128)
                } else {
                    // a * b overflows iff b != 0 and r / b != a  (or shortcut via high halves)
                    let z = self.icmp(Pred::Ne, w, b, &Val::C(0));
                    let q = self.bin(BinOp::UDiv, w, &r, b);
                    let ne = self.icmp(Pred::Ne, w, &q, a);
                    self.bin(BinOp::And, 1, &z, &ne)
                }
            }
            (_, true) => {
                if w > 64 {
                    // the product of the magnitudes, and its limit
                    let neg = |s: &mut Self, v: &Val| s.icmp(Pred::Slt, w, v, &Val::C(0));
                    let (na, nb) = (neg(self, a), neg(self, b));
                    let abs = |s: &mut Self, v: &Val, n: &Val| {
                        let m = s.cast1(CastOp::SExt, 1, w, n, false, false);
                        let x = s.bin(BinOp::Xor, w, v, &m);
                        s.bin(BinOp::Sub, w, &x, &m)
                    };
                    let (x, y) = (abs(self, a, &na), abs(self, b, &nb));
                    let (p, big) = self.arith(BinOp::Mul, false, w, &x, &y);
                    let n = self.bin(BinOp::Xor, 1, &na, &nb);
                    let n = self.cast1(CastOp::ZExt, 1, w, &n, false, false);
                    let lim = self.bin(BinOp::Add, w, &Val::C(mask(w) >> 1), &n);
                    let over = self.icmp(Pred::Ugt, w, &p, &lim);
                    let o = self.bin(BinOp::Or, 1, &big, &over);
                    return (r, o);
                }
                let (x, y) = (self.cast1(CastOp::SExt, w, 2 * w, a, false, false), self.cast1(CastOp::SExt, w, 2 * w, b, false, false));
                let p = self.bin(BinOp::Mul, 2 * w, &x, &y);
                let q = self.cast1(CastOp::SExt, w, 2 * w, &r, false, false);
                self.icmp(Pred::Ne, 2 * w, &p, &q)
            }
        };
        (r, o)
    }
}
