//! Symbolic interpreter: states, memory, instructions.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn agg(v: Vec<Val>) -> Val {
        Val::A(Rc::new(v))
    }
}

/// A byte: concrete or symbolic.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    C(u8),
    S(E),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: HashMap<u32, E>,
    pub ro: bool,
    pub kind: u8, // 0 global, 1 stack, 2 heap
}
impl Obj {
    pub fn new(size: u64, kind: u8) -> Obj {
        Obj { data: vec![0; size as usize], sym: HashMap::new(), ro: false, kind }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    /// register of the caller receiving the result
    pub ret: Option<u32>,
    /// branch target in the caller after return (invoke)
    pub normal: Option<u32>,
    /// 0 ordinary; 1 = se_call_main boundary; 2 = signal handler; 3 = TLS destructor
    pub mark: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Run,
    /// futex wait: address, deadline
    Wait(u64, Option<u64>),
    Join(usize),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub tls: HashMap<u32, u64>,
    pub status: Status,
    pub dtors: Vec<(u64, u64)>,
    pub keys: BTreeMap<u32, u64>,
    pub errno: u64,
    pub retval: u128,
    /// register receiving the result of the blocking call
    pub wdst: Option<u32>,
    /// the scheduling decision for the current instruction is already made
    pub decided: bool,
}

#[derive(Clone)]
pub struct Comp {
    pub vs: u32,
    pub cons: Rc<Vec<E>>,
    pub model: Rc<Vec<(u32, u128)>>,
}

#[derive(Clone, Default)]
pub struct Pc {
    pub comps: Vec<Comp>,
    pub fixed: Rc<HashMap<u32, u128>>,
    pub eqs: Rc<HashMap<E, u128>>,
}

#[derive(Clone, Default)]
pub struct Env {
    pub out: [Rc<Vec<B>>; 3],
    pub stdin: Rc<Vec<B>>,
    pub stdin_pos: usize,
    pub stdin_err: u32,
    pub chunks: Rc<Vec<usize>>,
    pub eofs: u32,
    pub winsize: Option<(Val, Val)>,
    pub clock: u64,
    pub clock_step: u64,
    pub heap_top: u64,
    pub stack_top: u64,
    pub nvars: u32,
    pub nsched: u32,
    pub sched_on: bool,
    pub preempt: u32,
    pub ticks: u32,
    pub next_key: u32,
    pub keys: BTreeMap<u32, u64>,
    pub sigs: BTreeMap<u32, (u64, u64)>, // handler, flags
    pub sig_pending: u32,
    pub sig_budget: u32,
    /// the signal that may arrive at scheduling points
    pub sig_no: u32,
    /// called when the process exits
    pub on_exit: u64,
    pub wfail: [u32; 3], // fail the n-th next write (0 = never)
    pub wlog: Rc<Vec<(u8, u32, u32)>>, // fd, start, len
    pub reached: Rc<Vec<u32>>,
    pub exit_code: Option<u32>,
    pub allocs: i64,
    pub obs: Rc<Vec<Vec<B>>>,
    /// consecutive forced timeouts
    pub forced: u32,
    pub clk: Option<(Val, Val)>,
    pub handler_on: bool,
    pub waits: u32,
}

#[derive(Clone)]
pub struct State {
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Pc,
    pub env: Env,
    pub inputs: Rc<Vec<(E, u32)>>, // (expr, width)
    pub sched: Rc<Vec<E>>,
    pub steps: u64,
    pub forks: u32,
}

pub enum Stop {
    Done,
    Assume,
    Violation(String),
    Error(String),
    /// keep going with another pushed state
    Fork,
}
pub type R<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct Report {
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub violations: Vec<(String, Vec<(u128, u32)>, Vec<u128>)>,
    pub errors: Vec<String>,
    pub reached: BTreeMap<u32, u64>,
    pub truncated: u64,
    pub samples: Vec<String>,
    pub max_steps: u64,
    pub sched_points: u64,
    pub switches: u64,
    pub small: u64,
}

pub struct Eng {
    pub ar: Arena,
    pub sol: Solver,
    pub m: Module,
    pub kv: Vec<Val>,
    pub globs: BTreeMap<u64, Rc<Obj>>,
    pub gaddr: HashMap<String, u64>,
    pub gtls: HashMap<u64, (u32, u64)>, // tls template address -> (gidx, size)
    pub fidx: HashMap<String, u32>,
    pub exts: Vec<&'static str>,
    pub extidx: HashMap<String, u32>,
    pub work: Vec<State>,
    pub rep: Report,
    pub covered: Vec<bool>,
    pub is_panic: Vec<bool>,
    pub max_path_steps: u64,
    pub tables: bool,
    pub max_viol: usize,
    pub verbose: bool,
    pub trace_q: bool,
    pub params: Vec<u64>,
    pub phi_tmp: Vec<(u32, Val)>,
    pub bitmaps: HashMap<E, [u64; 4]>,
    pub fork_prof: HashMap<(u32, u32), u64>,
    pub deadline: Option<std::time::Instant>,
    pub low: crate::lower::Lower,
}

pub const FBASE: u64 = 0x1000_0000;
pub const XBASE: u64 = 0x2000_0000;
pub const GBASE: u64 = 0x4000_0000;
pub const HBASE: u64 = 0x10_0000_0000;
pub const SBASE: u64 = 0x7f00_0000_0000;

impl Eng {
    pub fn new(m: Module, timeout_ms: u32) -> Eng {
        let mut e = Eng {
            ar: Arena::new(),
            sol: Solver::new(timeout_ms),
            m,
            kv: vec![],
            globs: BTreeMap::new(),
            gaddr: HashMap::new(),
            gtls: HashMap::new(),
            fidx: HashMap::new(),
            exts: vec![],
            extidx: HashMap::new(),
            work: vec![],
            rep: Report::default(),
            covered: vec![],
            is_panic: vec![],
            max_path_steps: 50_000_000,
            tables: false,
            max_viol: 8,
            verbose: false,
            trace_q: std::env::var("SYMEX_TRACE").is_ok(),
            params: vec![],
            phi_tmp: vec![],
            bitmaps: HashMap::new(),
            fork_prof: HashMap::new(),
            deadline: None,
            low: Default::default(),
        };
        e.link();
        e
    }
    fn ext(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.extidx.get(n) {
            return i;
        }
        let i = self.exts.len() as u32;
        self.exts.push(Box::leak(n.to_string().into_boxed_str()));
        self.extidx.insert(n.to_string(), i);
        i
    }
    fn link(&mut self) {
        for (i, f) in self.m.funcs.iter().enumerate() {
            self.fidx.insert(f.name.clone(), i as u32);
            let n = &f.name;
            let p = n.contains("4core9panicking")
                || (n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic") || n.contains("panic_with_hook") || n.contains("panic_handler")))
                || n.contains("handle_alloc_error")
                || n.contains("rust_oom")
                || n.contains("7process5abort");
            self.is_panic.push(p);
        }
        self.covered = vec![false; self.m.funcs.len()];
        // addresses
        let mut a = GBASE;
        for i in 0..self.m.globals.len() {
            let g = &self.m.globals[i];
            a = a.next_multiple_of(g.align.max(16));
            self.gaddr.insert(g.name.clone(), a);
            let size = self.m.types.size(g.ty);
            if g.tls {
                self.gtls.insert(a, (i as u32, size));
            }
            a += size.max(1) + 16;
        }
        for d in self.m.decls.clone() {
            self.ext(&d);
        }
        // initialise
        for i in 0..self.m.globals.len() {
            let (ty, init, name) = (self.m.globals[i].ty, self.m.globals[i].init.clone(), self.m.globals[i].name.clone());
            let addr = self.gaddr[&name];
            let mut o = Obj::new(self.m.types.size(ty), 0);
            o.ro = self.m.globals[i].constant;
            if let Some(c) = init {
                self.emit(ty, &c, &mut o.data, 0);
            }
            self.globs.insert(addr, Rc::new(o));
        }
        // constants
        let cs = std::mem::take(&mut self.m.consts);
        self.kv = cs.iter().map(|(t, c)| self.cval(*t, c)).collect();
        self.m.consts = cs;
        // callees
        let mut funcs = std::mem::take(&mut self.m.funcs);
        for f in &mut funcs {
            for b in &mut f.blocks {
                for ins in b.iter_mut() {
                    if let Inst::Call { callee, .. } = ins {
                        let sym = match callee {
                            Callee::Sym(s) => Some(s.clone()),
                            _ => None,
                        };
                        if let Some(s) = sym {
                            if s.starts_with("llvm.lifetime") || s == "llvm.assume" || s.starts_with("llvm.experimental.noalias") || s.starts_with("llvm.dbg") || s.starts_with("llvm.invariant") || s.starts_with("llvm.prefetch") {
                                *ins = Inst::Fence;
                            } else if let Some(&i) = self.fidx.get(&s) {
                                *callee = Callee::Fun(i);
                            } else {
                                *callee = Callee::Ext(self.ext(&s));
                            }
                        }
                    }
                }
            }
        }
        self.m.funcs = funcs;
    }
    fn symaddr(&mut self, s: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(s) {
            return a;
        }
        if let Some(&i) = self.fidx.get(s) {
            return FBASE + i as u64 * 16;
        }
        if !crate::env::known(s) {
            return 0;
        }
        XBASE + self.ext(s) as u64 * 16
    }
    fn cint(&mut self, c: &Const) -> u128 {
        match c {
            Const::Int(k) => *k,
            Const::Sym(s) => self.symaddr(s) as u128,
            Const::Zero | Const::Undef => 0,
            Const::Off(b, o) => (self.cint(b) as u64).wrapping_add(*o as u64) as u128,
            Const::Bin(op, w, a, b) => {
                let (x, y) = (self.cint(a), self.cint(b));
                Arena::fold(bop(*op), *w, x, y)
            }
            Const::Trunc(a, w) => self.cint(a) & crate::expr::mask(*w),
            c => panic!("cint {c:?}"),
        }
    }
    pub fn cval(&mut self, ty: TyId, c: &Const) -> Val {
        match self.m.types.t(ty).clone() {
            Ty::Struct(es, _) => match c {
                Const::Agg(v) => Val::agg(v.iter().map(|(t, c)| self.cval(*t, c)).collect()),
                _ => Val::agg(es.iter().map(|t| self.cval(*t, &Const::Zero)).collect()),
            },
            Ty::Arr(n, e) => match c {
                Const::Agg(v) => Val::agg(v.iter().map(|(t, c)| self.cval(*t, c)).collect()),
                Const::Bytes(b) => Val::agg(b.iter().map(|x| Val::C(*x as u128)).collect()),
                _ => Val::agg((0..n).map(|_| self.cval(e, &Const::Zero)).collect()),
            },
            Ty::Vec(n, e) => match c {
                Const::Agg(v) => Val::agg(v.iter().map(|(t, c)| self.cval(*t, c)).collect()),
                Const::Bytes(b) => Val::agg(b.iter().map(|x| Val::C(*x as u128)).collect()),
                _ => Val::agg((0..n).map(|_| self.cval(e, &Const::Zero)).collect()),
            },
            Ty::Void | Ty::Other => Val::C(0),
            _ => Val::C(self.cint(c)),
        }
    }
    fn emit(&mut self, ty: TyId, c: &Const, d: &mut [u8], off: usize) {
        match c {
            Const::Zero | Const::Undef => {}
            Const::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (o, _) = self.m.types.field_off(ty, i as u64);
                    self.emit(*t, c, d, off + o as usize);
                }
            }
            c => {
                let n = self.m.types.store_size(ty) as usize;
                let k = self.cint(c);
                for i in 0..n {
                    d[off + i] = (k >> (8 * i)) as u8;
                }
            }
        }
    }

    // ---------------------------------------------------------------- values
    pub fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(k) => self.ar.c(w, *k),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn v(&self, e: E) -> Val {
        match self.ar.cval(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }
    pub fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(Arena::fold(bop(op), w, *x, *y));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(bop(op), x, y);
        self.v(r)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let q = self.ar.eq(x, y);
                self.ar.not(q)
            }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
        };
        self.v(r)
    }
    pub fn select(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(k) => (if *k != 0 { a } else { b }).clone(),
            Val::S(ce) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let v = x.iter().zip(y.iter()).map(|(p, q)| self.select(0, c, p, q)).collect();
                    Val::agg(v)
                }
                _ => {
                    let w = if w != 0 {
                        w
                    } else {
                        match (a, b) {
                            (Val::S(e), _) | (_, Val::S(e)) => self.ar.w(*e),
                            (Val::C(x), Val::C(y)) if x == y => return a.clone(),
                            _ => 64,
                        }
                    };
                    let (x, y) = (self.e(a, w), self.e(b, w));
                    let r = self.ar.ite(*ce, x, y);
                    self.v(r)
                }
            },
            Val::A(_) => panic!("select on aggregate condition"),
        }
    }

    /// A selection whose condition may already be settled on this path.
    pub fn pick(&mut self, st: &State, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
        if let Val::S(e) = c {
            if let Some(k) = self.known(st, *e) {
                return (if k != 0 { a } else { b }).clone();
            }
        }
        self.select(w, c, a, b)
    }

    // ---------------------------------------------------------------- path condition
    fn intersects(a: &[u32], b: &[u32]) -> bool {
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].cmp(&b[j]) {
                std::cmp::Ordering::Less => i += 1,
                std::cmp::Ordering::Greater => j += 1,
                std::cmp::Ordering::Equal => return true,
            }
        }
        false
    }
    pub fn model_val(st: &State, v: u32) -> u128 {
        for c in &st.pc.comps {
            if let Ok(i) = c.model.binary_search_by_key(&v, |x| x.0) {
                return c.model[i].1;
            }
        }
        0
    }
    pub fn eval_model(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.ar.eval(e, &|v| Self::model_val(st, v), &mut memo)
    }
    /// Value if determined by the path condition syntactically.
    pub fn known(&self, st: &State, e: E) -> Option<u128> {
        if let Some(k) = self.ar.cval(e) {
            return Some(k);
        }
        if let Some(&k) = st.pc.eqs.get(&e) {
            return Some(k);
        }
        let vs = self.ar.vset(self.ar.vars(e));
        if vs.iter().all(|v| st.pc.fixed.contains_key(v)) {
            let mut memo = HashMap::new();
            return Some(self.ar.eval(e, &|v| st.pc.fixed[&v], &mut memo));
        }
        None
    }
    /// Is pc && cond satisfiable? Some(None): by the current model; Some(Some(m)): by model m.
    pub fn may(&mut self, st: &State, cond: E) -> R<Option<Option<Vec<(u32, u128)>>>> {
        self.may2(st, cond, true)
    }
    /// Truth table of a condition over one variable of at most 8 bits.
    fn bitmap(&mut self, e: E, var: u32) -> [u64; 4] {
        if let Some(b) = self.bitmaps.get(&e) {
            return *b;
        }
        let n = 1usize << self.ar.var_w[var as usize];
        let mut b = [0u64; 4];
        let mut memo = HashMap::new();
        for i in 0..n {
            memo.clear();
            if self.ar.eval(e, &|_| i as u128, &mut memo) != 0 {
                b[i / 64] |= 1 << (i % 64);
            }
        }
        self.bitmaps.insert(e, b);
        b
    }
    /// `fast`: small single-variable questions are answered from truth tables instead of z3.
    pub fn may2(&mut self, st: &State, cond: E, fast: bool) -> R<Option<Option<Vec<(u32, u128)>>>> {
        let cond = self.lower(cond);
        if let Some(k) = self.known(st, cond) {
            return Ok(if k != 0 { Some(None) } else { None });
        }
        if self.eval_model(st, cond) != 0 {
            return Ok(Some(None));
        }
        let vs = self.ar.vars(cond);
        let mut cons = vec![cond];
        let mut all = vs;
        for c in &st.pc.comps {
            if Self::intersects(self.ar.vset(c.vs), self.ar.vset(vs)) {
                cons.extend(c.cons.iter());
                all = self.ar.union(all, c.vs);
            }
        }
        let vars = self.ar.vset(all).to_vec();
        if fast && self.tables && vars.len() == 1 && self.ar.var_w[vars[0] as usize] <= 8 {
            // complete decision over the 8-bit domain of the only variable involved
            let mut dom = self.bitmap(cons[0], vars[0]);
            for &c in &cons[1..] {
                let b = self.bitmap(c, vars[0]);
                for i in 0..4 {
                    dom[i] &= b[i];
                }
            }
            self.rep.small += 1;
            return Ok(match (0..4).find(|&i| dom[i] != 0) {
                None => None,
                Some(i) => Some(Some(vec![(vars[0], (i as u32 * 64 + dom[i].trailing_zeros()) as u128)])),
            });
        }
        let t0 = std::time::Instant::now();
        if self.trace_q {
            eprintln!("QUERY {} {}", std::process::id(), self.ar.show(cond, 12));
            for c in &cons[1..] {
                eprintln!("  given {}", self.ar.show(*c, 12));
            }
        }
        let r = self.sol.check(&self.ar, &cons, &vars);
        if self.verbose && t0.elapsed().as_millis() > 60 {
            eprintln!("SLOW {:?} {}ms {}", r.0, t0.elapsed().as_millis(), self.ar.show(cond, 9));
            for c in &cons[1..] {
                eprintln!("  given {}", self.ar.show(*c, 9));
            }
        }
        match r {
            (Res::Sat, m) => Ok(Some(Some(m))),
            (Res::Unsat, _) => Ok(None),
            (Res::Unknown, _) if self.verbose => {
                eprintln!("UNKNOWN {}", self.ar.show(cond, 9));
                for c in &cons[1..] {
                    eprintln!("  given {}", self.ar.show(*c, 9));
                }
                Err(Stop::Error("solver returned unknown (timeout)".into()))
            }
            (Res::Unknown, _) => Err(Stop::Error("solver returned unknown (timeout)".into())),
        }
    }
    pub fn add(&mut self, st: &mut State, cond: E, model: Option<Vec<(u32, u128)>>) {
        let cond = self.lower(cond);
        if self.ar.cval(cond) == Some(1) {
            return;
        }
        // split conjunctions
        let n = self.ar.n[cond as usize];
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a, model.clone());
            self.add(st, n.b, model);
            return;
        }
        let vs = self.ar.vars(cond);
        let mut all = vs;
        let mut cons = vec![];
        let mut vals: BTreeMap<u32, u128> = BTreeMap::new();
        let mut keep = vec![];
        for c in st.pc.comps.drain(..) {
            if Self::intersects(self.ar.vset(c.vs), self.ar.vset(vs)) {
                all = self.ar.union(all, c.vs);
                cons.extend(c.cons.iter());
                vals.extend(c.model.iter().copied());
            } else {
                keep.push(c);
            }
        }
        st.pc.comps = keep;
        if !cons.contains(&cond) {
            cons.push(cond);
        }
        for v in self.ar.vset(all) {
            vals.entry(*v).or_insert(0);
        }
        if let Some(m) = model {
            for (k, x) in m {
                if let Some(y) = vals.get_mut(&k) {
                    *y = x;
                }
            }
        }
        let comp = Comp { vs: all, cons: Rc::new(cons), model: Rc::new(vals.into_iter().collect()) };
        st.pc.comps.push(comp);
        Rc::make_mut(&mut st.pc.eqs).insert(cond, 1);
        let nc = self.ar.not(cond);
        Rc::make_mut(&mut st.pc.eqs).insert(nc, 0);
        if n.op == Op::Eq {
            if let Some(k) = self.ar.cval(n.b) {
                Rc::make_mut(&mut st.pc.eqs).insert(n.a, k);
                let x = self.ar.n[n.a as usize];
                if x.op == Op::Var {
                    Rc::make_mut(&mut st.pc.fixed).insert(x.k as u32, k);
                }
            }
        }
        if n.op == Op::Ult {
            let (le, gt, eq) = (self.ar.bin(Op::Ule, n.a, n.b), self.ar.bin(Op::Ult, n.b, n.a), self.ar.eq(n.a, n.b));
            let m = Rc::make_mut(&mut st.pc.eqs);
            m.insert(le, 1);
            m.insert(gt, 0);
            m.insert(eq, 0);
        }
        if n.op == Op::Var && n.w == 1 {
            Rc::make_mut(&mut st.pc.fixed).insert(n.k as u32, 1);
        }
        if n.op == Op::Xor && n.w == 1 && self.ar.cval(n.b) == Some(1) {
            Rc::make_mut(&mut st.pc.eqs).insert(n.a, 0);
            let x = self.ar.n[n.a as usize];
            if x.op == Op::Var {
                Rc::make_mut(&mut st.pc.fixed).insert(x.k as u32, 0);
            }
        }
    }
    /// Decide a condition; forks when both sides are feasible (the sibling, with the
    /// negated condition, re-executes from `back` instructions earlier).
    pub fn branch(&mut self, st: &mut State, cond: E, back: u32) -> R<bool> {
        if let Some(k) = self.known(st, cond) {
            return Ok(k != 0);
        }
        let orig = cond;
        let cond = self.narrow(st, cond)?;
        let cond = self.lower(cond);
        let cur = self.eval_model(st, cond) != 0;
        if cond != orig {
            if let Some(k) = self.known(st, cond) {
                return Ok(k != 0);
            }
        }
        let nc = self.ar.not(cond);
        let (mine, other) = if cur { (cond, nc) } else { (nc, cond) };
        match self.may(st, other)? {
            None => {
                // implied: remember, do not enlarge the path condition
                Rc::make_mut(&mut st.pc.eqs).insert(mine, 1);
                Rc::make_mut(&mut st.pc.eqs).insert(other, 0);
                let no = self.ar.not(orig);
                Rc::make_mut(&mut st.pc.eqs).insert(orig, cur as u128);
                Rc::make_mut(&mut st.pc.eqs).insert(no, !cur as u128);
                Ok(cur)
            }
            Some(m) => {
                self.rep.forks += 1;
                st.forks += 1;
                if self.verbose {
                    let f = self.top(st);
                    *self.fork_prof.entry((f.f, f.bb)).or_default() += 1;
                }
                let mut s2 = st.clone();
                let t = s2.cur;
                s2.threads[t].frames.last_mut().unwrap().ip -= back;
                self.add(&mut s2, other, m);
                self.add(st, mine, None);
                if orig != cond {
                    let no = self.ar.not(orig);
                    for (x, v) in [(orig, cur), (no, !cur)] {
                        Rc::make_mut(&mut st.pc.eqs).insert(x, v as u128);
                        Rc::make_mut(&mut s2.pc.eqs).insert(x, !v as u128);
                    }
                }
                self.work.push(s2);
                Ok(cur)
            }
        }
    }
    pub fn top<'a>(&self, st: &'a State) -> &'a Frame {
        st.threads[st.cur].frames.last().unwrap()
    }
    /// Make a value concrete, forking over its feasible values.
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => {
                if let Some(k) = self.known(st, *e) {
                    return Ok(k);
                }
                let k = self.eval_model(st, *e);
                let kc = self.ar.c(w, k);
                let cond = self.ar.eq(*e, kc);
                let r = self.branch(st, cond, 1)?;
                debug_assert!(r);
                Rc::make_mut(&mut st.pc.eqs).insert(*e, k);
                Ok(k)
            }
            _ => panic!("conc aggregate"),
        }
    }
    /// Integers of more than 128 bits (a product inside std's formatting of 128-bit numbers), concrete only:
    /// a value that does not fit is a pair (low, high).
    fn wide(&self, st: &State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let halves = |v: &Val| match v {
            Val::C(k) => Some((*k, 0)),
            Val::A(v) => match (&v[0], &v[1]) {
                (Val::C(l), Val::C(h)) => Some((*l, *h)),
                _ => None,
            },
            _ => None,
        };
        let r = match (op, halves(a), halves(b)) {
            _ if w != 256 => None,
            (BinOp::Mul, Some((x, 0)), Some((y, 0))) => {
                let m = u64::MAX as u128;
                let (x0, x1, y0, y1) = (x & m, x >> 64, y & m, y >> 64);
                let (p, q, r) = (x0 * y0, x0 * y1, x1 * y0);
                let mid = (p >> 64) + (q & m) + (r & m);
                Some((p & m | mid << 64, x1 * y1 + (q >> 64) + (r >> 64) + (mid >> 64)))
            }
            (BinOp::LShr, Some((l, h)), Some((k, 0))) if k < 256 => Some(match k as u32 {
                0 => (l, h),
                k if k < 128 => (l >> k | h << (128 - k), h >> k),
                128 => (h, 0),
                k => (h >> (k - 128), 0),
            }),
            (BinOp::Add, Some((a, b)), Some((c, d))) => {
                let (l, o) = a.overflowing_add(c);
                Some((l, b.wrapping_add(d).wrapping_add(o as u128)))
            }
            (BinOp::And, Some((a, b)), Some((c, d))) => Some((a & c, b & d)),
            (BinOp::Or, Some((a, b)), Some((c, d))) => Some((a | c, b | d)),
            _ => None,
        };
        match r {
            Some((l, 0)) => Ok(Val::C(l)),
            Some((l, h)) => Ok(Val::agg(vec![Val::C(l), Val::C(h)])),
            None => Err(self.err(st, format!("{op:?} of {w}-bit integers"))),
        }
    }
    pub fn violation(&self, st: &State, msg: String) -> Stop {
        let mut tr = vec![];
        for f in st.threads[st.cur].frames.iter().rev().take(14) {
            tr.push(short(&self.m.funcs[f.f as usize].name));
        }
        Stop::Violation(format!("{msg} [in {}]", tr.join(" < ")))
    }
    pub fn err(&self, st: &State, msg: String) -> Stop {
        match self.violation(st, msg) {
            Stop::Violation(m) => Stop::Error(m),
            s => s,
        }
    }

    // ---------------------------------------------------------------- memory
    pub fn find<'a>(&'a self, st: &'a State, addr: u64) -> Option<(u64, &'a Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr < b + o.data.len() as u64 || (o.data.is_empty() && addr == *b) {
                return Some((*b, o));
            }
        }
        if addr >= GBASE && addr < HBASE {
            if let Some((b, o)) = self.globs.range(..=addr).next_back() {
                if addr < b + o.data.len() as u64 || (o.data.is_empty() && addr == *b) {
                    return Some((*b, o));
                }
            }
        }
        None
    }
    pub fn bad(&self, st: &State, what: &str, addr: u64, n: u64) -> Stop {
        self.violation(st, format!("memory error: {what} of {n} bytes at {addr:#x}"))
    }
    pub fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(u64, &'a mut Obj)> {
        let Some((b, o)) = self.find(st, addr) else {
            return Err(self.bad(st, "write", addr, n));
        };
        if addr + n > b + o.data.len() as u64 {
            return Err(self.bad(st, "out-of-bounds write", addr, n));
        }
        if o.ro {
            return Err(self.bad(st, "write to constant", addr, n));
        }
        if !st.mem.contains_key(&b) {
            let o2 = o.clone();
            st.mem.insert(b, o2);
        }
        Ok((b, Rc::make_mut(st.mem.get_mut(&b).unwrap())))
    }
    pub fn rd(&mut self, st: &State, addr: u64, n: u64) -> R<Val> {
        let Some((b, o)) = self.find(st, addr) else {
            return Err(self.bad(st, "read", addr, n));
        };
        let off = (addr - b) as usize;
        if off + n as usize > o.data.len() {
            return Err(self.bad(st, "out-of-bounds read", addr, n));
        }
        if o.sym.is_empty() || !(0..n as usize).any(|i| o.sym.contains_key(&((off + i) as u32))) {
            let mut k = 0u128;
            for i in (0..n as usize).rev() {
                k = (k << 8) | o.data[off + i] as u128;
            }
            return Ok(Val::C(k));
        }
        let o = o.clone();
        let mut acc: Option<E> = None;
        for i in 0..n as usize {
            let b = match o.sym.get(&((off + i) as u32)) {
                Some(&e) => e,
                None => self.ar.c(8, o.data[off + i] as u128),
            };
            acc = Some(match acc {
                None => b,
                Some(a) => self.ar.concat(b, a),
            });
        }
        let e = acc.unwrap();
        Ok(self.v(e))
    }
    pub fn wr(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> R<()> {
        match v {
            Val::C(k) => {
                let (b, o) = self.obj_mut(st, addr, n)?;
                let off = (addr - b) as usize;
                for i in 0..n as usize {
                    o.data[off + i] = (k >> (8 * i)) as u8;
                }
                if !o.sym.is_empty() {
                    for i in 0..n as usize {
                        o.sym.remove(&((off + i) as u32));
                    }
                }
            }
            Val::S(e) => {
                let w = self.ar.w(*e);
                let full = self.ar.zext(*e, (n * 8) as u32);
                let _ = w;
                let bytes: Vec<E> = (0..n as u32).map(|i| self.ar.extract(full, i * 8, 8)).collect();
                let cs: Vec<Option<u128>> = bytes.iter().map(|b| self.ar.cval(*b)).collect();
                let (b, o) = self.obj_mut(st, addr, n)?;
                let off = (addr - b) as usize;
                for i in 0..n as usize {
                    match cs[i] {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym.remove(&((off + i) as u32));
                        }
                        None => {
                            o.sym.insert((off + i) as u32, bytes[i]);
                        }
                    }
                }
            }
            Val::A(_) => panic!("wr aggregate"),
        }
        Ok(())
    }
    pub fn load(&mut self, st: &State, ty: TyId, addr: u64) -> R<Val> {
        match self.m.types.t(ty).clone() {
            Ty::Struct(es, _) => {
                let mut v = vec![];
                for (i, t) in es.iter().enumerate() {
                    let (o, _) = self.m.types.field_off(ty, i as u64);
                    v.push(self.load(st, *t, addr + o)?);
                }
                Ok(Val::agg(v))
            }
            Ty::Arr(n, e) => {
                let sz = self.m.types.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, e, addr + i * sz)?);
                }
                Ok(Val::agg(v))
            }
            Ty::Vec(n, e) => {
                if self.m.types.bits(e) < 8 {
                    let n8 = (n as u64 + 7) / 8;
                    let x = self.rd(st, addr, n8)?;
                    let ew = self.m.types.bits(e);
                    let mut v = vec![];
                    for i in 0..n {
                        let xe = self.e(&x, (n8 * 8) as u32);
                        let b = self.ar.extract(xe, i * ew, ew);
                        v.push(self.v(b));
                    }
                    return Ok(Val::agg(v));
                }
                let sz = self.m.types.size(e);
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load(st, e, addr + i * sz)?);
                }
                Ok(Val::agg(v))
            }
            _ => {
                let w = self.m.types.bits(ty);
                let n = ((w + 7) / 8) as u64;
                let v = self.rd(st, addr, n)?;
                if w % 8 != 0 {
                    return Ok(match v {
                        Val::C(k) => Val::C(k & crate::expr::mask(w)),
                        Val::S(e) => {
                            let x = self.ar.extract(e, 0, w);
                            self.v(x)
                        }
                        v => v,
                    });
                }
                Ok(v)
            }
        }
    }
    pub fn store(&mut self, st: &mut State, ty: TyId, addr: u64, v: &Val) -> R<()> {
        match v {
            Val::A(vs) => {
                if let Ty::Vec(n, e) = self.m.types.t(ty).clone() {
                    if self.m.types.bits(e) < 8 {
                        let x = self.flat(ty, v);
                        return self.wr(st, addr, (n as u64 + 7) / 8, &x);
                    }
                }
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = self.m.types.field_off(ty, i as u64);
                    self.store(st, t, addr + o, x)?;
                }
                Ok(())
            }
            _ => {
                let w = self.m.types.bits(ty);
                self.wr(st, addr, ((w + 7) / 8) as u64, v)
            }
        }
    }
    pub fn rdbytes(&self, st: &State, addr: u64, n: u64) -> R<Vec<B>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let Some((b, o)) = self.find(st, addr) else {
            return Err(self.bad(st, "read", addr, n));
        };
        let off = (addr - b) as usize;
        if off + n as usize > o.data.len() {
            return Err(self.bad(st, "out-of-bounds read", addr, n));
        }
        Ok((0..n as usize)
            .map(|i| match if o.sym.is_empty() { None } else { o.sym.get(&((off + i) as u32)) } {
                Some(&e) => B::S(e),
                None => B::C(o.data[off + i]),
            })
            .collect())
    }
    pub fn wrbytes(&self, st: &mut State, addr: u64, v: &[B]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        let (b, o) = self.obj_mut(st, addr, v.len() as u64)?;
        let off = (addr - b) as usize;
        for (i, x) in v.iter().enumerate() {
            match x {
                B::C(c) => {
                    o.data[off + i] = *c;
                    if !o.sym.is_empty() {
                        o.sym.remove(&((off + i) as u32));
                    }
                }
                B::S(e) => {
                    o.sym.insert((off + i) as u32, *e);
                }
            }
        }
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let a = st.env.heap_top.next_multiple_of(align.max(16));
        st.env.heap_top = a + size.max(1) + 32;
        st.mem.insert(a, Rc::new(Obj::new(size.max(1), 2)));
        st.env.allocs += 1;
        a
    }
    pub fn salloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let a = st.env.stack_top.next_multiple_of(align.max(16));
        st.env.stack_top = a + size.max(1) + 16;
        st.mem.insert(a, Rc::new(Obj::new(size, 1)));
        a
    }
    pub fn tls(&mut self, st: &mut State, tmpl: u64) -> u64 {
        let Some(&(gi, size)) = self.gtls.get(&tmpl) else { return tmpl };
        let t = st.cur;
        if let Some(&a) = st.threads[t].tls.get(&gi) {
            return a;
        }
        let a = self.alloc(st, size, 16);
        let o = self.globs[&tmpl].clone();
        let mut o2 = (*o).clone();
        o2.ro = false;
        st.mem.insert(a, Rc::new(o2));
        st.threads[t].tls.insert(gi, a);
        a
    }
    /// Flatten a vector value to one integer.
    pub fn flat(&mut self, ty: TyId, v: &Val) -> Val {
        match v {
            Val::A(vs) => {
                let ew = match self.m.types.t(ty) {
                    Ty::Vec(_, e) => self.m.types.bits(*e),
                    _ => panic!("flat"),
                };
                let mut acc: Option<E> = None;
                for x in vs.iter() {
                    let e = self.e(x, ew);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ar.concat(e, a),
                    });
                }
                self.v(acc.unwrap())
            }
            v => v.clone(),
        }
    }

    // ---------------------------------------------------------------- running
    pub fn initial(&mut self, entry: &str) -> State {
        let f = *self.fidx.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let fr = self.frame(f, vec![], None, None);
        State {
            mem: BTreeMap::new(),
            threads: vec![Thread { frames: vec![fr], tls: HashMap::new(), status: Status::Run, dtors: vec![], keys: BTreeMap::new(), errno: 0, retval: 0, wdst: None, decided: false }],
            cur: 0,
            pc: Pc::default(),
            env: Env { heap_top: HBASE, stack_top: SBASE, next_key: 1, clock: 1_000_000_000_000, ..Env::default() },
            inputs: Rc::new(vec![]),
            sched: Rc::new(vec![]),
            steps: 0,
            forks: 0,
        }
    }
    pub fn frame(&mut self, f: u32, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) -> Frame {
        self.covered[f as usize] = true;
        let fun = &self.m.funcs[f as usize];
        let mut regs = vec![Val::C(0); fun.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if let Some(&r) = fun.params.get(i) {
                regs[r as usize] = a;
            }
        }
        Frame { f, bb: 0, ip: 0, regs, allocas: vec![], ret, normal, mark: 0 }
    }
    #[inline]
    pub fn op(&self, st: &State, o: Opd) -> Val {
        match o {
            Opd::R(r) => self.top(st).regs[r as usize].clone(),
            Opd::K(k) => self.kv[k as usize].clone(),
        }
    }
    #[inline]
    pub fn set(&self, st: &mut State, r: u32, v: Val) {
        let t = st.cur;
        st.threads[t].frames.last_mut().unwrap().regs[r as usize] = v;
    }
    /// Concrete address operand (forks when several are feasible).
    fn addr(&mut self, st: &mut State, o: Opd) -> R<u64> {
        let v = self.op(st, o);
        match v {
            Val::C(k) => Ok(k as u64),
            _ => {
                let k = self.conc(st, &v, 64)?;
                if let Opd::R(r) = o {
                    self.set(st, r, Val::C(k));
                }
                Ok(k as u64)
            }
        }
    }
    pub fn jump(&mut self, st: &mut State, to: u32) {
        let t = st.cur;
        let (f, from) = {
            let fr = st.threads[t].frames.last().unwrap();
            (fr.f, fr.bb)
        };
        let m: *const Module = &self.m;
        // SAFETY: the module is not mutated while executing.
        let b = unsafe { &(&(*m).funcs)[f as usize].blocks[to as usize] };
        let mut n = 0;
        let mut tmp = std::mem::take(&mut self.phi_tmp);
        tmp.clear();
        for ins in b {
            let Inst::Phi { dst, inc } = ins else { break };
            n += 1;
            let o = inc.iter().find(|x| x.1 == from).expect("phi edge").0;
            tmp.push((*dst, self.op(st, o)));
        }
        let fr = st.threads[t].frames.last_mut().unwrap();
        for (d, v) in tmp.drain(..) {
            fr.regs[d as usize] = v;
        }
        self.phi_tmp = tmp;
        fr.bb = to;
        fr.ip = n;
    }
    pub fn run(&mut self, mut st: State) {
        let base = st.steps;
        let stop = loop {
            let t = st.cur;
            match self.step(&mut st) {
                Ok(()) => {
                    st.steps += 1;
                    if st.cur == t {
                        st.threads[t].decided = false;
                    }
                    if st.steps > self.max_path_steps {
                        self.rep.truncated += 1;
                        break self.err(&st, "path step bound exceeded".into());
                    }
                }
                Err(s) => break s,
            }
        };
        self.rep.steps += st.steps - base;
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
        match stop {
            Stop::Done => {
                self.rep.paths += 1;
                for r in st.env.reached.iter() {
                    *self.rep.reached.entry(*r).or_default() += 1;
                }
                // keep a spread of paths for native validation: powers of two, and a few late ones
                let p = self.rep.paths;
                if p.is_power_of_two() || p % 5003 == 0 {
                    let s = self.sample(&st);
                    self.rep.samples.push(s);
                }
            }
            Stop::Assume => self.rep.killed += 1,
            Stop::Fork => {}
            Stop::Violation(m) => {
                self.rep.paths += 1;
                let ins = st.inputs.iter().map(|(e, w)| (self.eval_model(&st, *e), *w)).collect();
                let sch = st.sched.iter().map(|e| self.eval_model(&st, *e)).collect();
                if self.verbose {
                    eprintln!("VIOL {m}\n  inputs {}", self.sample(&st));
                    for f in st.threads[st.cur].frames.iter().rev() {
                        eprintln!("    at {} bb{} ip{}", self.m.funcs[f.f as usize].name, f.bb, f.ip);
                    }
                }
                self.rep.violations.push((m, ins, sch));
            }
            Stop::Error(m) => {
                if self.verbose {
                    eprintln!("ERR {m}");
                    for f in st.threads[st.cur].frames.iter().rev() {
                        eprintln!("    at {} bb{} ip{}", self.m.funcs[f.f as usize].name, f.bb, f.ip);
                    }
                }
                self.rep.errors.push(m)
            }
        }
    }
    /// One explored path: inputs, schedule, observations, witnesses (tab separated).
    pub fn sample(&self, st: &State) -> String {
        let ins: Vec<String> = st.inputs.iter().map(|(e, _)| format!("{:#x}", self.eval_model(st, *e))).collect();
        let sch: Vec<String> = st.sched.iter().map(|e| format!("{}", self.eval_model(st, *e))).collect();
        let obs: Vec<String> = st
            .env
            .obs
            .iter()
            .map(|v| {
                v.iter()
                    .map(|b| match b {
                        B::C(c) => format!("{c:02x}"),
                        B::S(e) => format!("{:02x}", self.eval_model(st, *e)),
                    })
                    .collect()
            })
            .collect();
        let rch: Vec<String> = st.env.reached.iter().map(|x| x.to_string()).collect();
        let ncons: usize = st.pc.comps.iter().map(|c| c.cons.len()).sum();
        format!("{}\t{}\t{}\t{}\t{}\t{}", ins.join(","), sch.join(","), obs.join(","), rch.join(","), ncons, st.steps)
    }
    pub fn explore(&mut self, st: State) {
        self.work.push(st);
        self.drain();
    }
    pub fn drain(&mut self) {
        while let Some(s) = self.work.pop() {
            if self.rep.violations.len() >= self.max_viol || self.rep.errors.len() >= 20 {
                self.work.clear();
                return;
            }
            if let Some(d) = self.deadline {
                if std::time::Instant::now() > d {
                    self.rep.errors.push(format!("time limit reached with {} states pending", self.work.len() + 1));
                    self.work.clear();
                    return;
                }
            }
            self.run(s);
        }
    }

    pub fn lanes(&mut self, ty: TyId) -> Option<(u32, u32)> {
        match self.m.types.t(ty) {
            Ty::Vec(n, e) => Some((*n, self.m.types.bits(*e))),
            _ => None,
        }
    }
    pub fn map2(&mut self, ty: TyId, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> Val) -> Val {
        match self.lanes(ty) {
            None => {
                let w = self.m.types.bits(ty);
                f(self, w, a, b)
            }
            Some((_, w)) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { panic!("vector operand") };
                let v = x.iter().zip(y.iter()).map(|(p, q)| f(self, w, p, q)).collect();
                Val::agg(v)
            }
        }
    }
    pub fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val, ffloat: bool, tfloat: bool) -> Val {
        let _ = (ffloat, tfloat);
        match op {
            CastOp::Bitcast | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::ZExt | CastOp::Trunc => match a {
                Val::C(k) => Val::C(k & crate::expr::mask(tw)),
                Val::S(e) => {
                    let r = if tw < fw {
                        self.ar.extract(*e, 0, tw)
                    } else {
                        self.ar.zext(*e, tw)
                    };
                    self.v(r)
                }
                _ => panic!("cast"),
            },
            CastOp::SExt => match a {
                Val::C(k) => Val::C(sext(*k, fw) as u128 & crate::expr::mask(tw)),
                Val::S(e) => {
                    let r = self.ar.sext(*e, tw);
                    self.v(r)
                }
                _ => panic!("cast"),
            },
            _ => {
                let o = match op {
                    CastOp::UiToFp => Op::UToF,
                    CastOp::SiToFp => Op::SToF,
                    CastOp::FpToUi => Op::FToU,
                    CastOp::FpToSi => Op::FToS,
                    _ => Op::FRound,
                };
                let x = self.e(a, fw);
                let n = self.ar.fp(o, tw, x, NONE);
                if let Val::C(_) = a {
                    let mut memo = HashMap::new();
                    return Val::C(self.ar.eval(n, &|_| 0, &mut memo));
                }
                self.v(n)
            }
        }
    }
    pub fn fpop(&mut self, o: Op, w: u32, rw: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(fbin(o, w, *x, *y));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let n = self.ar.fp(o, rw, x, y);
        self.v(n)
    }
    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let nan = |s: &mut Self, v: &Val| -> Val {
            match v {
                Val::C(k) => Val::C((if w == 64 { f64::from_bits(*k as u64).is_nan() } else { f32::from_bits(*k as u32).is_nan() }) as u128),
                Val::S(e) => {
                    let n = s.ar.fp(Op::FIsNan, 1, *e, NONE);
                    Val::S(n)
                }
                _ => panic!(),
            }
        };
        let base = |s: &mut Self, q: &str| -> Val {
            match q {
                "eq" => s.fpop(Op::FEq, w, 1, a, b),
                "lt" => s.fpop(Op::FLt, w, 1, a, b),
                "le" => s.fpop(Op::FLe, w, 1, a, b),
                "gt" => s.fpop(Op::FLt, w, 1, b, a),
                "ge" => s.fpop(Op::FLe, w, 1, b, a),
                _ => panic!("fcmp {q}"),
            }
        };
        let (na, nb) = (nan(self, a), nan(self, b));
        let uno = self.bin(BinOp::Or, 1, &na, &nb);
        match p {
            "ord" => self.bin(BinOp::Xor, 1, &uno, &Val::C(1)),
            "uno" => uno,
            "true" => Val::C(1),
            "false" => Val::C(0),
            "one" => {
                let x = base(self, "lt");
                let y = base(self, "gt");
                self.bin(BinOp::Or, 1, &x, &y)
            }
            "une" => {
                let x = base(self, "eq");
                self.bin(BinOp::Xor, 1, &x, &Val::C(1))
            }
            "ueq" => {
                let x = base(self, "eq");
                self.bin(BinOp::Or, 1, &x, &uno)
            }
            _ => {
                let x = base(self, &p[1..]);
                if p.starts_with('u') { self.bin(BinOp::Or, 1, &x, &uno) } else { x }
            }
        }
    }

    /// Execute one instruction of the current thread.
    fn step(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        let fr = st.threads[t].frames.last_mut().unwrap();
        let m: *const Module = &self.m;
        // SAFETY: the module is never mutated while executing.
        let f = unsafe { &(&(*m).funcs)[fr.f as usize] };
        let ins = &f.blocks[fr.bb as usize][fr.ip as usize];
        fr.ip += 1;
        match ins {
            Inst::Bin { op, ty, a, b, dst } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let op = *op;
                let r = match (&x, &y) {
                    _ if self.lanes(*ty).is_none() && self.m.types.bits(*ty) > 128 => self.wide(st, op, self.m.types.bits(*ty), &x, &y)?,
                    (Val::A(_), _) => self.map2(*ty, &x, &y, &mut |s, w, p, q| s.bin(op, w, p, q)),
                    _ => {
                        let w = self.m.types.bits(*ty);
                        self.bin(op, w, &x, &y)
                    }
                };
                self.set(st, *dst, r);
            }
            Inst::ICmp { p, ty, a, b, dst } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let p = *p;
                let r = match (&x, &y) {
                    (Val::A(_), _) => self.map2(*ty, &x, &y, &mut |s, w, u, v| s.icmp(p, w, u, v)),
                    _ => {
                        let w = self.m.types.bits(*ty);
                        self.icmp(p, w, &x, &y)
                    }
                };
                self.set(st, *dst, r);
            }
            Inst::Cast { op, from, to, a, dst } => {
                let mut x = self.op(st, *a);
                if let (CastOp::UiToFp, Val::S(e)) = (op, &x) {
                    x = Val::S(self.bounded(st, *e)?);
                }
                let r = match (self.lanes(*from), self.lanes(*to)) {
                    (None, None) => {
                        let (fw, tw) = (self.m.types.bits(*from), self.m.types.bits(*to));
                        if fw > 128 {
                            if *op != CastOp::Trunc || tw > 128 {
                                return Err(self.err(st, format!("cast from i{fw} to i{tw}")));
                            }
                            if let Val::A(v) = &x {
                                x = v[0].clone();
                            }
                        } else if tw > 128 {
                            if *op != CastOp::ZExt {
                                return Err(self.err(st, format!("cast from i{fw} to i{tw}")));
                            }
                            x = Val::C(self.conc(st, &x, fw)?);
                        }
                        self.cast1(*op, fw, tw, &x, false, false)
                    }
                    (Some((_, fw)), Some((_, tw))) if *op != CastOp::Bitcast || fw == tw => {
                        let Val::A(v) = &x else { panic!("vec cast") };
                        let r = v.iter().map(|p| self.cast1(*op, fw, tw, p, false, false)).collect();
                        Val::agg(r)
                    }
                    (lf, lt) => {
                        // bitcast between vector and scalar / other vector
                        let x = if lf.is_some() { self.flat(*from, &x) } else { x };
                        match lt {
                            None => x,
                            Some((n, w)) => {
                                let tot = n * w;
                                let e = self.e(&x, tot);
                                let v = (0..n)
                                    .map(|i| {
                                        let q = self.ar.extract(e, i * w, w);
                                        self.v(q)
                                    })
                                    .collect();
                                Val::agg(v)
                            }
                        }
                    }
                };
                self.set(st, *dst, r);
            }
            Inst::Load { ty, p, dst, atomic } => {
                if *atomic {
                    self.sched_point(st)?;
                    if st.cur != t {
                        return Ok(());
                    }
                }
                let pv = self.op(st, *p);
                if let Val::S(e) = pv {
                    if let Some(v) = self.sym_load(st, e, *ty)? {
                        self.set(st, *dst, v);
                        return Ok(());
                    }
                }
                let a = self.addr(st, *p)?;
                let v = self.load(st, *ty, a)?;
                self.set(st, *dst, v);
            }
            Inst::Store { ty, v, p, atomic } => {
                if *atomic {
                    self.sched_point(st)?;
                    if st.cur != t {
                        return Ok(());
                    }
                }
                let a = self.addr(st, *p)?;
                let x = self.op(st, *v);
                self.store(st, *ty, a, &x)?;
            }
            Inst::Gep { base, off, idx, dst } => {
                let b = self.op(st, *base);
                let mut acc = self.bin(BinOp::Add, 64, &b, &Val::C(*off as u64 as u128));
                for (o, w, sc) in idx {
                    let x = self.op(st, *o);
                    let x = self.cast1(if *w < 64 { CastOp::SExt } else { CastOp::Trunc }, *w, 64, &x, false, false);
                    let y = self.bin(BinOp::Mul, 64, &x, &Val::C(*sc as u128));
                    acc = self.bin(BinOp::Add, 64, &acc, &y);
                }
                self.set(st, *dst, acc);
            }
            Inst::Alloca { size, align, dst } => {
                let a = self.salloc(st, *size, *align);
                let fr = st.threads[t].frames.last_mut().unwrap();
                fr.allocas.push(a);
                fr.regs[*dst as usize] = Val::C(a as u128);
            }
            Inst::Select { ty, cty, c, a, b, dst } => {
                let cv = self.op(st, *c);
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let r = match (&cv, self.lanes(*cty)) {
                    (Val::A(cs), Some(_)) => {
                        let (Val::A(p), Val::A(q)) = (&x, &y) else { panic!("vec select") };
                        let w = self.lanes(*ty).unwrap().1;
                        let v = (0..cs.len()).map(|i| self.select(w, &cs[i], &p[i], &q[i])).collect();
                        Val::agg(v)
                    }
                    _ => {
                        let w = match self.m.types.t(*ty) {
                            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => self.m.types.bits(*ty),
                            _ => 0,
                        };
                        match (&cv, &x, &y) {
                            // keep pointers concrete: decide the condition instead of building an ite
                            (Val::S(ce), Val::C(p), Val::C(q)) if p != q && matches!(self.m.types.t(*ty), Ty::Ptr) && (*p > 4096 || *q > 4096) => {
                                let k = self.branch(st, *ce, 1)?;
                                Val::C(if k { *p } else { *q })
                            }
                            _ => self.pick(st, w, &cv, &x, &y),
                        }
                    }
                };
                self.set(st, *dst, r);
            }
            Inst::Phi { .. } => panic!("phi in the middle"),
            Inst::Br { t } => self.jump(st, *t),
            Inst::CBr { c, t, f } => {
                let v = self.op(st, *c);
                let k = match v {
                    Val::C(k) => k != 0,
                    Val::S(e) => self.branch(st, e, 1)?,
                    _ => panic!("cbr"),
                };
                self.jump(st, if k { *t } else { *f });
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.op(st, *v);
                match x {
                    Val::C(k) => {
                        let d = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                        self.jump(st, d);
                    }
                    Val::S(e) => {
                        if let Some(k) = self.known(st, e) {
                            let d = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                            self.jump(st, d);
                            return Ok(());
                        }
                        // group by target; test the group the current model is in first
                        let k = self.eval_model(st, e);
                        let d = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                        let mut cond = self.ar.c(1, 0);
                        if d == *def {
                            // none of the cases with another target
                            cond = self.ar.c(1, 1);
                            for (kc, l) in cases {
                                if *l != d {
                                    let c = self.ar.c(*w, *kc);
                                    let q = self.ar.eq(e, c);
                                    let nq = self.ar.not(q);
                                    cond = self.ar.and(cond, nq);
                                }
                            }
                        } else {
                            for (kc, l) in cases {
                                if *l == d {
                                    let c = self.ar.c(*w, *kc);
                                    let q = self.ar.eq(e, c);
                                    cond = self.ar.or(cond, q);
                                }
                            }
                        }
                        let r = self.branch(st, cond, 1)?;
                        debug_assert!(r);
                        self.jump(st, d);
                    }
                    _ => panic!("switch"),
                }
            }
            Inst::Ret { v } => {
                let r = v.as_ref().map(|o| self.op(st, *o));
                return self.ret(st, r);
            }
            Inst::Unreachable => return Err(self.violation(st, "reached unreachable code".into())),
            Inst::Call { callee, args, ret, dst, normal } => {
                let fi = match callee {
                    Callee::Fun(i) => *i,
                    Callee::Ext(i) => {
                        let av: Vec<Val> = args.iter().map(|a| self.op(st, a.1)).collect();
                        let (d, nrm) = (*dst, *normal);
                        return self.ext_call(st, *i, av, args, *ret, d, nrm);
                    }
                    Callee::Ind(o) => {
                        let a = self.addr(st, *o)?;
                        if a >= XBASE && a < GBASE {
                            let av: Vec<Val> = args.iter().map(|a| self.op(st, a.1)).collect();
                            let i = ((a - XBASE) / 16) as u32;
                            return self.ext_call(st, i, av, args, *ret, *dst, *normal);
                        }
                        let i = a.wrapping_sub(FBASE) / 16;
                        if a < FBASE || i as usize >= self.m.funcs.len() {
                            return Err(self.violation(st, format!("call through bad pointer {a:#x}")));
                        }
                        i as u32
                    }
                    Callee::Asm(s) => {
                        let av: Vec<Val> = args.iter().map(|a| self.op(st, a.1)).collect();
                        return self.asm_call(st, s, av, *ret, *dst);
                    }
                    Callee::Sym(_) => unreachable!(),
                };
                if self.is_panic[fi as usize] {
                    let n = short(&self.m.funcs[fi as usize].name);
                    return Err(self.violation(st, format!("panic ({n})")));
                }
                let av: Vec<Val> = args.iter().map(|a| self.op(st, a.1)).collect();
                if st.threads[t].frames.len() > 400 {
                    return Err(self.err(st, "call depth bound exceeded".into()));
                }
                let fr = self.frame(fi, av, *dst, *normal);
                st.threads[t].frames.push(fr);
            }
            Inst::ExtractValue { a, idx, dst } => {
                let mut v = self.op(st, *a);
                for i in idx {
                    let Val::A(x) = &v else { panic!("extractvalue") };
                    v = x[*i as usize].clone();
                }
                self.set(st, *dst, v);
            }
            Inst::InsertValue { a, aty, v, idx, dst } => {
                let base = self.op(st, *a);
                let base = match base {
                    Val::A(_) => base,
                    _ => self.cval(*aty, &Const::Zero),
                };
                let x = self.op(st, *v);
                fn ins(b: &Val, idx: &[u32], x: Val) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    let Val::A(v) = b else { panic!("insertvalue") };
                    let mut v2 = (**v).clone();
                    v2[idx[0] as usize] = ins(&v[idx[0] as usize], &idx[1..], x);
                    Val::agg(v2)
                }
                let r = ins(&base, idx, x);
                self.set(st, *dst, r);
            }
            Inst::ExtractElem { a, i, dst, .. } => {
                let iv = self.op(st, *i);
                let k = self.conc(st, &iv, 64)?;
                let Val::A(v) = self.op(st, *a) else { panic!("extractelement") };
                let r = v.get(k as usize).cloned().unwrap_or(Val::C(0));
                self.set(st, *dst, r);
            }
            Inst::InsertElem { a, v, i, dst, .. } => {
                let iv = self.op(st, *i);
                let k = self.conc(st, &iv, 64)?;
                let Val::A(b) = self.op(st, *a) else { panic!("insertelement") };
                let mut b = (*b).clone();
                b[k as usize] = self.op(st, *v);
                self.set(st, *dst, Val::agg(b));
            }
            Inst::Shuffle { a, b, n, mask, dst, .. } => {
                let (Val::A(x), Val::A(y), Val::A(mk)) = (self.op(st, *a), self.op(st, *b), self.op(st, *mask)) else { panic!("shuffle") };
                let v = mk
                    .iter()
                    .map(|q| {
                        let Val::C(k) = q else { panic!("shuffle mask") };
                        let k = *k as usize;
                        if k < *n as usize { x[k].clone() } else { y.get(k - *n as usize).cloned().unwrap_or(Val::C(0)) }
                    })
                    .collect();
                self.set(st, *dst, Val::agg(v));
            }
            Inst::Rmw { op, ty, p, v, dst } => {
                self.sched_point(st)?;
                if st.cur != t {
                    return Ok(());
                }
                let a = self.addr(st, *p)?;
                let old = self.load(st, *ty, a)?;
                let x = self.op(st, *v);
                let w = self.m.types.bits(*ty);
                let new = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Add => self.bin(BinOp::Add, w, &old, &x),
                    RmwOp::Sub => self.bin(BinOp::Sub, w, &old, &x),
                    RmwOp::And => self.bin(BinOp::And, w, &old, &x),
                    RmwOp::Or => self.bin(BinOp::Or, w, &old, &x),
                    RmwOp::Xor => self.bin(BinOp::Xor, w, &old, &x),
                    RmwOp::Nand => {
                        let q = self.bin(BinOp::And, w, &old, &x);
                        self.bin(BinOp::Xor, w, &q, &Val::C(crate::expr::mask(w)))
                    }
                    RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                        let p = match op {
                            RmwOp::UMax => Pred::Ugt,
                            RmwOp::UMin => Pred::Ult,
                            RmwOp::Max => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(p, w, &old, &x);
                        self.select(w, &c, &old, &x)
                    }
                };
                self.store(st, *ty, a, &new)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { ty, p, c, n, dst } => {
                self.sched_point(st)?;
                if st.cur != t {
                    return Ok(());
                }
                let a = self.addr(st, *p)?;
                let old = self.load(st, *ty, a)?;
                let (cv, nv) = (self.op(st, *c), self.op(st, *n));
                let w = self.m.types.bits(*ty);
                let eq = self.icmp(Pred::Eq, w, &old, &cv);
                let k = match &eq {
                    Val::C(k) => *k != 0,
                    Val::S(e) => self.branch(st, *e, 1)?,
                    _ => panic!(),
                };
                if k {
                    self.store(st, *ty, a, &nv)?;
                }
                self.set(st, *dst, Val::agg(vec![old, Val::C(k as u128)]));
            }
            Inst::Fence => {}
            Inst::Freeze { a, dst } => {
                let v = self.op(st, *a);
                self.set(st, *dst, v);
            }
            Inst::FBin { op, ty, a, b, dst } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let o = match op {
                    FOp::Add => Op::FAdd,
                    FOp::Sub => Op::FSub,
                    FOp::Mul => Op::FMul,
                    FOp::Div => Op::FDiv,
                    FOp::Rem => return Err(self.err(st, "frem".into())),
                };
                let r = self.map2(*ty, &x, &y, &mut |s, w, p, q| s.fpop(o, w, w, p, q));
                self.set(st, *dst, r);
            }
            Inst::FNeg { ty, a, dst } => {
                let x = self.op(st, *a);
                let w = self.m.types.bits(*ty);
                let r = self.bin(BinOp::Xor, w, &x, &Val::C(1u128 << (w - 1)));
                self.set(st, *dst, r);
            }
            Inst::FCmp { p, ty, a, b, dst } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let w = self.m.types.bits(*ty);
                let r = self.fcmp(p, w, &x, &y);
                self.set(st, *dst, r);
            }
            Inst::LandingPad | Inst::Resume => return Err(self.violation(st, "unwinding reached".into())),
        }
        Ok(())
    }

    /// Load through a symbolic address: constant tables become ite chains over the feasible index range.
    fn sym_load(&mut self, st: &mut State, e: E, ty: TyId) -> R<Option<Val>> {
        let i = self.ar.info[e as usize];
        let w = match self.m.types.t(ty) {
            Ty::Int(_) | Ty::Ptr => self.m.types.bits(ty),
            _ => return Ok(None),
        };
        if matches!(self.m.types.t(ty), Ty::Ptr) || w % 8 != 0 {
            return Ok(None);
        }
        if self.known(st, e).is_some() {
            return Ok(None);
        }
        let n = (w / 8) as u64;
        let (mut lo, mut hi) = (i.lo as u64, i.hi as u64);
        if i.hi - i.lo > 8192 {
            // the path may confine the address to one small object
            let k = self.eval_model(st, e) as u64;
            let Some((b, o)) = self.find(st, k) else { return Ok(None) };
            let len = o.data.len() as u64;
            if len > 8192 || len < n || k + n > b + len {
                return Ok(None);
            }
            let base = self.ar.c(64, b as u128);
            let off = self.ar.bin(Op::Sub, e, base);
            let lim = self.ar.c(64, (len - n) as u128);
            let oob = self.ar.bin(Op::Ult, lim, off);
            if self.may(st, oob)?.is_some() {
                return Ok(None);
            }
            let sd = self.stride(e).max(1);
            if !sd.is_power_of_two() {
                return Ok(None);
            }
            lo = b + (k - b) % sd;
            hi = b + len - n;
        }
        let Some((b, o)) = self.find(st, lo) else { return Ok(None) };
        let o = o.clone();
        let end = b + o.data.len() as u64;
        if !o.sym.is_empty() && o.sym.keys().any(|k| b + *k as u64 >= lo && b + (*k as u64) < hi + n) && hi - lo > 64 {
            return Ok(None);
        }
        // bounds
        if hi + n > end {
            let lim = self.ar.c(64, (end - n) as u128);
            let oob = self.ar.bin(Op::Ult, lim, e);
            if self.branch(st, oob, 1)? {
                return Err(self.bad(st, "out-of-bounds read (symbolic)", lo, n));
            }
        }
        // stride from the structure of the address expression
        let stride = self.stride(e).max(1);
        let mut ents: Vec<(u64, Val)> = vec![];
        let mut a = lo;
        while a <= hi && a + n <= end {
            let v = self.rd(st, a, n)?;
            ents.push((a, v));
            a += stride;
        }
        // group runs of equal values and build a balanced ite over ranges
        let mut runs: Vec<(u64, E)> = vec![];
        for (a, v) in ents {
            let x = self.e(&v, w);
            if runs.last().is_none_or(|r| r.1 != x) {
                runs.push((a, x));
            }
        }
        if runs.len() > 600 {
            return Ok(None);
        }
        fn build(s: &mut Eng, e: E, r: &[(u64, E)]) -> E {
            if r.len() == 1 {
                return r[0].1;
            }
            let m = r.len() / 2;
            let lo = build(s, e, &r[..m]);
            let hi = build(s, e, &r[m..]);
            let k = s.ar.c(64, r[m].0 as u128);
            let c = s.ar.bin(Op::Ult, e, k);
            s.ar.ite(c, lo, hi)
        }
        let r = build(self, e, &runs);
        Ok(Some(self.v(r)))
    }
    fn stride(&self, e: E) -> u64 {
        let n = self.ar.n[e as usize];
        match n.op {
            Op::Add if self.ar.cval(n.b).is_some() => self.stride(n.a),
            Op::Shl => self.ar.cval(n.b).map_or(1, |k| 1 << k),
            Op::Mul => self.ar.cval(n.b).map_or(1, |k| k as u64),
            Op::Concat if self.ar.cval(n.b) == Some(0) => 1 << self.ar.w(n.b),
            Op::ZExt => self.stride(n.a),
            _ => 1,
        }
    }

    pub fn ret(&mut self, st: &mut State, r: Option<Val>) -> R<()> {
        let t = st.cur;
        let fr = st.threads[t].frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.remove(a);
        }
        if let Some(a) = fr.allocas.first() {
            // stack addresses are reused only when this thread is the sole one
            if st.threads.len() == 1 {
                st.env.stack_top = *a;
            }
        }
        if st.threads[t].frames.is_empty() {
            return self.thread_exit(st, r);
        }
        let up = st.threads[t].frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (fr.ret, r) {
            up.regs[d as usize] = v;
        }
        if let Some(n) = fr.normal {
            self.jump(st, n);
        }
        Ok(())
    }
}

pub fn bop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}

/// Short readable form of a v0-mangled name: the identifiers, joined.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let Ok(l) = n[s..i].parse::<usize>() else { break };
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if i + l > b.len() {
                break;
            }
            out.push(n[i..i + l].to_string());
            i += l;
        } else if b[i] == b's' || b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // disambiguator: s<base62>_
            let st = if b[i] == b's' { i } else { i + 1 };
            if let Some(p) = n[st..].find('_') {
                i = st + p + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}
