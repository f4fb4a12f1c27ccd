//! z3 (C API) back end.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CString, c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Ptr = *mut c_void;

#[link(name = "z3")]
unsafe extern "C" {
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_config() -> Ptr;
    fn Z3_mk_context(c: Ptr) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_get_estimated_alloc_size() -> u64;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_simple_solver(c: Ctx) -> Ptr;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Ptr) -> Ptr;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Ptr;
    fn Z3_solver_inc_ref(c: Ctx, s: Ptr);
    fn Z3_solver_dec_ref(c: Ctx, s: Ptr);
    fn Z3_solver_push(c: Ctx, s: Ptr);
    fn Z3_solver_pop(c: Ctx, s: Ptr, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Ptr, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Ptr) -> Ptr;
    fn Z3_solver_set_params(c: Ctx, s: Ptr, p: Ptr);
    fn Z3_solver_to_string(c: Ctx, s: Ptr) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> Ptr;
    fn Z3_params_inc_ref(c: Ctx, p: Ptr);
    fn Z3_params_set_uint(c: Ctx, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Ptr);
    fn Z3_model_dec_ref(c: Ctx, m: Ptr);
    fn Z3_model_eval(c: Ctx, m: Ptr, a: Ast, comp: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Ptr;
    fn Z3_mk_bool_sort(c: Ctx) -> Ptr;
    fn Z3_mk_const(c: Ctx, s: Ptr, t: Ptr) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Ptr) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, i: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_get_full_version() -> *const c_char;
    // floating point
    fn Z3_mk_fpa_sort_single(c: Ctx) -> Ptr;
    fn Z3_mk_fpa_sort_double(c: Ctx) -> Ptr;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Ptr) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Ptr) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Ptr) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Ptr) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time_s: f64,
    pub max_s: f64,
}

pub struct Solver {
    c: Ctx,
    s: Ptr,
    zb: HashMap<E, Ast>,
    zv: HashMap<E, Ast>,
    zf: HashMap<E, Ast>,
    cache: HashMap<Vec<E>, (Res, Vec<(u32, u128)>)>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    pub slow: f64,
}

impl Solver {
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            Z3_global_param_set(c"memory_max_size".as_ptr(), c"3500".as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut me = Solver { c, s, zb: HashMap::new(), zv: HashMap::new(), zf: HashMap::new(), cache: HashMap::new(), stats: Stats::default(), timeout_ms, dump: None, slow: 0.0 };
            me.set_timeout(s, timeout_ms.min(3000));
            me.slow = 1.0;
            me
        }
    }
    /// A fresh context, once the old one has grown (terms are rebuilt on demand).
    pub fn renew(&mut self, always: bool) {
        let big = unsafe { Z3_get_estimated_alloc_size() } > 600 << 20;
        if !big && !always {
            return;
        }
        let mut n = Solver::new(self.timeout_ms);
        if big {
            unsafe { Z3_del_context(self.c) };
        }
        std::mem::swap(&mut n.cache, &mut self.cache);
        if !always {
            n.stats = self.stats.clone();
        }
        *self = n;
    }
    fn set_timeout(&self, s: Ptr, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            let sym = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, sym, ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn num(&self, k: u128, w: u32) -> Ast {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
        }
    }
    fn keep(&self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    /// The floating-point term of a bit pattern; operations stay floating point throughout.
    fn fp(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.zf.get(&e) {
            return a;
        }
        let n = ar.n[e as usize];
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            let s = if w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let r = Z3_mk_fpa_rne(c);
                    match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, r, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, r, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, r, a, b),
                        _ => Z3_mk_fpa_div(c, r, a, b),
                    }
                }
                Op::FRound => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, s)
                }
                Op::FRna => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), a)
                }
                Op::UToF => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, s)
                }
                Op::SToF => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, s)
                }
                Op::Ite => {
                    let (i, a, b) = (self.boolean(ar, n.a), self.fp(ar, n.b), self.fp(ar, n.c));
                    Z3_mk_ite(c, i, a, b)
                }
                _ => {
                    let b = self.bv(ar, e);
                    Z3_mk_fpa_to_fp_bv(c, b, s)
                }
            }
        };
        let r = self.keep(r);
        self.zf.insert(e, r);
        r
    }
    pub fn boolean(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.zb.get(&e) {
            return a;
        }
        let n = ar.n[e as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Var => {
                    let nm = CString::new(ar.var_names[n.k as usize].as_str()).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bool_sort(c))
                }
                Op::And | Op::Mul => {
                    let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor | Op::Add | Op::Sub => {
                    let a = self.boolean(ar, n.a);
                    if ar.cval(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.boolean(ar, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Ite => {
                    let (i, a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c));
                    Z3_mk_ite(c, i, a, b)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    let x = Z3_mk_extract(c, n.k as u32, n.k as u32, a);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
                Op::FLt | Op::FLe | Op::FEq => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    match n.op {
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        Op::FLe => Z3_mk_fpa_leq(c, a, b),
                        _ => Z3_mk_fpa_eq(c, a, b),
                    }
                }
                Op::FIsNan => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_is_nan(c, a)
                }
                _ => {
                    let x = self.bv_op(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        self.zb.insert(e, r);
        r
    }
    fn bv(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.zv.get(&e) {
            return a;
        }
        let n = ar.n[e as usize];
        let r = unsafe {
            if n.w == 1 && n.op != Op::Const {
                let b = self.boolean(ar, e);
                let (one, zero) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_ite(self.c, b, one, zero)
            } else {
                self.bv_op(ar, e)
            }
        };
        let r = self.keep(r);
        self.zv.insert(e, r);
        r
    }
    fn bv_op(&mut self, ar: &Arena, e: E) -> Ast {
        let n = ar.n[e as usize];
        let c = self.c;
        let w = n.w as u32;
        unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Var => {
                    let nm = CString::new(ar.var_names[n.k as usize].as_str()).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                Op::Ite => {
                    let (i, a, b) = (self.boolean(ar, n.a), self.bv(ar, n.b), self.bv(ar, n.c));
                    Z3_mk_ite(c, i, a, b)
                }
                Op::Concat => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                Op::ZExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRound | Op::FRna | Op::UToF | Op::SToF => {
                    let x = self.fp(ar, e);
                    Z3_mk_fpa_to_ieee_bv(c, x)
                }
                Op::FToU => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, w)
                }
                Op::FToS => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, w)
                }
                op => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => panic!("bv {op:?}"),
                    }
                }
            }
        }
    }

    /// Satisfiability of the conjunction; returns values for `vars`.
    pub fn check(&mut self, ar: &Arena, cons: &[E], vars: &[u32]) -> (Res, Vec<(u32, u128)>) {
        let mut key: Vec<E> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some((r, m)) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return (*r, m.clone());
        }
        let t0 = Instant::now();
        let asts: Vec<Ast> = key.iter().map(|&e| self.boolean(ar, e)).collect();
        let mut res;
        let mut model = vec![];
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &a in &asts {
                Z3_solver_assert(self.c, self.s, a);
            }
            res = self.run(self.s, ar, vars, &mut model);
            if res == Res::Unknown {
                let k = CString::new("QF_BV").unwrap();
                let has_fp = key.iter().any(|&e| has_fp(ar, e));
                let k2 = CString::new("QF_FPBV").unwrap();
                let s2 = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, if has_fp { k2.as_ptr() } else { k.as_ptr() }));
                Z3_solver_inc_ref(self.c, s2);
                self.set_timeout(s2, self.timeout_ms);
                for &a in &asts {
                    Z3_solver_assert(self.c, s2, a);
                }
                if let Some(p) = &self.dump {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s2));
                    let _ = std::fs::write(format!("{p}/q{}.smt2", self.stats.queries), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s.to_string_lossy()));
                }
                res = self.run(s2, ar, vars, &mut model);
                Z3_solver_dec_ref(self.c, s2);
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time_s += dt;
        if dt > self.stats.max_s {
            self.stats.max_s = dt;
        }
        match res {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if res != Res::Unknown {
            self.cache.insert(key, (res, model.clone()));
        }
        (res, model)
    }
    unsafe fn run(&mut self, s: Ptr, ar: &Arena, vars: &[u32], model: &mut Vec<(u32, u128)>) -> Res {
        unsafe {
            match Z3_solver_check(self.c, s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    for &v in vars {
                        let w = ar.var_w[v as usize];
                        let nm = CString::new(ar.var_names[v as usize].as_str()).unwrap();
                        let sort = if w == 1 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w) };
                        let a = self.keep(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), sort));
                        let mut out: Ast = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, a, true, &mut out) {
                            panic!("model eval");
                        }
                        self.keep(out);
                        let val = if w == 1 {
                            (Z3_get_bool_value(self.c, out) == 1) as u128
                        } else {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, out));
                            s.to_str().unwrap().parse::<u128>().unwrap()
                        };
                        model.push((v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        }
    }
}
fn has_fp(ar: &Arena, e: E) -> bool {
    let n = &ar.n[e as usize];
    if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq | Op::FIsNan | Op::FRound | Op::FRna | Op::UToF | Op::SToF | Op::FToU | Op::FToS) {
        return true;
    }
    [n.a, n.b, n.c].iter().any(|&x| x != NONE && has_fp(ar, x))
}
