//! Exact rewriting of conditions that are hard to bit-blast, before they reach the solver:
//! comparisons of quotients become comparisons of products, and predicates over one
//! floating-point ratio of integers become integer comparisons at the rounding thresholds.
use crate::exec::*;
use crate::expr::*;
use std::collections::{BTreeSet, HashMap};

const INF: u64 = 0x7ff0_0000_0000_0000;
const NAN: u64 = 0x7ff8_0000_0000_0000;
/// The most values of a rounded quantity that are enumerated.
const ENUM: u128 = 20_000;
/// The variable standing for the ratio.
const Q: &str = "ratio";

#[derive(Clone, Copy, PartialEq)]
enum Mono {
    Const,
    Inc,
}

#[derive(Default)]
pub struct Lower {
    memo: HashMap<E, E>,
    ratio: HashMap<E, Option<Option<E>>>,
    evals: HashMap<E, HashMap<u64, u128>>,
    mono: HashMap<E, Option<Mono>>,
    breaks: HashMap<E, Option<BTreeSet<u64>>>,
    pub count: u64,
    /// case splits left for the condition at hand, and the depth of calls
    fuel: u32,
    depth: u32,
}

fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// The simplest fraction p/q that separates the fractions with denominators up to `n` below
/// num/den (or up to it when `strict`) from those above, in the sense that for every such
/// fraction x: x >= num/den (x > num/den when strict) iff x >= p/q.
fn separator(num: u128, den: u128, strict: bool, n: u128) -> Option<(u128, u128)> {
    // membership: "above" is x >= m, or x > m
    let above = |p: u128, q: u128| -> Option<bool> {
        let (l, r) = (p.checked_mul(den)?, num.checked_mul(q)?);
        Some(if strict { l > r } else { l >= r })
    };
    if above(0, 1)? {
        return Some((0, 1));
    }
    // Stern-Brocot: lo is below, hi (possibly 1/0) is above; neighbours throughout
    let (mut lp, mut lq, mut hp, mut hq) = (0u128, 1u128, 1u128, 0u128);
    loop {
        if lq + hq > n {
            break;
        }
        // move hi towards lo as far as possible: lo*k + hi stays above
        let run = |fix: (u128, u128), mv: (u128, u128), want: bool| -> Option<u128> {
            let ok = |k: u128| -> Option<bool> {
                let q = fix.1.checked_mul(k)?.checked_add(mv.1)?;
                if q > n {
                    return Some(false);
                }
                let p = fix.0.checked_mul(k)?.checked_add(mv.0)?;
                Some(above(p, q)? == want)
            };
            let mut b = 1u128;
            if !ok(1)? {
                return Some(0);
            }
            while b < (1 << 60) && ok(b * 2)? {
                b *= 2;
            }
            let (mut l, mut h) = (b, b * 2);
            while l + 1 < h {
                let m = (l + h) / 2;
                if ok(m)? { l = m } else { h = m }
            }
            Some(l)
        };
        let k = run((hp, hq), (lp, lq), false);
        let mut moved = false;
        // with hi = 1/0 the denominator never grows; the bound is the number itself
        let k = if hq == 0 { Some(num / den - u128::from(!strict && num % den == 0)) } else { k };
        let k = k?;
        if k > 0 {
            lp += hp * k;
            lq += hq * k;
            moved = true;
        }
        let k = run((lp, lq), (hp, hq), true)?;
        if k > 0 {
            hp += lp * k;
            hq += lq * k;
            moved = true;
        }
        if !moved {
            break;
        }
    }
    if hq == 0 {
        return None;
    }
    // the simplest fraction in (lo, hi]
    let (mut ap, mut aq, mut bp, mut bq) = (0u128, 1u128, 1u128, 0u128);
    loop {
        let (mp, mq) = (ap + bp, aq + bq);
        let gt_lo = mp.checked_mul(lq)? > lp.checked_mul(mq)?;
        let le_hi = mp.checked_mul(hq)? <= hp.checked_mul(mq)?;
        if gt_lo && le_hi {
            return Some((mp, mq));
        }
        if gt_lo {
            // too big: move b towards a by whole steps
            let mut k = 1u128;
            while {
                let (p, q) = (ap * (k * 2) + bp, aq * (k * 2) + bq);
                p.checked_mul(hq)? > hp.checked_mul(q)?
            } {
                k *= 2;
            }
            bp += ap * k;
            bq += aq * k;
        } else {
            let mut k = 1u128;
            while {
                let (p, q) = (ap + bp * (k * 2), aq + bq * (k * 2));
                p.checked_mul(lq)? <= lp.checked_mul(q)?
            } {
                k *= 2;
            }
            ap += bp * k;
            aq += bq * k;
        }
    }
}

impl Eng {
    /// The rewritten condition (equivalent for every value of the variables).
    pub fn lower(&mut self, e: E) -> E {
        if !self.ar.hard(e) {
            return e;
        }
        if let Some(&r) = self.low.memo.get(&e) {
            return r;
        }
        if self.low.depth == 0 {
            self.low.fuel = 500;
        }
        self.low.depth += 1;
        let r = self.lower1(e);
        self.low.depth -= 1;
        if r != e {
            self.low.count += 1;
        }
        self.low.memo.insert(e, r);
        r
    }
    fn lower1(&mut self, e: E) -> E {
        let n = self.ar.n[e as usize];
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.lower(n.a), self.lower(n.b));
                return self.ar.bin(n.op, a, b);
            }
            Op::Eq if self.ar.w(n.a) == 1 => {
                let (a, b) = (self.lower(n.a), self.lower(n.b));
                return self.ar.bin(n.op, a, b);
            }
            Op::Ite => {
                let (a, b, c) = (self.lower(n.a), self.lower(n.b), self.lower(n.c));
                return self.ar.ite(a, b, c);
            }
            _ => {}
        }
        if let Some(r) = self.quotient(e, n) {
            return self.lower(r);
        }
        if let Some(r) = self.ratio_pred(e) {
            return r;
        }
        // a case split inside a floating-point term moves outside the predicate
        let mut seen = BTreeSet::new();
        if !self.ar.info[e as usize].fp {
            return e;
        }
        if self.low.fuel == 0 {
            return e;
        }
        if let Some(x) = self.find_split(e, &mut seen) {
            self.low.fuel -= 1;
            if self.low.fuel == 0 && std::env::var("SE_DEBUG").is_ok() {
                eprintln!("too many case splits in {}", self.ar.show(e, 40));
            }
            let n = self.ar.n[x as usize];
            let mut m = HashMap::from([(x, n.b)]);
            let a = self.rebuild(e, &mut m);
            let mut m = HashMap::from([(x, n.c)]);
            let b = self.rebuild(e, &mut m);
            let (c, a, b) = (self.lower(n.a), self.lower(a), self.lower(b));
            return self.ar.ite(c, a, b);
        }
        e
    }
    fn is_fp(op: Op) -> bool {
        matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq | Op::FIsNan | Op::FRound | Op::FRna | Op::UToF | Op::SToF | Op::FToU | Op::FToS)
    }
    /// A choice between floating-point terms whose condition has no floating point.
    fn find_split(&self, e: E, seen: &mut BTreeSet<E>) -> Option<E> {
        if !self.ar.hard(e) || !seen.insert(e) {
            return None;
        }
        let n = self.ar.n[e as usize];
        let two = |x: E| self.ar.cval(x).is_some();
        if n.op == Op::Ite && n.w > 1 && two(n.b) && two(n.c) {
            return Some(e);
        }
        if n.op == Op::Ite && !self.ar.hard(n.a) && [n.b, n.c].iter().any(|&x| Self::is_fp(self.ar.n[x as usize].op)) {
            return Some(e);
        }
        [n.a, n.b, n.c].iter().filter(|c| **c != NONE).find_map(|&c| self.find_split(c, seen))
    }
    fn rebuild(&mut self, e: E, memo: &mut HashMap<E, E>) -> E {
        if !self.ar.hard(e) && !memo.contains_key(&e) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.ar.n[e as usize];
        let w = n.w as u32;
        let [a, b, c] = [n.a, n.b, n.c].map(|x| if x == NONE { NONE } else { self.rebuild(x, memo) });
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Ite => self.ar.ite(a, b, c),
            Op::Extract => self.ar.extract(a, n.k as u32, w),
            Op::ZExt => self.ar.zext(a, w),
            Op::SExt => self.ar.sext(a, w),
            Op::Concat => self.ar.concat(a, b),
            o if Self::is_fp(o) => self.ar.fp(o, w, a, b),
            o => self.ar.bin(o, a, b),
        };
        memo.insert(e, r);
        r
    }

    // ---------------------------------------------------------------- quotients
    fn quotient(&mut self, _e: E, n: Node) -> Option<E> {
        if !matches!(n.op, Op::Eq | Op::Ult | Op::Ule) {
            return None;
        }
        let (ka, kb) = (self.ar.cval(n.a), self.ar.cval(n.b));
        let (u, k, left) = match (ka, kb) {
            (None, Some(k)) => (n.a, k, true),
            (Some(k), None) => (n.b, k, false),
            _ => return None,
        };
        let mut u = u;
        // zext(x / y) compares like x / y when the constant fits
        let mut un = self.ar.n[u as usize];
        if un.op == Op::ZExt {
            u = un.a;
            un = self.ar.n[u as usize];
        }
        if un.op != Op::UDiv {
            return None;
        }
        let w = un.w as u32;
        let m = mask(w);
        let (x, y) = (un.a, un.b);
        // x / y >= j  iff  x >= j * y (y != 0); j beyond the range: never
        let ge = |s: &mut Eng, j: Option<u128>| -> Option<E> {
            let Some(j) = j else { return Some(s.ar.c(1, 0)) };
            if j == 0 {
                return Some(s.ar.c(1, 1));
            }
            if j > m {
                return Some(s.ar.c(1, 0));
            }
            let yh = s.ar.info[y as usize].hi;
            let jb = 128 - j.leading_zeros();
            let need = jb + (128 - yh.leading_zeros());
            let ww = need.max(w);
            if ww > 128 {
                return None;
            }
            let (xe, ye) = (s.ar.zext(x, ww), s.ar.zext(y, ww));
            let jc = s.ar.c(ww, j);
            let p = s.ar.bin(Op::Mul, ye, jc);
            Some(s.ar.bin(Op::Ule, p, xe))
        };
        let nz = match n.op {
            Op::Eq => {
                let a = ge(self, Some(k))?;
                let b = ge(self, k.checked_add(1))?;
                let b = self.ar.not(b);
                self.ar.and(a, b)
            }
            // u < k, u <= k, k < u, k <= u
            Op::Ult if left => {
                let a = ge(self, Some(k))?;
                self.ar.not(a)
            }
            Op::Ule if left => {
                let a = ge(self, k.checked_add(1))?;
                self.ar.not(a)
            }
            Op::Ult => ge(self, k.checked_add(1))?,
            _ => ge(self, Some(k))?,
        };
        // division by zero yields all ones
        let z = Arena::fold(n.op, 128, if left { m } else { k }, if left { k } else { m });
        let zc = self.ar.c(1, z);
        let y0 = self.ar.c(w, 0);
        let is0 = self.ar.eq(y, y0);
        Some(self.ar.ite(is0, zc, nz))
    }
    /// Truncated quotients that provably fit are replaced by the quotients themselves.
    pub fn narrow(&mut self, st: &State, e: E) -> R<E> {
        if !self.ar.hard(e) {
            return Ok(e);
        }
        let mut found = vec![];
        let mut seen = BTreeSet::new();
        self.find_narrow(e, &mut found, &mut seen);
        let mut e = e;
        for x in found {
            let n = self.ar.n[x as usize];
            let w = self.ar.w(n.a);
            let k = self.ar.c(w, mask(n.w as u32));
            let big = self.ar.bin(Op::Ult, k, n.a);
            let big = self.lower(big);
            if self.may(st, big)?.is_none() {
                // extract(u) == u here: compare at full width
                let mut memo = HashMap::new();
                e = self.widen(e, x, n.a, &mut memo);
            }
        }
        Ok(e)
    }
    /// The same value, in a form whose range is visibly below 2^53 when the path implies it.
    pub fn bounded(&mut self, st: &State, e: E) -> R<E> {
        let w = self.ar.w(e);
        if self.ar.info[e as usize].hi < 1 << 53 || w <= 53 {
            return Ok(e);
        }
        let k = self.ar.c(w, (1 << 53) - 1);
        let big = self.ar.bin(Op::Ult, k, e);
        if self.may(st, big)?.is_some() {
            return Ok(e);
        }
        let l = self.ar.extract(e, 0, 53);
        Ok(self.ar.zext(l, w))
    }
    fn find_narrow(&self, e: E, out: &mut Vec<E>, seen: &mut BTreeSet<E>) {
        if !self.ar.hard(e) || !seen.insert(e) {
            return;
        }
        let n = self.ar.n[e as usize];
        if n.op == Op::Extract && n.k == 0 && self.ar.n[n.a as usize].op == Op::UDiv && n.w > 1 {
            out.push(e);
            return;
        }
        for c in [n.a, n.b, n.c] {
            if c != NONE {
                self.find_narrow(c, out, seen);
            }
        }
    }
    /// Replace comparisons of `x` (the low bits of `u`, which fits) by comparisons of `u`.
    fn widen(&mut self, e: E, x: E, u: E, memo: &mut HashMap<E, E>) -> E {
        if !self.ar.hard(e) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.ar.n[e as usize];
        let uw = self.ar.w(u);
        let mut r = e;
        if matches!(n.op, Op::Eq | Op::Ult | Op::Ule) {
            let base = |s: &Self, mut y: E| {
                if s.ar.n[y as usize].op == Op::ZExt {
                    y = s.ar.n[y as usize].a;
                }
                y == x
            };
            if base(self, n.a) {
                if let Some(k) = self.ar.cval(n.b) {
                    let kc = self.ar.c(uw, k);
                    r = self.ar.bin(n.op, u, kc);
                }
            } else if base(self, n.b) {
                if let Some(k) = self.ar.cval(n.a) {
                    let kc = self.ar.c(uw, k);
                    r = self.ar.bin(n.op, kc, u);
                }
            }
        } else if n.w == 1 {
            match n.op {
                Op::And | Op::Or | Op::Xor => {
                    let (a, b) = (self.widen(n.a, x, u, memo), self.widen(n.b, x, u, memo));
                    r = self.ar.bin(n.op, a, b);
                }
                Op::Ite => {
                    let (a, b, c) = (self.widen(n.a, x, u, memo), self.widen(n.b, x, u, memo), self.widen(n.c, x, u, memo));
                    r = self.ar.ite(a, b, c);
                }
                _ => {}
            }
        }
        memo.insert(e, r);
        r
    }

    // ---------------------------------------------------------------- ratios
    /// The only ratio through which every variable of `e` passes: None when there is none or several.
    fn the_ratio(&mut self, e: E) -> Option<Option<E>> {
        if self.ar.vars(e) == 0 {
            return Some(None);
        }
        if let Some(r) = self.low.ratio.get(&e) {
            return *r;
        }
        let n = self.ar.n[e as usize];
        let int = |s: &Self, x: E| {
            let m = s.ar.n[x as usize];
            m.op == Op::UToF && m.w == 64 && s.ar.info[m.a as usize].hi < 1 << 53
        };
        let r = if n.op == Op::FDiv && n.w == 64 && int(self, n.a) && (int(self, n.b) || self.int_const(n.b).is_some()) {
            Some(Some(e))
        } else if n.op == Op::Var {
            None
        } else {
            let mut acc = Some(None);
            for c in [n.a, n.b, n.c] {
                if c == NONE {
                    continue;
                }
                acc = match (acc, self.the_ratio(c)) {
                    (Some(a), Some(None)) => Some(a),
                    (Some(None), Some(b)) => Some(b),
                    (Some(a), Some(b)) if a == b => Some(a),
                    _ => None,
                };
            }
            acc
        };
        self.low.ratio.insert(e, r);
        r
    }
    /// The positive integer a constant double stands for.
    fn int_const(&self, e: E) -> Option<u128> {
        let f = f64::from_bits(self.ar.cval(e)? as u64);
        (self.ar.w(e) == 64 && f >= 1.0 && f < 9e15 && f.fract() == 0.0).then_some(f as u128)
    }
    /// The value of `e` when the ratio has the given bits.
    fn at(&mut self, e: E, leaf: E, q: u64) -> u128 {
        if e == leaf {
            return q as u128;
        }
        if self.ar.vars(e) == 0 {
            let mut memo = HashMap::new();
            return self.ar.eval(e, &|_| 0, &mut memo);
        }
        if let Some(v) = self.low.evals.get(&e).and_then(|m| m.get(&q)) {
            return *v;
        }
        let mut memo = HashMap::new();
        memo.insert(leaf, q as u128);
        let v = self.ar.eval(e, &|_| 0, &mut memo);
        let m = self.low.evals.entry(e).or_default();
        if m.len() < 100_000 {
            m.insert(q, v);
        }
        v
    }
    /// Least bits q with value(e, q) >= k, if any (e is increasing).
    fn least(&mut self, e: E, leaf: E, k: u128) -> Option<u64> {
        if self.at(e, leaf, INF) < k {
            return None;
        }
        let (mut l, mut h) = (0u64, INF);
        if self.at(e, leaf, 0) >= k {
            return Some(0);
        }
        while l + 1 < h {
            let m = l + (h - l) / 2;
            if self.at(e, leaf, m) >= k { h = m } else { l = m }
        }
        Some(h)
    }
    /// Does the value (as an unsigned number) never decrease as the ratio grows over [0, inf]?
    fn monotone(&mut self, e: E, leaf: E) -> Option<Mono> {
        if e == leaf {
            return Some(Mono::Inc);
        }
        if self.ar.vars(e) == 0 {
            return Some(Mono::Const);
        }
        if let Some(r) = self.low.mono.get(&e) {
            return *r;
        }
        let r = self.monotone1(e, leaf);
        self.low.mono.insert(e, r);
        r
    }
    fn monotone1(&mut self, e: E, leaf: E) -> Option<Mono> {
        let n = self.ar.n[e as usize];
        let w = n.w as u32;
        let fpos = |s: &Self, x: E| -> Option<f64> {
            let k = s.ar.cval(x)?;
            let f = if s.ar.w(x) == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
            (f.is_finite() && f > 0.0).then_some(f)
        };
        let inf = |w: u32| if w == 64 { INF as u128 } else { 0x7f80_0000u128 };
        // float operands must stay within [0, inf] (bit order is numeric order there)
        let fin = |s: &mut Self, x: E| -> bool {
            let w = s.ar.w(x);
            s.monotone(x, leaf).is_some() && s.at(x, leaf, INF) <= inf(w)
        };
        match n.op {
            Op::FRound | Op::FRna => fin(self, n.a).then_some(Mono::Inc),
            Op::FMul => {
                if fpos(self, n.b).is_some() {
                    fin(self, n.a).then_some(Mono::Inc)
                } else if fpos(self, n.a).is_some() {
                    fin(self, n.b).then_some(Mono::Inc)
                } else {
                    None
                }
            }
            Op::FDiv => (fpos(self, n.b).is_some() && fin(self, n.a)).then_some(Mono::Inc),
            Op::FAdd => {
                if fpos(self, n.b).is_some() {
                    fin(self, n.a).then_some(Mono::Inc)
                } else if fpos(self, n.a).is_some() {
                    fin(self, n.b).then_some(Mono::Inc)
                } else {
                    None
                }
            }
            Op::FToU => fin(self, n.a).then_some(Mono::Inc),
            Op::FToS => (fin(self, n.a) && self.at(e, leaf, INF) < 1 << (w - 1)).then_some(Mono::Inc),
            Op::UToF => self.monotone(n.a, leaf),
            Op::ZExt => self.monotone(n.a, leaf),
            Op::Extract if n.k == 0 => {
                self.monotone(n.a, leaf)?;
                (self.at(n.a, leaf, INF) <= mask(w)).then_some(Mono::Inc)
            }
            Op::And => {
                // clearing a sign bit that is never set
                let k = self.ar.cval(n.b)?;
                self.monotone(n.a, leaf)?;
                (k == mask(w) >> 1 && self.at(n.a, leaf, INF) <= k).then_some(Mono::Inc)
            }
            Op::UDiv => {
                self.ar.cval(n.b).filter(|k| *k != 0)?;
                self.monotone(n.a, leaf)
            }
            Op::Mul => {
                let k = self.ar.cval(n.b)?;
                self.monotone(n.a, leaf)?;
                (self.at(n.a, leaf, INF).checked_mul(k)? <= mask(w)).then_some(Mono::Inc)
            }
            Op::Add => {
                let k = self.ar.cval(n.b)?;
                self.monotone(n.a, leaf)?;
                (self.at(n.a, leaf, INF).checked_add(k)? <= mask(w)).then_some(Mono::Inc)
            }
            Op::Ite => {
                let bp: Vec<u64> = self.breaks(n.a, leaf)?.into_iter().collect();
                if bp.len() > 64 {
                    return None;
                }
                let mut starts = vec![0u64];
                starts.extend(bp.iter().copied().filter(|b| *b > 0 && *b <= INF));
                for (i, &s) in starts.iter().enumerate() {
                    let side = if self.at(n.a, leaf, s) != 0 { n.b } else { n.c };
                    self.monotone(side, leaf)?;
                    if i > 0 {
                        let (l, r) = (self.at(e, leaf, s - 1), self.at(e, leaf, s));
                        if l > r {
                            return None;
                        }
                    }
                }
                Some(Mono::Inc)
            }
            _ => None,
        }
    }
    /// A superset of the ratios at which the value of `e` changes.
    fn breaks(&mut self, e: E, leaf: E) -> Option<BTreeSet<u64>> {
        if self.ar.vars(e) == 0 {
            return Some(BTreeSet::new());
        }
        if e == leaf {
            return None;
        }
        if let Some(r) = self.low.breaks.get(&e) {
            return r.clone();
        }
        let r = self.breaks1(e, leaf);
        self.low.breaks.insert(e, r.clone());
        r
    }
    fn breaks1(&mut self, e: E, leaf: E) -> Option<BTreeSet<u64>> {
        let n = self.ar.n[e as usize];
        if matches!(n.op, Op::FLt | Op::FLe | Op::FEq | Op::Ult | Op::Ule | Op::Eq) {
            let float = matches!(n.op, Op::FLt | Op::FLe | Op::FEq);
            let side = match (self.ar.vars(n.a), self.ar.vars(n.b)) {
                (_, 0) => Some((n.a, n.b)),
                (0, _) => Some((n.b, n.a)),
                _ => None,
            };
            if let Some((x, c)) = side {
                if self.monotone(x, leaf) == Some(Mono::Inc) {
                    let w = self.ar.w(x);
                    let mut k = self.at(c, leaf, 0);
                    let inf = if w == 64 { INF as u128 } else { 0x7f80_0000 };
                    let fx_ok = !float || self.at(x, leaf, INF) <= inf;
                    if float && fx_ok {
                        let f = if w == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
                        if f.is_nan() {
                            return Some(BTreeSet::new());
                        }
                        if f <= 0.0 {
                            k = 0;
                        }
                    }
                    if fx_ok {
                        let mut s = BTreeSet::new();
                        for j in [k, k + 1] {
                            if let Some(b) = self.least(x, leaf, j) {
                                s.insert(b);
                            }
                        }
                        return Some(s);
                    }
                }
            }
        }
        if n.op == Op::FIsNan && self.monotone(n.a, leaf) == Some(Mono::Inc) {
            let w = self.ar.w(n.a);
            if self.at(n.a, leaf, INF) <= if w == 64 { INF as u128 } else { 0x7f80_0000 } {
                return Some(BTreeSet::new());
            }
        }
        // a function of pieces is constant on the common pieces
        let mut s = BTreeSet::new();
        let mut ok = true;
        for c in [n.a, n.b, n.c] {
            if c != NONE {
                match self.breaks(c, leaf) {
                    Some(b) => s.extend(b),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
        }
        if ok && s.len() as u128 <= ENUM {
            return Some(s);
        }
        // a rounded quantity of few values
        if matches!(n.op, Op::FToU | Op::FToS) && self.monotone(e, leaf) == Some(Mono::Inc) {
            let (lo, hi) = (self.at(e, leaf, 0), self.at(e, leaf, INF));
            if hi - lo <= ENUM {
                let mut s = BTreeSet::new();
                for k in lo + 1..=hi {
                    if let Some(b) = self.least(e, leaf, k) {
                        s.insert(b);
                    }
                }
                return Some(s);
            }
        }
        None
    }
    /// The integer condition "the rounded quotient d / t is at least the double with these bits" (t != 0).
    fn at_least(&mut self, d: E, t: E, v: u64) -> Option<E> {
        if v == 0 {
            return Some(self.ar.c(1, 1));
        }
        let (dhi, thi) = (self.ar.info[d as usize].hi, self.ar.info[t as usize].hi);
        if v > (dhi as f64).to_bits() {
            return Some(self.ar.c(1, 0));
        }
        if thi > 0 && v < (0.4 / thi as f64).to_bits() {
            // below every nonzero quotient
            let z = self.ar.c(self.ar.w(d), 0);
            let q = self.ar.eq(d, z);
            return Some(self.ar.not(q));
        }
        // midpoint of v and its predecessor; ties go to the even mantissa
        let dec = |b: u64| -> Option<(u128, i32)> {
            let (e, m) = ((b >> 52) as i32, (b & ((1 << 52) - 1)) as u128);
            if e == 0 { None } else { Some((m | 1 << 52, e - 1075)) }
        };
        let ((m1, e1), (m0, e0)) = (dec(v)?, dec(v - 1)?);
        let e = e1.min(e0);
        let sum = (m1 << (e1 - e)) + (m0 << (e0 - e));
        let (mut num, ex) = (sum, e - 1);
        // num * 2^ex
        let strict = v & 1 == 1;
        let mut den = 1u128;
        if ex >= 0 {
            if ex > 60 {
                return None;
            }
            num <<= ex;
        } else {
            if -ex > 120 {
                return None;
            }
            den <<= -ex;
        }
        let g = gcd(num, den);
        num /= g;
        den /= g;
        let (p, q) = separator(num, den, strict, thi)?;
        if p == 0 {
            return Some(self.ar.c(1, 1));
        }
        if let Some(k) = self.ar.cval(t) {
            let least = (p * k).div_ceil(q);
            let dw = self.ar.w(d);
            if least > mask(dw) {
                return Some(self.ar.c(1, 0));
            }
            let l = self.ar.c(dw, least);
            return Some(self.ar.bin(Op::Ule, l, d));
        }
        // d * q >= p * t
        let bits = |k: u128| 128 - k.leading_zeros();
        let w = (bits(dhi) + bits(q)).max(bits(thi) + bits(p)).max(self.ar.w(d)).max(self.ar.w(t));
        if w > 128 {
            return None;
        }
        let (de, te) = (self.resize(d, w), self.resize(t, w));
        let (qc, pc) = (self.ar.c(w, q), self.ar.c(w, p));
        let l = self.ar.bin(Op::Mul, te, pc);
        let r = self.ar.bin(Op::Mul, de, qc);
        Some(self.ar.bin(Op::Ule, l, r))
    }
    fn resize(&mut self, e: E, w: u32) -> E {
        if self.ar.w(e) > w { self.ar.extract(e, 0, w) } else { self.ar.zext(e, w) }
    }
    fn ratio_pred(&mut self, e: E) -> Option<E> {
        let leaf = self.the_ratio(e)??;
        let _ = Q;
        let bp: Vec<u64> = self.breaks(e, leaf)?.into_iter().collect();
        let ln = self.ar.n[leaf as usize];
        let d = self.ar.n[ln.a as usize].a;
        let t = match self.int_const(ln.b) {
            Some(k) => self.ar.c(64, k),
            None => self.ar.n[ln.b as usize].a,
        };
        let mut starts = vec![0u64];
        starts.extend(bp.into_iter().filter(|b| *b > 0));
        // runs of equal truth
        let mut runs: Vec<(u64, bool)> = vec![];
        for s in starts {
            let v = self.at(e, leaf, s) != 0;
            if runs.last().is_none_or(|r| r.1 != v) {
                runs.push((s, v));
            }
        }
        // the truth at the last start that is not above the ratio
        let mut r = self.ar.c(1, runs[0].1 as u128);
        let mut acc: Vec<(E, bool)> = vec![];
        for &(s, v) in &runs[1..] {
            acc.push((self.at_least(d, t, s)?, v));
        }
        for (c, v) in acc {
            // thresholds increase: a later one overrides
            let vc = self.ar.c(1, v as u128);
            r = self.ar.ite(c, vc, r);
        }
        let tw = self.ar.w(t);
        let dw = self.ar.w(d);
        let (t0, d0) = (self.ar.c(tw, 0), self.ar.c(dw, 0));
        let (tz, dz) = (self.ar.eq(t, t0), self.ar.eq(d, d0));
        let (vn, vi) = (self.at(e, leaf, NAN), self.at(e, leaf, INF));
        let (vn, vi) = (self.ar.c(1, vn), self.ar.c(1, vi));
        let z = self.ar.ite(dz, vn, vi);
        Some(self.ar.ite(tz, z, r))
    }
}

#[cfg(test)]
mod test {
    use super::separator;
    #[test]
    fn t_separator() {
        for n in 1..14u128 {
            for den in 1..40u128 {
                for num in 1..60u128 {
                    for strict in [false, true] {
                        let (p, q) = separator(num, den, strict, n).unwrap();
                        for b in 1..=n {
                            for a in 0..40u128 {
                                let want = if strict { a * den > num * b } else { a * den >= num * b };
                                assert_eq!(want, a * q >= p * b, "{num}/{den} {strict} {n}: {p}/{q} at {a}/{b}");
                            }
                        }
                    }
                }
            }
        }
    }
}
