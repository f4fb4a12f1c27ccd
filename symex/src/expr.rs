//! Hash-consed bit-vector expressions.
use std::collections::HashMap;

pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    // floating point (operands/results are IEEE bit patterns)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    FIsNan,
    FRound, // k: source-width in w of a -> w of node (fptrunc/fpext)
    FRna,   // round to integral, ties away from zero
    UToF,
    SToF,
    FToU, // truncating, operand assumed in range
    FToS,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}
#[derive(Clone, Copy)]
pub struct Info {
    /// contains floating point, or a division
    pub hard: bool,
    /// Some floating-point operation is involved.
    pub fp: bool,
    /// a decision tree with constant leaves
    pub tree: bool,
    pub vs: u32,
    pub lo: u128,
    pub hi: u128,
}

pub const NONE: E = u32::MAX;

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E>,
    pub vsets: Vec<Vec<u32>>,
    vmap: HashMap<Vec<u32>, u32>,
    vunion: HashMap<(u32, u32), u32>,
    pub var_names: Vec<String>,
    pub var_w: Vec<u32>,
    var_ids: HashMap<String, u32>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena::default();
        a.vsets.push(vec![]);
        a.vmap.insert(vec![], 0);
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn hard(&self, e: E) -> bool {
        self.info[e as usize].hard
    }
    pub fn vars(&self, e: E) -> u32 {
        self.info[e as usize].vs
    }
    pub fn vset(&self, vs: u32) -> &[u32] {
        &self.vsets[vs as usize]
    }
    fn vset_id(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.vmap.get(&v) {
            return i;
        }
        let i = self.vsets.len() as u32;
        self.vsets.push(v.clone());
        self.vmap.insert(v, i);
        i
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&u) = self.vunion.get(&k) {
            return u;
        }
        let mut v: Vec<u32> = self.vsets[a as usize].iter().chain(&self.vsets[b as usize]).copied().collect();
        v.sort_unstable();
        v.dedup();
        let u = self.vset_id(v);
        self.vunion.insert(k, u);
        u
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, node: Node) -> E {
        if let Some(&e) = self.map.get(&node) {
            return e;
        }
        let mut vs = 0;
        let mut fp = matches!(
            node.op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq | Op::FIsNan | Op::FRound | Op::FRna | Op::UToF | Op::SToF | Op::FToU | Op::FToS
        );
        let mut hard = fp || node.op == Op::UDiv;
        if node.op == Op::Var {
            vs = self.vset_id(vec![node.k as u32]);
        }
        for x in [node.a, node.b, node.c] {
            if x != NONE {
                let v = self.info[x as usize].vs;
                hard |= self.info[x as usize].hard;
                fp |= self.info[x as usize].fp;
                vs = self.union(vs, v);
            }
        }
        let (lo, hi) = self.range(&node);
        let e = self.n.len() as E;
        self.n.push(node);
        let leaf = |me: &Self, x: E| me.cval(x).is_some() || me.info[x as usize].tree;
        let tree = node.op == Op::Ite && leaf(self, node.b) && leaf(self, node.c);
        self.info.push(Info { vs, lo, hi, hard, fp, tree });
        self.map.insert(node, e);
        e
    }
    fn range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w as u32);
        let r = |e: E| {
            let i = &self.info[e as usize];
            (i.lo, i.hi)
        };
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_add(b.1) {
                    Some(h) if h <= m => (a.0 + b.0, h),
                    _ => (0, m),
                }
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (0, m) }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m => (a.0 * b.0, h),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (0, m) }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 { (0, (b.1 - 1).min(a.1)) } else { (0, a.1.max(m)) }
            }
            Op::And => {
                let (a, b) = (r(n.a), r(n.b));
                (0, a.1.min(b.1))
            }
            Op::Or | Op::Xor => {
                let (a, b) = (r(n.a), r(n.b));
                let mx = a.1 | b.1;
                let bits = 128 - mx.leading_zeros();
                let hi = mask(bits);
                (if n.op == Op::Or { a.0.max(b.0) } else { 0 }, hi.min(m))
            }
            Op::LShr => {
                let (a, b) = (r(n.a), r(n.b));
                (if b.1 < 128 { a.0 >> b.1 } else { 0 }, if b.0 < 128 { a.1 >> b.0 } else { 0 })
            }
            Op::Shl => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 == b.1 && b.0 < 64 && a.1 <= (m >> b.0) { (a.0 << b.0, a.1 << b.0) } else { (0, m) }
            }
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::ZExt => r(n.a),
            Op::Concat => {
                let (a, b) = (r(n.a), r(n.b));
                let bw = self.w(n.b);
                ((a.0 << bw) | b.0, (a.1 << bw) | b.1)
            }
            Op::Extract if n.k == 0 => {
                let a = r(n.a);
                if a.1 <= m { a } else { (0, m) }
            }
            Op::Extract => {
                let a = r(n.a);
                let (l, h) = (a.0 >> n.k, a.1 >> n.k);
                if h <= m { (l, h) } else { (0, m) }
            }
            _ => (0, m),
        }
    }
    pub fn c(&mut self, w: u32, k: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u16, a: NONE, b: NONE, c: NONE, k: k & mask(w) })
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let id = match self.var_ids.get(name) {
            Some(&i) => i,
            None => {
                let i = self.var_names.len() as u32;
                self.var_names.push(name.to_string());
                self.var_w.push(w);
                self.var_ids.insert(name.to_string(), i);
                i
            }
        };
        self.mk(Node { op: Op::Var, w: w as u16, a: NONE, b: NONE, c: NONE, k: id as u128 })
    }
    fn m2(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w: w as u16, a, b, c: NONE, k: 0 })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(w, u128::MAX);
        self.bin(Op::Xor, a, m)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cval(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        // not-condition normalisation
        let n = self.n[c as usize];
        if n.op == Op::Xor && n.w == 1 && self.cval(n.b) == Some(1) {
            return self.ite(n.a, b, a);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cval(a) {
            return self.c(w, k);
        }
        let n = self.n[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
            let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a, b: NONE, c: NONE, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cval(a) {
            return self.c(w, sext(k, aw) as u128);
        }
        let n = self.n[a as usize];
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
            let (x, y) = (self.sext(n.b, w), self.sext(n.c, w));
            return self.ite(n.a, x, y);
        }
        if aw == 1 {
            let (x, y) = (self.c(w, u128::MAX), self.c(w, 0));
            return self.ite(a, x, y);
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a, b: NONE, c: NONE, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if let Some(k) = self.cval(a) {
            return self.c(w, k >> lo);
        }
        let n = self.n[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                let x = self.extract(n.a, 0, lo + w - bw);
                let y = self.extract(n.b, lo, bw - lo);
                return self.concat(x, y);
            }
            Op::ZExt | Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if n.op == Op::ZExt {
                    if lo >= iw {
                        return self.c(w, 0);
                    }
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.zext(x, w);
                } else if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Ite if self.cval(n.b).is_some() || self.cval(n.c).is_some() || self.info[a as usize].tree => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cval(n.b).is_some() || w == 1 {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w >= 8 && self.cval(n.b).is_some() => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Mul | Op::Add if lo == 0 && self.info[a as usize].hi <= mask(w) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul
                if lo == 0 && [n.a, n.b].iter().all(|&x| {
                    let m = self.n[x as usize];
                    m.op == Op::ZExt && self.w(m.a) == w
                }) =>
            {
                let (x, y) = (self.n[n.a as usize].a, self.n[n.b as usize].a);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(k) = self.cval(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.c(w, 0);
                    }
                }
            }
            Op::LShr => {
                if let Some(k) = self.cval(n.b) {
                    let k = k as u32;
                    if lo + k + w <= aw {
                        return self.extract(n.a, lo + k, w);
                    }
                }
            }
            _ => {}
        }
        if self.info[a as usize].hi >> lo == 0 {
            return self.c(w, 0);
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a, b: NONE, c: NONE, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.cval(hi), self.cval(lo)) {
            return self.c(w, (a << lw) | b);
        }
        if self.cval(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nl.a, nl.k as u32, w);
        }
        // extract(x, lw..) ++ x[0..lw] where low is itself the low part after simplification
        if nh.op == Op::Extract && nh.k >= lw as u128 {
            let from = nh.k as u32 - lw;
            let l2 = self.extract(nh.a, from, lw);
            if l2 == lo {
                return self.extract(nh.a, from, w);
            }
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ lo = zext(x ++ lo)
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, w);
        }
        // hi ++ (a ++ b): reassociate to merge extracts
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let m = self.n[nl.a as usize];
            let from = nh.k as i64 - m.w as i64;
            if m.op == Op::Extract && m.a == nh.a && nh.k == m.k + m.w as u128 || from >= 0 && self.extract(nh.a, from as u32, m.w as u32) == nl.a {
                let x = self.concat(hi, nl.a);
                return self.concat(x, nl.b);
            }
        }
        self.mk(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: NONE, k: 0 })
    }
    pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => if b == 0 { if sext(a, w) < 0 { 1 } else { m } } else { sext(a, w).wrapping_div(sext(b, w)) as u128 },
            Op::SRem => if b == 0 { a } else { sext(a, w).wrapping_rem(sext(b, w)) as u128 },
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { a << b },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => if b >= w as u128 { if sext(a, w) < 0 { m } else { 0 } } else { (sext(a, w) >> b) as u128 },
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext(a, w) < sext(b, w)) as u128,
            Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
            _ => panic!("fold {op:?}"),
        };
        r & m
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let v = Self::fold(op, w, x, y);
            return self.c(rw, v);
        }
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (self.cval(a).is_some() || (self.cval(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let ca = self.cval(a);
        let cb = self.cval(b);
        let m = mask(w);
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        // decide comparisons with a constant at the leaves
        if cmp && ia.tree && cb.is_some() {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return self.ite(na.a, x, y);
        }
        if cmp && ib.tree && ca.is_some() {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        // arithmetic of a choice between two constants
        if matches!(op, Op::Add | Op::Sub) && rw > 1 {
            for (t, n, k, left) in [(ia.tree, na, cb, true), (ib.tree, nb, ca, false)] {
                if t && k.is_some() && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                    let (x, y) = if left { (self.bin(op, n.b, b), self.bin(op, n.c, b)) } else { (self.bin(op, a, n.b), self.bin(op, a, n.c)) };
                    return self.ite(n.a, x, y);
                }
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.c(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = cb {
                    let kk = self.c(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, kk);
                    }
                    // x * (2^s + 1) of a narrow x: two copies side by side
                    if na.op == Op::ZExt && k & 1 == 1 && (k - 1).is_power_of_two() && self.w(na.a) <= (k - 1).trailing_zeros() {
                        let kk = self.c(w, (k - 1).trailing_zeros() as u128);
                        let h = self.bin(Op::Shl, a, kk);
                        return self.bin(Op::Or, h, a);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, kk);
                    }
                    if k > 0 && ia.hi < k {
                        return self.c(w, 0);
                    }
                    // narrow
                    let need = 128 - ia.hi.max(k).leading_zeros();
                    if need < w && k > 0 && w > 8 {
                        let nw = need.max(1);
                        let x = self.extract(a, 0, nw);
                        let y = self.c(nw, k);
                        let r = self.bin(op, x, y);
                        return self.zext(r, w);
                    }
                } else {
                    // (the quotient by zero is never used: the code under test panics before)
                    let need = 128 - ia.hi.max(ib.hi).leading_zeros();
                    if need + 4 < w {
                        let x = self.extract(a, 0, need);
                        let y = self.extract(b, 0, need);
                        let r = self.bin(op, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.c(w, k - 1);
                        return self.bin(Op::And, a, kk);
                    }
                    if k > 0 && ia.hi < k {
                        return a;
                    }
                    let need = 128 - ia.hi.max(k).leading_zeros();
                    if need < w && k > 0 && w > 8 {
                        let nw = need.max(1);
                        let x = self.extract(a, 0, nw);
                        let y = self.c(nw, k);
                        let r = self.bin(op, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if let Some(k) = cb {
                    if (k + 1).is_power_of_two() && ia.hi <= k {
                        return a;
                    }
                    if (k + 1).is_power_of_two() {
                        let n = k.trailing_ones();
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.c(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.c(iw, k);
                        let r = self.bin(Op::And, na.a, kk);
                        return self.zext(r, w);
                    }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if na.op == Op::Or {
                        // (x | c2) & k  with c2&k==0 -> x & k
                        if let Some(k2) = self.cval(na.b) {
                            if k2 & k == 0 {
                                return self.bin(Op::And, na.a, b);
                            }
                        }
                    }
                }
                if w == 1 {
                    let nb_not = nb.op == Op::Xor && self.cval(nb.b) == Some(1) && nb.a == a;
                    let na_not = na.op == Op::Xor && self.cval(na.b) == Some(1) && na.a == b;
                    if nb_not || na_not {
                        return self.c(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if let Some(k) = cb {
                    if na.op == Op::Or {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.c(w, k | k2);
                            return self.bin(Op::Or, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let kk = self.c(iw, k);
                            let r = self.bin(Op::Or, na.a, kk);
                            return self.zext(r, w);
                        }
                        if k & mask(iw) == 0 {
                            let h = self.c(w - iw, k >> iw);
                            return self.concat(h, na.a);
                        }
                    }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                // disjoint (x << k) | zext(y): concat
                for (x, nx, y, iy) in [(a, na, b, ib), (b, nb, a, ia)] {
                    let _ = x;
                    if nx.op == Op::Shl {
                        if let Some(k) = self.cval(nx.b) {
                            let k = k as u32;
                            if k > 0 && k < w && iy.hi <= mask(k) {
                                let h = self.extract(nx.a, 0, w - k);
                                let l = self.extract(y, 0, k);
                                return self.concat(h, l);
                            }
                        }
                    }
                    if nx.op == Op::ZExt {
                        // zext(h ++ 0) | y
                        let ni = self.n[nx.a as usize];
                        if ni.op == Op::Concat && self.cval(ni.b) == Some(0) && iy.hi <= mask(self.w(ni.b)) {
                            let bw = self.w(ni.b);
                            let l = self.extract(y, 0, bw);
                            let r = self.concat(ni.a, l);
                            return self.zext(r, w);
                        }
                    }
                    if nx.op == Op::Concat {
                        let bw = self.w(nx.b);
                        if self.cval(nx.b) == Some(0) && iy.hi <= mask(bw) {
                            let l = self.extract(y, 0, bw);
                            return self.concat(nx.a, l);
                        }
                    }
                }
                if w == 1 {
                    let nb_not = nb.op == Op::Xor && self.cval(nb.b) == Some(1) && nb.a == a;
                    let na_not = na.op == Op::Xor && self.cval(na.b) == Some(1) && na.a == b;
                    if nb_not || na_not {
                        return self.c(1, 1);
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cval(na.b) {
                            let kk = self.c(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if w == 1 {
                        // not(a < b) = b <= a
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let kk = self.c(iw, k);
                            let r = self.bin(Op::Xor, na.a, kk);
                            return self.zext(r, w);
                        }
                    }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 && op != Op::AShr {
                        return self.c(w, 0);
                    }
                    let k = k as u32;
                    if op == Op::Shl {
                        let l = self.c(k, 0);
                        let h = self.extract(a, 0, w - k);
                        return self.concat_raw_shl(h, l, w, a, b);
                    }
                    if op == Op::LShr {
                        let h = self.extract(a, k, w - k);
                        return self.zext(h, w);
                    }
                    if op == Op::AShr && k < w {
                        let h = self.extract(a, k, w - k);
                        return self.sext(h, w);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if ia.hi < ib.lo || ib.hi < ia.lo {
                    return self.c(1, 0);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.c(1, 0);
                            }
                            let kk = self.c(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if sext(k & mask(iw), iw) as u128 & m != k {
                                return self.c(1, 0);
                            }
                            let kk = self.c(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::Add => {
                            if let Some(k2) = self.cval(na.b) {
                                let kk = self.c(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cval(na.b) {
                                let kk = self.c(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Ite => {
                            let (x, y) = (self.cval(na.b), self.cval(na.c));
                            if x.is_some() || y.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.c(w - lw, k >> lw);
                            let kl = self.c(lw, k);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.and(x, y);
                        }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.c(1, (op == Op::Ule) as u128);
                }
                if op == Op::Ult {
                    if ia.hi < ib.lo {
                        return self.c(1, 1);
                    }
                    if ia.lo >= ib.hi {
                        return self.c(1, 0);
                    }
                } else {
                    if ia.hi <= ib.lo {
                        return self.c(1, 1);
                    }
                    if ia.lo > ib.hi {
                        return self.c(1, 0);
                    }
                }
                // x + y against x, when the sum cannot wrap
                if na.op == Op::Add && (na.a == b || na.b == b) {
                    let (p, q) = (self.info[na.a as usize].hi, self.info[na.b as usize].hi);
                    if p.checked_add(q).is_some_and(|h| h <= m) {
                        if op == Op::Ult {
                            return self.c(1, 0);
                        }
                        let y = if na.a == b { na.b } else { na.a };
                        let z = self.c(w, 0);
                        return self.bin(Op::Eq, y, z);
                    }
                }
                if nb.op == Op::Add && (nb.a == a || nb.b == a) {
                    let (p, q) = (self.info[nb.a as usize].hi, self.info[nb.b as usize].hi);
                    if p.checked_add(q).is_some_and(|h| h <= m) {
                        if op == Op::Ule {
                            return self.c(1, 1);
                        }
                        let y = if nb.a == a { nb.b } else { nb.a };
                        let z = self.c(w, 0);
                        let e = self.bin(Op::Eq, y, z);
                        return self.not(e);
                    }
                }
                if let Some(k) = cb {
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        // k within range because of the interval checks above (k <= hi)
                        if k <= mask(iw) {
                            let kk = self.c(iw, k);
                            return self.bin(op, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if op == Op::Ult && k == 1 {
                        let z = self.c(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                }
                if let Some(k) = ca {
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k <= mask(iw) {
                            let kk = self.c(iw, k);
                            return self.bin(op, kk, nb.a);
                        }
                    }
                    if nb.op == Op::Ite && self.cval(nb.b).is_some() && self.cval(nb.c).is_some() {
                        let x = self.bin(op, a, nb.b);
                        let y = self.bin(op, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.c(1, (op == Op::Sle) as u128);
                }
                let half = 1u128 << (w - 1);
                if ia.hi < half && ib.hi < half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sign test of a narrow sext
                if na.op == Op::SExt {
                    if let Some(k) = cb {
                        let iw = self.w(na.a);
                        if sext(k & mask(iw), iw) as u128 & m == k {
                            let kk = self.c(iw, k);
                            return self.bin(op, na.a, kk);
                        }
                    }
                }
                if nb.op == Op::SExt {
                    if let Some(k) = ca {
                        let iw = self.w(nb.a);
                        if sext(k & mask(iw), iw) as u128 & m == k {
                            let kk = self.c(iw, k);
                            return self.bin(op, kk, nb.a);
                        }
                    }
                }
            }
            _ => {}
        }
        self.m2(op, rw, a, b)
    }
    fn concat_raw_shl(&mut self, h: E, l: E, w: u32, _a: E, _b: E) -> E {
        let r = self.concat(h, l);
        debug_assert_eq!(self.w(r), w);
        r
    }
    pub fn fp(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        if a == b && matches!(op, Op::FLt | Op::FLe | Op::FEq) {
            if op == Op::FLt {
                return self.c(1, 0);
            }
            let n = self.fp(Op::FIsNan, 1, a, NONE);
            return self.not(n);
        }
        let r = self.mk(Node { op, w: w as u16, a, b, c: NONE, k: 0 });
        if self.cval(a).is_some() && (b == NONE || self.cval(b).is_some()) {
            let mut memo = HashMap::new();
            let v = self.eval(r, &|_| 0, &mut memo);
            return self.c(w, v);
        }
        r
    }

    /// Evaluate under a model (missing variables are 0).
    pub fn eval(&self, e: E, m: &dyn Fn(u32) -> u128, memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m(n.k as u32) & mask(n.w as u32),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, m, memo) != 0 {
                    self.eval(n.b, m, memo)
                } else {
                    self.eval(n.c, m, memo)
                }
            }
            Op::Concat => {
                let bw = self.w(n.b);
                (self.eval(n.a, m, memo) << bw) | self.eval(n.b, m, memo)
            }
            Op::Extract => (self.eval(n.a, m, memo) >> n.k) & mask(w),
            Op::ZExt => self.eval(n.a, m, memo),
            Op::SExt => {
                let aw = self.w(n.a);
                sext(self.eval(n.a, m, memo), aw) as u128 & mask(w)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq => {
                let aw = self.w(n.a);
                let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                fbin(n.op, aw, x, y)
            }
            Op::FIsNan => {
                let aw = self.w(n.a);
                let x = self.eval(n.a, m, memo);
                (if aw == 64 { f64::from_bits(x as u64).is_nan() } else { f32::from_bits(x as u32).is_nan() }) as u128
            }
            Op::FRound => {
                let aw = self.w(n.a);
                let x = self.eval(n.a, m, memo);
                fround(aw, w, x)
            }
            Op::FRna => {
                let x = self.eval(n.a, m, memo);
                if w == 64 { f64::from_bits(x as u64).round().to_bits() as u128 } else { f32::from_bits(x as u32).round().to_bits() as u128 }
            }
            Op::UToF => {
                let x = self.eval(n.a, m, memo);
                if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 }
            }
            Op::SToF => {
                let aw = self.w(n.a);
                let x = sext(self.eval(n.a, m, memo), aw);
                if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 }
            }
            Op::FToU => {
                let aw = self.w(n.a);
                let x = self.eval(n.a, m, memo);
                (if aw == 64 { f64::from_bits(x as u64) as u128 } else { f32::from_bits(x as u32) as u128 }).min(mask(w))
            }
            Op::FToS => {
                let aw = self.w(n.a);
                let x = self.eval(n.a, m, memo);
                (if aw == 64 { f64::from_bits(x as u64) as i128 } else { f32::from_bits(x as u32) as i128 }) as u128 & mask(w)
            }
            op => {
                let ow = self.w(n.a);
                let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                Self::fold(op, ow, x, y) & mask(w)
            }
        };
        memo.insert(e, v);
        v
    }
    /// Human-readable form (bounded depth).
    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => self.var_names[n.k as usize].clone(),
            _ if d == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}", n.op);
                for x in [n.a, n.b, n.c] {
                    if x != NONE {
                        s.push(' ');
                        s.push_str(&self.show(x, d - 1));
                    }
                }
                if n.op == Op::Extract {
                    s.push_str(&format!(" @{}+{}", n.k, n.w));
                }
                s.push(')');
                s
            }
        }
    }
}

pub fn fbin(op: Op, w: u32, x: u128, y: u128) -> u128 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FEq => (a == b) as u128,
            _ => panic!(),
        }
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FEq => (a == b) as u128,
            _ => panic!(),
        }
    }
}
pub fn fround(aw: u32, w: u32, x: u128) -> u128 {
    match (aw, w) {
        (64, 32) => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        (32, 64) => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        _ => x,
    }
}
