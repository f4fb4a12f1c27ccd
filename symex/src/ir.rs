//! Textual LLVM IR parser (the subset rustc emits after `opt -strip-debug -passes=scalarizer`).
use std::collections::HashMap;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Float,
    Double,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Other,
}

#[derive(Default)]
pub struct Types {
    pub list: Vec<Ty>,
    map: HashMap<Ty, TyId>,
}
impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.list.len() as u32;
        self.list.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn t(&self, id: TyId) -> &Ty {
        &self.list[id as usize]
    }
    /// Bit width of a scalar type.
    pub fn bits(&self, id: TyId) -> u32 {
        match self.t(id) {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Vec(n, e) => n * self.bits(*e),
            t => panic!("bits of {t:?}"),
        }
    }
    pub fn align(&self, id: TyId) -> u64 {
        match self.t(id) {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(es, packed) => {
                if *packed {
                    1
                } else {
                    es.iter().map(|e| self.align(*e)).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => ((self.bits(id) as u64 + 7) / 8).next_power_of_two(),
            _ => 1,
        }
    }
    /// Alloc size (stride).
    pub fn size(&self, id: TyId) -> u64 {
        match self.t(id) {
            Ty::Int(_) => self.store_size(id).next_multiple_of(self.align(id)),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Struct(es, packed) => {
                let mut o = 0;
                for e in es {
                    if !packed {
                        o = u64::next_multiple_of(o, self.align(*e));
                    }
                    o += self.size(*e);
                }
                if !packed {
                    o = u64::next_multiple_of(o, self.align(id));
                }
                o
            }
            Ty::Vec(..) => ((self.bits(id) as u64 + 7) / 8).next_multiple_of(self.align(id)),
            _ => 0,
        }
    }
    pub fn store_size(&self, id: TyId) -> u64 {
        match self.t(id) {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            _ => self.size(id),
        }
    }
    pub fn field_off(&self, id: TyId, idx: u64) -> (u64, TyId) {
        match self.t(id) {
            Ty::Arr(_, e) => (idx * self.size(*e), *e),
            Ty::Vec(_, e) => (idx * self.size(*e), *e),
            Ty::Struct(es, packed) => {
                let mut o = 0;
                for (i, e) in es.iter().enumerate() {
                    if !packed {
                        o = u64::next_multiple_of(o, self.align(*e));
                    }
                    if i as u64 == idx {
                        return (o, *e);
                    }
                    o += self.size(*e);
                }
                panic!("field_off")
            }
            t => panic!("field_off of {t:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Sym(String),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(TyId, Const)>),
    /// base constant + byte offset
    Off(Box<Const>, i64),
    /// binary op over pointer-sized ints
    Bin(BinOp, u32, Box<Const>, Box<Const>),
    Trunc(Box<Const>, u32),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Sym(String),
    Ind(Opd),
    Asm(String),
    /// Resolved: function index / builtin index.
    Fun(u32),
    Ext(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, a: Opd, b: Opd, dst: u32 },
    FBin { op: FOp, ty: TyId, a: Opd, b: Opd, dst: u32 },
    FNeg { ty: TyId, a: Opd, dst: u32 },
    ICmp { p: Pred, ty: TyId, a: Opd, b: Opd, dst: u32 },
    FCmp { p: String, ty: TyId, a: Opd, b: Opd, dst: u32 },
    Cast { op: CastOp, from: TyId, to: TyId, a: Opd, dst: u32 },
    Load { ty: TyId, p: Opd, dst: u32, atomic: bool },
    Store { ty: TyId, v: Opd, p: Opd, atomic: bool },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, u64)>, dst: u32 },
    Alloca { size: u64, align: u64, dst: u32 },
    Select { ty: TyId, cty: TyId, c: Opd, a: Opd, b: Opd, dst: u32 },
    Phi { dst: u32, inc: Vec<(Opd, u32)> },
    Br { t: u32 },
    CBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Call { callee: Callee, args: Vec<(TyId, Opd)>, ret: TyId, dst: Option<u32>, normal: Option<u32> },
    ExtractValue { a: Opd, idx: Vec<u32>, dst: u32 },
    InsertValue { a: Opd, aty: TyId, v: Opd, idx: Vec<u32>, dst: u32 },
    ExtractElem { a: Opd, i: Opd, n: u32, dst: u32 },
    InsertElem { a: Opd, v: Opd, i: Opd, n: u32, dst: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, mask: Opd, m: u32, dst: u32 },
    Rmw { op: RmwOp, ty: TyId, p: Opd, v: Opd, dst: u32 },
    CmpXchg { ty: TyId, p: Opd, c: Opd, n: Opd, dst: u32 },
    Fence,
    Freeze { a: Opd, dst: u32 },
    LandingPad,
    Resume,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub internal: bool,
}
pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub tls: bool,
    pub align: u64,
}
#[derive(Default)]
pub struct Module {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub consts: Vec<(TyId, Const)>,
    pub decls: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),
    Loc(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Dots,
    Meta,
    Attr,
    Nl,
    Eof,
}

fn lex(src: &[u8]) -> Vec<Tok> {
    let mut v = Vec::with_capacity(src.len() / 4);
    let mut i = 0;
    let n = src.len();
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    let rd_str = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut o = vec![];
        while src[*i] != b'"' {
            if src[*i] == b'\\' {
                if src[*i + 1] == b'\\' {
                    o.push(b'\\');
                    *i += 2;
                } else {
                    let h = std::str::from_utf8(&src[*i + 1..*i + 3]).unwrap();
                    o.push(u8::from_str_radix(h, 16).unwrap());
                    *i += 3;
                }
            } else {
                o.push(src[*i]);
                *i += 1;
            }
        }
        *i += 1;
        o
    };
    while i < n {
        let c = src[i];
        match c {
            b'\n' => {
                v.push(Tok::Nl);
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < n && src[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if src[i] == b'"' {
                    String::from_utf8(rd_str(&mut i)).unwrap()
                } else {
                    let s = i;
                    while i < n && idc(src[i]) {
                        i += 1;
                    }
                    String::from_utf8(src[s..i].to_vec()).unwrap()
                };
                v.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                // drop metadata to end of line
                v.push(Tok::Meta);
                while i < n && src[i] != b'\n' {
                    i += 1;
                }
            }
            b'#' => {
                i += 1;
                while i < n && idc(src[i]) {
                    i += 1;
                }
                v.push(Tok::Attr);
            }
            b'"' => {
                let s = rd_str(&mut i);
                v.push(Tok::Str(s));
            }
            b'c' if i + 1 < n && src[i + 1] == b'"' => {
                i += 1;
                let s = rd_str(&mut i);
                v.push(Tok::CStr(s));
            }
            b'.' if src[i..].starts_with(b"...") => {
                v.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let s = i;
                i += 1;
                while i < n && (src[i].is_ascii_alphanumeric() || src[i] == b'.' || src[i] == b'+' || (src[i] == b'-' && src[i - 1] == b'e')) {
                    i += 1;
                }
                v.push(Tok::Num(String::from_utf8(src[s..i].to_vec()).unwrap()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let s = i;
                while i < n && idc(src[i]) {
                    i += 1;
                }
                v.push(Tok::W(String::from_utf8(src[s..i].to_vec()).unwrap()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v.push(Tok::Nl);
    v.push(Tok::Eof);
    v
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    m: Module,
    named: HashMap<String, TyId>,
    // per function
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
    nlabels: u32,
}

fn is_int_ty(s: &str) -> Option<u32> {
    s.strip_prefix('i').and_then(|r| if !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit()) { r.parse().ok() } else { None })
}
fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

impl P<'_> {
    fn pk(&self) -> &Tok {
        &self.t[self.i]
    }
    fn pk2(&self) -> &Tok {
        &self.t[self.i + 1]
    }
    fn nx(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn ctx(&self) -> String {
        let s = self.i.saturating_sub(25);
        format!("...{:?}", &self.t[s..(self.i + 10).min(self.t.len())])
    }
    fn die(&self, m: &str) -> ! {
        panic!("IR parse error: {m} at {}", self.ctx())
    }
    fn p(&mut self, c: char) {
        if *self.pk() != Tok::P(c) {
            self.die(&format!("expected '{c}'"));
        }
        self.i += 1;
    }
    fn is_p(&self, c: char) -> bool {
        *self.pk() == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.pk(), Tok::W(w) if w == s)
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.nx() {
            Tok::W(s) => s,
            _ => {
                self.i -= 1;
                self.die("expected word")
            }
        }
    }
    fn num(&mut self) -> i128 {
        match self.nx() {
            Tok::Num(s) => s.parse().unwrap(),
            _ => {
                self.i -= 1;
                self.die("expected number")
            }
        }
    }
    fn skip_line(&mut self) {
        while !matches!(self.pk(), Tok::Nl | Tok::Eof) {
            self.i += 1;
        }
    }
    fn skip_nl(&mut self) {
        while matches!(self.pk(), Tok::Nl) {
            self.i += 1;
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.nx() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => self.die("eof in parens"),
                _ => {}
            }
        }
    }
    fn ty_start(&self) -> bool {
        match self.pk() {
            Tok::W(w) => is_int_ty(w).is_some() || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "opaque"),
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Loc(n) => self.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> TyId {
        let t = self.ty0();
        // function type?
        t
    }
    fn ty0(&mut self) -> TyId {
        match self.nx() {
            Tok::W(w) => {
                if let Some(n) = is_int_ty(&w) {
                    return self.m.types.get(Ty::Int(n));
                }
                let t = match w.as_str() {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    _ => Ty::Other,
                };
                if w == "ptr" && self.is_w("addrspace") {
                    self.i += 1;
                    self.skip_parens();
                }
                self.m.types.get(t)
            }
            Tok::P('[') => {
                let n = self.num() as u64;
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.p(']');
                self.m.types.get(Ty::Arr(n, e))
            }
            Tok::P('{') => {
                let mut es = vec![];
                while !self.eat_p('}') {
                    es.push(self.ty());
                    self.eat_p(',');
                }
                self.m.types.get(Ty::Struct(es, false))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut es = vec![];
                    while !self.eat_p('}') {
                        es.push(self.ty());
                        self.eat_p(',');
                    }
                    self.p('>');
                    self.m.types.get(Ty::Struct(es, true))
                } else {
                    let n = self.num() as u32;
                    assert!(self.eat_w("x"));
                    let e = self.ty();
                    self.p('>');
                    self.m.types.get(Ty::Vec(n, e))
                }
            }
            Tok::Loc(n) => self.named[&n],
            _ => {
                self.i -= 1;
                self.die("type")
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn lab(&mut self) -> u32 {
        assert!(self.eat_w("label"));
        match self.nx() {
            Tok::Loc(n) => self.label(&n),
            _ => self.die("label"),
        }
    }
    /// Constant of the given type.
    fn cst(&mut self, ty: TyId) -> Const {
        match self.nx() {
            Tok::Num(s) => {
                match self.m.types.t(ty).clone() {
                    Ty::Int(w) => {
                        let v: i128 = s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128);
                        Const::Int(v as u128 & mask(w))
                    }
                    Ty::Double | Ty::Float => {
                        let d = if let Some(n) = s.strip_prefix('+').or(s.strip_prefix('-')).filter(|n| n.starts_with(|c: char| c.is_ascii_alphabetic())) {
                            let v = if n.starts_with("inf") { f64::INFINITY } else { f64::NAN };
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                            if s.starts_with('-') { -v } else { v }
                        } else if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            s.parse::<f64>().unwrap()
                        };
                        if matches!(self.m.types.t(ty), Ty::Double) {
                            Const::Int(d.to_bits() as u128)
                        } else {
                            Const::Int((d as f32).to_bits() as u128)
                        }
                    }
                    t => self.die(&format!("num for {t:?}")),
                }
            }
            Tok::Glob(n) => Const::Sym(n),
            Tok::CStr(b) => Const::Bytes(b),
            Tok::W(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "zeroinitializer" => Const::Zero,
                "none" => Const::Zero,
                "undef" | "poison" => Const::Undef,
                // exact bits of a floating-point constant
                h if h.starts_with("f0x") => Const::Int(u128::from_str_radix(&h[3..], 16).unwrap()),
                "splat" => {
                    self.p('(');
                    let t = self.ty();
                    let c = self.cst(t);
                    self.p(')');
                    let n = match self.m.types.t(ty) {
                        Ty::Vec(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    Const::Agg(vec![(t, c); n as usize])
                }
                "getelementptr" => {
                    while let Tok::W(_) = self.pk() {
                        if self.is_w("inrange") {
                            self.i += 1;
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    }
                    self.p('(');
                    let mut cur = self.ty();
                    self.p(',');
                    let bt = self.ty();
                    let base = self.cst(bt);
                    let mut off = 0i64;
                    let mut first = true;
                    while self.eat_p(',') {
                        while self.is_w("inrange") {
                            self.i += 1;
                        }
                        let it = self.ty();
                        let v = match self.cst(it) {
                            Const::Int(v) => {
                                let w = self.m.types.bits(it);
                                ((v << (128 - w)) as i128 >> (128 - w)) as i64
                            }
                            Const::Zero => 0,
                            c => self.die(&format!("gep const idx {c:?}")),
                        };
                        if first {
                            off += v * self.m.types.size(cur) as i64;
                            first = false;
                        } else {
                            let (o, t) = self.m.types.field_off(cur, v as u64);
                            off += o as i64;
                            cur = t;
                        }
                    }
                    self.p(')');
                    Const::Off(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                    self.p('(');
                    let t = self.ty();
                    let c = self.cst(t);
                    assert!(self.eat_w("to"));
                    self.ty();
                    self.p(')');
                    c
                }
                "trunc" => {
                    self.p('(');
                    let t = self.ty();
                    let c = self.cst(t);
                    assert!(self.eat_w("to"));
                    let t2 = self.ty();
                    self.p(')');
                    Const::Trunc(Box::new(c), self.m.types.bits(t2))
                }
                "sub" | "add" | "xor" | "and" => {
                    while let Tok::W(_) = self.pk() {
                        self.i += 1;
                    }
                    self.p('(');
                    let t = self.ty();
                    let a = self.cst(t);
                    self.p(',');
                    let t2 = self.ty();
                    let b = self.cst(t2);
                    self.p(')');
                    let op = match w.as_str() {
                        "sub" => BinOp::Sub,
                        "add" => BinOp::Add,
                        "xor" => BinOp::Xor,
                        _ => BinOp::And,
                    };
                    Const::Bin(op, self.m.types.bits(t), Box::new(a), Box::new(b))
                }
                _ => self.die(&format!("const word {w}")),
            },
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}');
                    self.p('>');
                    a
                } else {
                    self.agg('>')
                }
            }
            _ => {
                self.i -= 1;
                self.die("const")
            }
        }
    }
    fn agg(&mut self, close: char) -> Const {
        let mut v = vec![];
        while !self.eat_p(close) {
            let t = self.ty();
            let c = self.cst(t);
            v.push((t, c));
            self.eat_p(',');
        }
        Const::Agg(v)
    }
    fn opd(&mut self, ty: TyId) -> Opd {
        if let Tok::Loc(n) = self.pk() {
            let n = n.clone();
            self.i += 1;
            return Opd::R(self.reg(&n));
        }
        let c = self.cst(ty);
        let k = self.m.consts.len() as u32;
        self.m.consts.push((ty, c));
        Opd::K(k)
    }
    fn topd(&mut self) -> (TyId, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.opd(t);
        (t, o)
    }
    /// Skip parameter attributes preceding an operand.
    fn skip_attrs(&mut self) {
        loop {
            match self.pk() {
                Tok::W(w) => match w.as_str() {
                    "true" | "false" | "null" | "zeroinitializer" | "undef" | "poison" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "none" | "splat" | "asm"
                    | "trunc" | "sub" | "add" | "xor" | "and" | "ptrtoaddr" => return,
                    "align" if matches!(self.pk2(), Tok::Num(_)) => self.i += 2,
                    _ => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_parens();
                        }
                    }
                },
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    /// Skip words/attributes until a type starts.
    fn skip_to_ty(&mut self) {
        while !self.ty_start() {
            match self.pk() {
                Tok::W(w) if w == "align" && matches!(self.pk2(), Tok::Num(_)) => self.i += 2,
                Tok::W(_) => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => self.i += 1,
                _ => self.die("skip_to_ty"),
            }
        }
    }

    fn call_like(&mut self, invoke: bool, dst: Option<u32>) -> Inst {
        self.skip_to_ty();
        let ret = self.ty();
        if self.is_p('(') {
            // function type of a vararg callee
            self.skip_parens();
        }
        let callee = match self.nx() {
            Tok::Glob(n) => Callee::Sym(n),
            Tok::Loc(n) => Callee::Ind(Opd::R(self.reg(&n))),
            Tok::W(w) if w == "asm" => {
                let mut s = String::new();
                while !self.is_p('(') {
                    if let Tok::Str(b) = self.pk() {
                        s.push_str(&String::from_utf8_lossy(b));
                        s.push('|');
                    }
                    self.i += 1;
                }
                Callee::Asm(s)
            }
            Tok::W(w) if w == "inttoptr" || w == "null" || w == "undef" || w == "poison" => {
                if w == "inttoptr" {
                    self.skip_parens();
                }
                Callee::Sym(format!("__badcall_{w}"))
            }
            _ => {
                self.i -= 1;
                self.die("callee")
            }
        };
        self.p('(');
        let mut args = vec![];
        while !self.eat_p(')') {
            if self.is_w("metadata") || matches!(self.pk(), Tok::Meta) {
                // metadata argument: rest of line was dropped by the lexer
                self.skip_line();
                return Inst::Fence;
            }
            let t = self.ty();
            self.skip_attrs();
            let o = self.opd(t);
            args.push((t, o));
            self.eat_p(',');
        }
        let mut normal = None;
        if invoke {
            while !self.is_w("to") {
                self.i += 1;
            }
            self.i += 1;
            normal = Some(self.lab());
            assert!(self.eat_w("unwind"));
            self.lab();
        }
        Inst::Call { callee, args, ret, dst, normal }
    }

    fn flags(&mut self, fl: &[&str]) {
        loop {
            let Tok::W(w) = self.pk() else { return };
            if fl.contains(&w.as_str()) {
                self.i += 1;
            } else {
                return;
            }
        }
    }

    fn inst(&mut self) -> Option<Inst> {
        let mut dst = None;
        if let (Tok::Loc(n), Tok::P('=')) = (self.pk().clone(), self.pk2().clone()) {
            self.i += 2;
            dst = Some(self.reg(&n));
        }
        let mut w = self.word();
        while matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = self.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let bin = |s: &str| {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        if let Some(op) = bin(&w) {
            self.flags(&["nuw", "nsw", "exact", "disjoint"]);
            let (ty, a) = self.topd();
            self.p(',');
            let b = self.opd(ty);
            return Some(Inst::Bin { op, ty, a, b, dst: d });
        }
        let cast = |s: &str| {
            Some(match s {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                "inttoptr" => CastOp::IntToPtr,
                "bitcast" => CastOp::Bitcast,
                "uitofp" => CastOp::UiToFp,
                "sitofp" => CastOp::SiToFp,
                "fptoui" => CastOp::FpToUi,
                "fptosi" => CastOp::FpToSi,
                "fptrunc" => CastOp::FpTrunc,
                "fpext" => CastOp::FpExt,
                _ => return None,
            })
        };
        if let Some(op) = cast(&w) {
            self.flags(&["nuw", "nsw", "nneg", "fast", "nnan", "ninf", "nsz", "contract", "afn", "reassoc", "arcp"]);
            let (from, a) = self.topd();
            assert!(self.eat_w("to"));
            let to = self.ty();
            return Some(Inst::Cast { op, from, to, a, dst: d });
        }
        Some(match w.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_to_ty();
                let (ty, a) = self.topd();
                self.p(',');
                let b = self.opd(ty);
                let op = match w.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Inst::FBin { op, ty, a, b, dst: d }
            }
            "fneg" => {
                self.skip_to_ty();
                let (ty, a) = self.topd();
                Inst::FNeg { ty, a, dst: d }
            }
            "icmp" => {
                self.flags(&["samesign"]);
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => self.die(x),
                };
                let (ty, a) = self.topd();
                self.p(',');
                let b = self.opd(ty);
                Inst::ICmp { p, ty, a, b, dst: d }
            }
            "fcmp" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "contract", "afn", "reassoc", "arcp"]);
                let p = self.word();
                let (ty, a) = self.topd();
                self.p(',');
                let b = self.opd(ty);
                Inst::FCmp { p, ty, a, b, dst: d }
            }
            "load" => {
                let atomic = self.eat_w("atomic");
                self.eat_w("volatile");
                let ty = self.ty();
                self.p(',');
                let (_, p) = self.topd();
                Inst::Load { ty, p, dst: d, atomic }
            }
            "store" => {
                let atomic = self.eat_w("atomic");
                self.eat_w("volatile");
                let (ty, v) = self.topd();
                self.p(',');
                let (_, p) = self.topd();
                Inst::Store { ty, v, p, atomic }
            }
            "getelementptr" => {
                self.flags(&["inbounds", "nuw", "nusw"]);
                let mut cur = self.ty();
                self.p(',');
                let (bt, base) = self.topd();
                if !matches!(self.m.types.t(bt), Ty::Ptr) {
                    self.die("vector gep");
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while self.is_p(',') && !matches!(self.pk2(), Tok::Meta) {
                    self.p(',');
                    let (it, o) = self.topd();
                    let kv = match o {
                        Opd::K(k) => match &self.m.consts[k as usize].1 {
                            Const::Int(v) => {
                                let w = self.m.types.bits(it);
                                Some(((*v << (128 - w)) as i128 >> (128 - w)) as i64)
                            }
                            Const::Zero => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        let sz = self.m.types.size(cur);
                        match kv {
                            Some(v) => off += v * sz as i64,
                            None => idx.push((o, self.m.types.bits(it), sz)),
                        }
                        first = false;
                    } else {
                        match (self.m.types.t(cur).clone(), kv) {
                            (_, Some(v)) => {
                                let (fo, t) = self.m.types.field_off(cur, v as u64);
                                off += fo as i64;
                                cur = t;
                            }
                            (Ty::Arr(_, e) | Ty::Vec(_, e), None) => {
                                idx.push((o, self.m.types.bits(it), self.m.types.size(e)));
                                cur = e;
                            }
                            _ => self.die("gep"),
                        }
                    }
                }
                Inst::Gep { base, off, idx, dst: d }
            }
            "alloca" => {
                let ty = self.ty();
                let mut size = self.m.types.size(ty);
                let mut align = self.m.types.align(ty);
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        align = self.num() as u64;
                    } else if matches!(self.pk(), Tok::Meta) {
                        break;
                    } else {
                        let t = self.ty();
                        match self.cst(t) {
                            Const::Int(n) => size *= n as u64,
                            c => self.die(&format!("alloca {c:?}")),
                        }
                    }
                }
                Inst::Alloca { size, align, dst: d }
            }
            "select" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "contract", "afn", "reassoc", "arcp"]);
                let (cty, c) = self.topd();
                self.p(',');
                let (ty, a) = self.topd();
                self.p(',');
                let (_, b) = self.topd();
                Inst::Select { ty, cty, c, a, b, dst: d }
            }
            "phi" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "contract", "afn", "reassoc", "arcp"]);
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.p('[');
                    let o = self.opd(ty);
                    self.p(',');
                    let l = match self.nx() {
                        Tok::Loc(n) => self.label(&n),
                        _ => self.die("phi label"),
                    };
                    self.p(']');
                    inc.push((o, l));
                    if !(self.is_p(',') && *self.pk2() == Tok::P('[')) {
                        break;
                    }
                    self.p(',');
                }
                Inst::Phi { dst: d, inc }
            }
            "br" => {
                if self.is_w("label") {
                    Inst::Br { t: self.lab() }
                } else {
                    let (_, c) = self.topd();
                    self.p(',');
                    let t = self.lab();
                    self.p(',');
                    let f = self.lab();
                    Inst::CBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.topd();
                self.p(',');
                let def = self.lab();
                self.p('[');
                let mut cases = vec![];
                loop {
                    self.skip_nl();
                    if self.eat_p(']') {
                        break;
                    }
                    let t = self.ty();
                    let c = match self.cst(t) {
                        Const::Int(c) => c,
                        Const::Zero => 0,
                        _ => self.die("switch case"),
                    };
                    self.p(',');
                    let l = self.lab();
                    cases.push((c, l));
                }
                Inst::Switch { w: self.m.types.bits(ty), v, def, cases }
            }
            "ret" => {
                let t = self.ty();
                if matches!(self.m.types.t(t), Ty::Void) {
                    Inst::Ret { v: None }
                } else {
                    self.skip_attrs();
                    Inst::Ret { v: Some(self.opd(t)) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "call" => self.call_like(false, dst),
            "invoke" => self.call_like_invoke(dst),
            "extractvalue" => {
                let (_, a) = self.topd();
                let mut idx = vec![];
                while self.is_p(',') && matches!(self.pk2(), Tok::Num(_)) {
                    self.p(',');
                    idx.push(self.num() as u32);
                }
                Inst::ExtractValue { a, idx, dst: d }
            }
            "insertvalue" => {
                let (aty, a) = self.topd();
                self.p(',');
                let (_, v) = self.topd();
                let mut idx = vec![];
                while self.is_p(',') && matches!(self.pk2(), Tok::Num(_)) {
                    self.p(',');
                    idx.push(self.num() as u32);
                }
                Inst::InsertValue { a, aty, v, idx, dst: d }
            }
            "extractelement" => {
                let (t, a) = self.topd();
                self.p(',');
                let (_, i) = self.topd();
                let n = match self.m.types.t(t) {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                Inst::ExtractElem { a, i, n, dst: d }
            }
            "insertelement" => {
                let (t, a) = self.topd();
                self.p(',');
                let (_, v) = self.topd();
                self.p(',');
                let (_, i) = self.topd();
                let n = match self.m.types.t(t) {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                Inst::InsertElem { a, v, i, n, dst: d }
            }
            "shufflevector" => {
                let (t, a) = self.topd();
                self.p(',');
                let (_, b) = self.topd();
                self.p(',');
                let (mt, mask) = self.topd();
                let n = match self.m.types.t(t) {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                let m = match self.m.types.t(mt) {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                Inst::Shuffle { a, b, n, mask, m, dst: d }
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let op = match self.word().as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    x => self.die(x),
                };
                let (_, p) = self.topd();
                self.p(',');
                let (ty, v) = self.topd();
                Inst::Rmw { op, ty, p, v, dst: d }
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let (_, p) = self.topd();
                self.p(',');
                let (ty, c) = self.topd();
                self.p(',');
                let (_, n) = self.topd();
                Inst::CmpXchg { ty, p, c, n, dst: d }
            }
            "fence" => Inst::Fence,
            "freeze" => {
                let (_, a) = self.topd();
                Inst::Freeze { a, dst: d }
            }
            "landingpad" => {
                self.skip_line();
                // clauses on following lines
                loop {
                    let save = self.i;
                    self.skip_nl();
                    if self.is_w("cleanup") || self.is_w("catch") || self.is_w("filter") {
                        self.skip_line();
                    } else {
                        self.i = save;
                        break;
                    }
                }
                Inst::LandingPad
            }
            "resume" => Inst::Resume,
            x => self.die(&format!("instruction {x}")),
        })
    }
    fn call_like_invoke(&mut self, dst: Option<u32>) -> Inst {
        self.call_like(true, dst)
    }

    fn func(&mut self) {
        // after 'define'
        self.regs.clear();
        self.labels.clear();
        self.nregs = 0;
        self.nlabels = 0;
        let mut internal = false;
        while !self.ty_start() {
            if self.is_w("internal") || self.is_w("private") {
                internal = true;
            }
            match self.pk() {
                Tok::W(w) if w == "align" && matches!(self.pk2(), Tok::Num(_)) => self.i += 2,
                Tok::W(_) => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                _ => self.die("define"),
            }
        }
        self.ty();
        let name = match self.nx() {
            Tok::Glob(n) => n,
            _ => self.die("define name"),
        };
        self.p('(');
        let mut params = vec![];
        let mut k = 0;
        while !self.eat_p(')') {
            if matches!(self.pk(), Tok::Dots) {
                self.i += 1;
                continue;
            }
            self.ty();
            self.skip_attrs();
            if let Tok::Loc(n) = self.pk() {
                let n = n.clone();
                self.i += 1;
                params.push(self.reg(&n));
            } else {
                params.push(self.reg(&k.to_string()));
            }
            k += 1;
            self.eat_p(',');
        }
        // to '{'
        while !(self.is_p('{')) {
            self.i += 1;
            if matches!(self.pk(), Tok::Nl) {
                break;
            }
        }
        // metadata (!guid) eats the '{' from the line; the line end follows.
        self.skip_line();
        let mut blocks: Vec<(u32, Vec<Inst>)> = vec![];
        // entry block label: explicit or implicit number k
        let mut started = false;
        loop {
            self.skip_nl();
            if self.eat_p('}') {
                break;
            }
            // label?
            let lab = match (self.pk(), self.pk2()) {
                (Tok::Num(n), Tok::P(':')) => Some(n.clone()),
                (Tok::W(n), Tok::P(':')) => Some(n.clone()),
                (Tok::Str(n), Tok::P(':')) => Some(String::from_utf8(n.clone()).unwrap()),
                _ => None,
            };
            if let Some(l) = lab {
                self.i += 2;
                self.skip_line();
                let id = self.label(&l);
                blocks.push((id, vec![]));
                started = true;
                continue;
            }
            if !started {
                let id = self.label(&k.to_string());
                blocks.push((id, vec![]));
                started = true;
            }
            let ins = self.inst();
            self.skip_line();
            if let Some(x) = ins {
                blocks.last_mut().unwrap().1.push(x);
            }
        }
        // renumber: labels ids -> index in order
        let mut map = vec![u32::MAX; self.nlabels as usize];
        for (i, (id, _)) in blocks.iter().enumerate() {
            map[*id as usize] = i as u32;
        }
        let mut out = vec![];
        for (_, mut b) in blocks {
            for ins in &mut b {
                match ins {
                    Inst::Br { t } => *t = map[*t as usize],
                    Inst::CBr { t, f, .. } => {
                        *t = map[*t as usize];
                        *f = map[*f as usize];
                    }
                    Inst::Switch { def, cases, .. } => {
                        *def = map[*def as usize];
                        for c in cases {
                            c.1 = map[c.1 as usize];
                        }
                    }
                    Inst::Phi { inc, .. } => {
                        for c in inc {
                            c.1 = map[c.1 as usize];
                        }
                    }
                    Inst::Call { normal: Some(n), .. } => *n = map[*n as usize],
                    _ => {}
                }
            }
            out.push(b);
        }
        let nregs = self.nregs;
        self.m.funcs.push(Func { name, params, nregs, blocks: out, internal });
    }

    fn top(&mut self) {
        loop {
            self.skip_nl();
            match self.pk().clone() {
                Tok::Eof => return,
                Tok::W(w) if w == "define" => {
                    self.i += 1;
                    self.func();
                }
                Tok::W(w) if w == "declare" => {
                    while !matches!(self.pk(), Tok::Glob(_)) {
                        self.i += 1;
                    }
                    if let Tok::Glob(n) = self.nx() {
                        self.m.decls.push(n);
                    }
                    self.skip_line();
                }
                Tok::Glob(n) => {
                    self.i += 1;
                    self.p('=');
                    let mut tls = false;
                    let mut ext = false;
                    let constant;
                    loop {
                        if self.is_w("thread_local") {
                            tls = true;
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                        } else if self.eat_w("global") {
                            constant = false;
                            break;
                        } else if self.eat_w("constant") {
                            constant = true;
                            break;
                        } else if self.is_w("alias") {
                            self.die("alias");
                        } else {
                            if self.is_w("external") || self.is_w("extern_weak") {
                                ext = true;
                            }
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                    }
                    let ty = self.ty();
                    let init = if ext || matches!(self.pk(), Tok::P(',') | Tok::Nl) { None } else { Some(self.cst(ty)) };
                    let mut align = self.m.types.align(ty).max(1);
                    while self.eat_p(',') {
                        if self.eat_w("align") {
                            align = self.num() as u64;
                        } else {
                            break;
                        }
                        // sections etc. follow other words; keep scanning
                    }
                    // 'section "..."' may precede align
                    while !matches!(self.pk(), Tok::Nl | Tok::Eof) {
                        if self.eat_w("align") {
                            align = self.num() as u64;
                        } else {
                            self.i += 1;
                        }
                    }
                    self.m.globals.push(Global { name: n, ty, init, constant, tls, align });
                }
                Tok::Loc(n) if matches!(self.pk2(), Tok::P('=')) => {
                    self.i += 2;
                    assert!(self.eat_w("type"));
                    let t = self.ty();
                    self.named.insert(n, t);
                }
                _ => self.skip_line(),
            }
        }
    }
}

pub fn parse(src: &[u8]) -> Module {
    let toks = lex(src);
    let mut p = P { t: &toks, i: 0, m: Module::default(), named: HashMap::new(), regs: HashMap::new(), nregs: 0, labels: HashMap::new(), nlabels: 0 };
    p.top();
    p.m
}
