//! Parser for the textual LLVM IR that rustc emits (the subset it uses).
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    F16,
    F32,
    F64,
    F128,
    Vec(u64, Ty),
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    PtrInt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(O),
    Intr(Intr),
    Ext(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddSat(bool),
    SubSat(bool),
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Expect,
    IsConst,
    ThreadLocal,
    Trap,
    Panic,
    Abort,
    LoadRelative,
    Fabs,
    Copysign,
    FRound(u8),
    FMin,
    FMax,
    FToIntSat(bool),
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    Pmovmskb,
    SymBytes,
    SymAssume,
    SymCheck,
    SymObs,
    SymConc,
    SymCover,
    SymParam,
    SymConcBytes,
    Syscall,
    Unsupported,
    VtblTypeTest,
    PtrMask,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Op, Ty, O, O, u32),
    FBin(u8, Ty, O, O, u32), // + - * / %
    FNeg(Ty, O, u32),
    ICmp(Pred, Ty, O, O, u32),
    FCmp(u8, Ty, O, O, u32),
    Cast(Cast, Ty, Ty, O, u32),
    Select(Ty, O, Ty, O, O, u32),
    Load(Ty, O, u32, u32),  // ty addr align dest
    Store(Ty, O, O, u32),   // ty val addr align
    Gep(O, i64, Vec<(O, u32, i64)>, u32),
    Alloca(Ty, O, u32),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    Call { callee: Callee, rty: Ty, args: Vec<(Ty, O)>, d: u32, next: u32, name: Rc<str> },
    ExtractValue(O, Vec<u32>, u32),
    InsertValue(O, Ty, O, Vec<u32>, u32),
    ExtractElem(O, O, u32),
    InsertElem(O, O, O, u32),
    Shuffle(O, O, Vec<i64>, Ty, u32),
    Freeze(Ty, O, u32),
    Rmw(u8, Ty, O, O, u32),
    CmpXchg(Ty, O, O, O, u32),
    Fence,
    Asm,
    Bad(String),
}

pub const NOREG: u32 = u32::MAX;

pub struct Phi {
    pub d: u32,
    pub ins: Vec<(u32, O)>,
}
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}
pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub id: u32,
}
pub struct FDecl {
    pub name: Rc<str>,
    pub header: &'static str,
    pub body: &'static str,
    pub parsed: Option<Rc<Func>>,
    pub over: Option<Intr>,
    pub ninst: u32,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<&'static str>,
    pub align: u64,
}
#[derive(Clone, Copy, Debug)]
pub enum GRef {
    F(u32),
    G(u32),
}
pub struct Module {
    pub types: Vec<TyK>,
    tmap: HashMap<TyK, Ty>,
    tsize: Vec<(u64, u64)>,
    pub named: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<FDecl>,
    pub gmap: HashMap<String, GRef>,
    pub exts: HashMap<String, u64>,
    pub weak: HashSet<String>,
    meta: Vec<&'static str>,
}

pub const OBJ_BASE: u64 = 0x0000_1000_0000_0000;
pub const OBJ_SHIFT: u32 = 24;
pub const FN_BASE: u64 = 0x0000_7f00_0000_0000;
pub const EXT_BASE: u64 = 0x0000_7f80_0000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    P(u8),
    Eof,
}

#[derive(Clone)]
struct Lx<'a> {
    s: &'a str,
    i: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s, i: 0 }
    }
    fn b(&self) -> &'a [u8] {
        self.s.as_bytes()
    }
    fn next(&mut self) -> Tok<'a> {
        let b = self.b();
        while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t') {
            self.i += 1;
        }
        if self.i >= b.len() {
            return Tok::Eof;
        }
        let st = self.i;
        let c = b[st];
        match c {
            b'%' | b'@' | b'!' | b'#' => {
                self.i += 1;
                if self.i < b.len() && b[self.i] == b'"' {
                    self.i += 1;
                    let q = self.i;
                    while b[self.i] != b'"' {
                        self.i += 1;
                    }
                    let r = &self.s[q..self.i];
                    self.i += 1;
                    return if c == b'%' { Tok::Local(r) } else { Tok::Global(r) };
                }
                let q = self.i;
                while self.i < b.len() && idc(b[self.i]) {
                    self.i += 1;
                }
                let r = &self.s[q..self.i];
                match c {
                    b'%' => Tok::Local(r),
                    b'@' => Tok::Global(r),
                    _ => Tok::P(c),
                }
            }
            b'"' => {
                self.i += 1;
                let q = self.i;
                while b[self.i] != b'"' {
                    self.i += 1;
                }
                let r = &self.s[q..self.i];
                self.i += 1;
                Tok::Str(r)
            }
            b'c' if st + 1 < b.len() && b[st + 1] == b'"' => {
                self.i += 2;
                let q = self.i;
                while b[self.i] != b'"' {
                    self.i += 1;
                }
                let r = &self.s[q..self.i];
                self.i += 1;
                Tok::CStr(r)
            }
            b'0'..=b'9' | b'-' | b'+' => {
                self.i += 1;
                while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || b[self.i] == b'.' || ((b[self.i] == b'+' || b[self.i] == b'-') && b[self.i - 1] == b'e')) {
                    self.i += 1;
                }
                Tok::Num(&self.s[st..self.i])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                while self.i < b.len() && idc(b[self.i]) {
                    self.i += 1;
                }
                if &self.s[st..self.i] == "..." {
                    return Tok::Word("...");
                }
                Tok::Word(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    fn peek(&self) -> Tok<'a> {
        self.clone().next()
    }
    fn eat(&mut self, p: u8) -> bool {
        if self.peek() == Tok::P(p) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, p: u8) {
        let t = self.next();
        if t != Tok::P(p) {
            panic!("expected {:?} got {:?} in `{}`", p as char, t, &self.s[..self.s.len().min(300)]);
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("eof in parens: {}", self.s),
                _ => {}
            }
        }
    }
}

fn is_ty_start(t: Tok) -> bool {
    match t {
        Tok::Word(w) => {
            matches!(w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "bfloat")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
        Tok::Local(_) => true,
        _ => false,
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
            } else {
                r.push(hx(b[i + 1]) * 16 + hx(b[i + 2]));
                i += 3;
            }
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

impl Module {
    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(t) = self.tmap.get(&k) {
            return *t;
        }
        let id = self.types.len() as Ty;
        let (s, a) = self.calc_size(&k);
        self.types.push(k.clone());
        self.tsize.push((s, a));
        self.tmap.insert(k, id);
        id
    }
    fn calc_size(&self, k: &TyK) -> (u64, u64) {
        match k {
            TyK::Void | TyK::Other => (0, 1),
            TyK::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            TyK::Ptr | TyK::F64 => (8, 8),
            TyK::F32 => (4, 4),
            TyK::F16 => (2, 2),
            TyK::F128 => (16, 16),
            TyK::Vec(n, t) => {
                let bits = match self.types[*t as usize] {
                    TyK::Int(w) => w as u64 * n,
                    _ => self.tsize[*t as usize].0 * 8 * n,
                };
                let b = (bits + 7) / 8;
                let a = b.next_power_of_two();
                ((b + a - 1) / a * a, a)
            }
            TyK::Arr(n, t) => (self.tsize[*t as usize].0 * n, self.tsize[*t as usize].1),
            TyK::Struct(f, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for t in f {
                    let (s, a) = self.tsize[*t as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        self.tsize[t as usize].0
    }
    pub fn align(&self, t: Ty) -> u64 {
        self.tsize[t as usize].1
    }
    pub fn field_off(&self, t: Ty, i: usize) -> (u64, Ty) {
        match &self.types[t as usize] {
            TyK::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, ft) in f.iter().enumerate() {
                    let (s, a) = self.tsize[*ft as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if j == i {
                        return (o, *ft);
                    }
                    o += s;
                }
                panic!("field index")
            }
            TyK::Arr(_, t) | TyK::Vec(_, t) => (self.size(*t) * i as u64, *t),
            _ => panic!("field_off on scalar"),
        }
    }
    /// Bit width of a scalar type.
    pub fn bits(&self, t: Ty) -> u32 {
        match &self.types[t as usize] {
            TyK::Int(w) => *w,
            TyK::Ptr | TyK::F64 => 64,
            TyK::F32 => 32,
            TyK::F16 => 16,
            TyK::F128 => 128,
            k => panic!("bits of {:?}", k),
        }
    }
    pub fn kind(&self, t: Ty) -> &TyK {
        &self.types[t as usize]
    }

    fn pty(&mut self, l: &mut Lx) -> Ty {
        match l.next() {
            Tok::Word(w) => match w {
                "void" => self.ty(TyK::Void),
                "ptr" => {
                    if l.peek() == Tok::Word("addrspace") {
                        l.next();
                        l.skip_paren();
                    }
                    self.ty(TyK::Ptr)
                }
                "half" => self.ty(TyK::F16),
                "float" => self.ty(TyK::F32),
                "double" => self.ty(TyK::F64),
                "fp128" => self.ty(TyK::F128),
                "label" | "metadata" | "token" | "x86_fp80" | "bfloat" => self.ty(TyK::Other),
                _ if w.starts_with('i') => {
                    let n: u32 = w[1..].parse().unwrap();
                    self.ty(TyK::Int(n))
                }
                _ => panic!("type {} in {}", w, &l.s[..l.s.len().min(200)]),
            },
            Tok::P(b'[') => {
                let n = match l.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    t => panic!("arr {:?}", t),
                };
                assert!(l.eatw("x"));
                let t = self.pty(l);
                l.expect(b']');
                self.ty(TyK::Arr(n, t))
            }
            Tok::P(b'<') => {
                if l.peek() == Tok::P(b'{') {
                    l.next();
                    let mut f = vec![];
                    if !l.eat(b'}') {
                        loop {
                            f.push(self.pty(l));
                            if l.eat(b'}') {
                                break;
                            }
                            l.expect(b',');
                        }
                    }
                    l.expect(b'>');
                    return self.ty(TyK::Struct(f, true));
                }
                let n = match l.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    t => panic!("vec {:?} in {}", t, l.s),
                };
                assert!(l.eatw("x"));
                let t = self.pty(l);
                l.expect(b'>');
                self.ty(TyK::Vec(n, t))
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                if !l.eat(b'}') {
                    loop {
                        f.push(self.pty(l));
                        if l.eat(b'}') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                self.ty(TyK::Struct(f, false))
            }
            Tok::Local(n) => *self.named.get(n).unwrap_or_else(|| panic!("named type {}", n)),
            t => panic!("type tok {:?} in `{}`", t, &l.s[..l.s.len().min(400)]),
        }
    }

    fn skip_attrs(&self, l: &mut Lx) {
        loop {
            let t = l.peek();
            match t {
                Tok::Str(_) => {
                    l.next();
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                Tok::P(b'#') => {
                    l.next();
                }
                Tok::Word(w) if !is_ty_start(t) => {
                    if matches!(
                        w,
                        "undef" | "poison" | "null" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "splat" | "inttoptr" | "ptrtoint"
                            | "bitcast" | "trunc" | "add" | "sub" | "asm"
                    ) {
                        return;
                    }
                    l.next();
                    if l.peek() == Tok::P(b'(') {
                        l.skip_paren();
                    } else if w == "align" {
                        l.next();
                    }
                }
                _ => return,
            }
        }
    }

    pub fn zero(&self, t: Ty) -> V {
        match self.kind(t).clone() {
            TyK::Vec(n, e) | TyK::Arr(n, e) => V::A(Rc::new((0..n).map(|_| self.zero(e)).collect())),
            TyK::Struct(f, _) => V::A(Rc::new(f.iter().map(|e| self.zero(*e)).collect())),
            _ => V::C(0),
        }
    }
    pub fn undef(&self, t: Ty, ex: &mut Ex) -> V {
        match self.kind(t).clone() {
            TyK::Vec(n, e) | TyK::Arr(n, e) => V::A(Rc::new((0..n).map(|_| self.undef(e, ex)).collect())),
            TyK::Struct(f, _) => V::A(Rc::new(f.iter().map(|e| self.undef(*e, ex)).collect())),
            TyK::Void | TyK::Other => V::C(0),
            _ => {
                let w = self.bits(t);
                V::S(ex.undef(w))
            }
        }
    }

    pub fn gaddr(&mut self, n: &str) -> u64 {
        match self.gmap.get(n) {
            Some(GRef::G(i)) => crate::mem::base_of(*i as u32),
            Some(GRef::F(i)) => FN_BASE + (*i as u64) * 16,
            None if self.weak.contains(n) => 0,
            None => {
                let k = self.exts.len() as u64;
                *self.exts.entry(n.to_string()).or_insert(EXT_BASE + k * 16)
            }
        }
    }

    fn num(&self, s: &str, t: Ty) -> V {
        match self.kind(t) {
            TyK::F32 | TyK::F64 => {
                let f: f64 = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.replace("qnan", "nan").parse().unwrap_or_else(|_| panic!("float const {}", s)) };
                if matches!(self.kind(t), TyK::F32) {
                    V::C((f as f32).to_bits() as u128)
                } else {
                    V::C(f.to_bits() as u128)
                }
            }
            TyK::Int(w) => {
                let w = *w;
                if let Some(h) = s.strip_prefix('-') {
                    let v: u128 = h.parse().unwrap();
                    V::C(v.wrapping_neg() & mask(w))
                } else {
                    V::C(s.parse::<u128>().unwrap_or_else(|_| panic!("int const {}", s)) & mask(w))
                }
            }
            k => panic!("num {} of {:?}", s, k),
        }
    }

    fn pconst(&mut self, l: &mut Lx, t: Ty, ex: &mut Ex) -> V {
        match l.next() {
            Tok::Num(n) => self.num(n, t),
            Tok::Global(g) => V::C(self.gaddr(g) as u128),
            Tok::Word(w) => match w {
                "true" => V::C(1),
                "false" => V::C(0),
                "null" | "none" => V::C(0),
                "zeroinitializer" => self.zero(t),
                "undef" | "poison" => self.undef(t, ex),
                "dso_local_equivalent" | "no_cfi" => self.pconst(l, t, ex),
                "splat" => {
                    l.expect(b'(');
                    let et = self.pty(l);
                    let v = self.pconst(l, et, ex);
                    l.expect(b')');
                    let n = match self.kind(t) {
                        TyK::Vec(n, _) => *n,
                        _ => 1,
                    };
                    V::A(Rc::new((0..n).map(|_| v.clone()).collect()))
                }
                "getelementptr" => {
                    while let Tok::Word(w) = l.peek() {
                        l.next();
                        if w == "inrange" {
                            l.skip_paren();
                        }
                    }
                    l.expect(b'(');
                    let st = self.pty(l);
                    l.expect(b',');
                    let _pt = self.pty(l);
                    let base = match self.pconst(l, _pt, ex) {
                        V::C(b) => b as u64,
                        _ => panic!("gep const base"),
                    };
                    let mut off = 0i64;
                    let mut cur = st;
                    let mut first = true;
                    while l.eat(b',') {
                        let it = self.pty(l);
                        let k = match self.pconst(l, it, ex) {
                            V::C(k) => sx(k, self.bits(it)) as i64,
                            _ => panic!("gep idx"),
                        };
                        if first {
                            off += k * self.size(cur) as i64;
                            first = false;
                        } else {
                            match self.kind(cur).clone() {
                                TyK::Struct(..) => {
                                    let (o, ft) = self.field_off(cur, k as usize);
                                    off += o as i64;
                                    cur = ft;
                                }
                                TyK::Arr(_, et) | TyK::Vec(_, et) => {
                                    off += k * self.size(et) as i64;
                                    cur = et;
                                }
                                k => panic!("gep const {:?}", k),
                            }
                        }
                    }
                    l.expect(b')');
                    V::C(base.wrapping_add(off as u64) as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(');
                    let ft = self.pty(l);
                    let v = self.pconst(l, ft, ex);
                    assert!(l.eatw("to"));
                    let tt = self.pty(l);
                    l.expect(b')');
                    match v {
                        V::C(k) => {
                            let k = if w == "sext" { sx(k, self.bits(ft)) as u128 } else { k };
                            V::C(k & mask(self.bits(tt)))
                        }
                        v => v,
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(');
                    let at = self.pty(l);
                    let a = self.pconst(l, at, ex);
                    l.expect(b',');
                    let bt = self.pty(l);
                    let b = self.pconst(l, bt, ex);
                    l.expect(b')');
                    let op = match w {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "xor" => Op::Xor,
                        _ => Op::Mul,
                    };
                    match (a, b) {
                        (V::C(a), V::C(b)) => V::C(Ex::fold(op, self.bits(at), a, b).unwrap()),
                        _ => panic!("constexpr"),
                    }
                }
                w if w.starts_with("f0x") => V::C(u128::from_str_radix(&w[3..], 16).unwrap()),
                w if w.starts_with("0x") => {
                    // doubles, and floats spelled as the double of the same value
                    let b = u64::from_str_radix(&w[2..], 16).unwrap();
                    V::C(if matches!(self.kind(t), TyK::F32) { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 })
                }
                _ => panic!("const {} in {}", w, &l.s[..l.s.len().min(300)]),
            },
            Tok::CStr(s) => {
                let b = unescape(s);
                V::A(Rc::new(b.into_iter().map(|c| V::C(c as u128)).collect()))
            }
            Tok::P(b'{') => {
                let mut r = vec![];
                if !l.eat(b'}') {
                    loop {
                        let ft = self.pty(l);
                        r.push(self.pconst(l, ft, ex));
                        if l.eat(b'}') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                V::A(Rc::new(r))
            }
            Tok::P(b'[') => {
                let mut r = vec![];
                if !l.eat(b']') {
                    loop {
                        let ft = self.pty(l);
                        r.push(self.pconst(l, ft, ex));
                        if l.eat(b']') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                V::A(Rc::new(r))
            }
            Tok::P(b'<') => {
                let packed = l.eat(b'{');
                let mut r = vec![];
                loop {
                    if packed && l.eat(b'}') {
                        break;
                    }
                    let ft = self.pty(l);
                    r.push(self.pconst(l, ft, ex));
                    if l.eat(b',') {
                        continue;
                    }
                    if packed {
                        l.expect(b'}');
                    }
                    break;
                }
                l.expect(b'>');
                V::A(Rc::new(r))
            }
            t => panic!("const tok {:?} in {}", t, &l.s[..l.s.len().min(300)]),
        }
    }

    /// Initial bytes of a global: (concrete bytes, undef mask)
    pub fn global_bytes(&mut self, gi: u32, ex: &mut Ex) -> (Vec<u8>, Option<Vec<bool>>) {
        let t = self.globals[gi as usize].ty;
        let sz = self.size(t) as usize;
        let mut buf = vec![0u8; sz];
        let mut ud: Option<Vec<bool>> = None;
        if let Some(src) = self.globals[gi as usize].init {
            let mut l = Lx::new(src);
            self.winit(&mut l, t, &mut buf, 0, &mut ud, ex);
        }
        (buf, ud)
    }
    fn winit(&mut self, l: &mut Lx, t: Ty, buf: &mut [u8], off: usize, ud: &mut Option<Vec<bool>>, ex: &mut Ex) {
        match l.peek() {
            Tok::CStr(s) => {
                l.next();
                let b = unescape(s);
                buf[off..off + b.len()].copy_from_slice(&b);
            }
            Tok::Word("zeroinitializer") => {
                l.next();
            }
            Tok::Word("undef") | Tok::Word("poison") => {
                l.next();
                let n = self.size(t) as usize;
                let len = buf.len();
                let u = ud.get_or_insert_with(|| vec![false; len]);
                for k in off..off + n {
                    u[k] = true;
                }
            }
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => {
                l.next();
                let packed = l.eat(b'{');
                let mut i = 0;
                loop {
                    if matches!(l.peek(), Tok::P(b'}') | Tok::P(b']') | Tok::P(b'>')) {
                        break;
                    }
                    let ft = self.pty(l);
                    let (fo, _) = self.field_off(t, i);
                    self.winit(l, ft, buf, off + fo as usize, ud, ex);
                    i += 1;
                    if !l.eat(b',') {
                        break;
                    }
                }
                l.next();
                if packed {
                    l.next();
                }
            }
            _ => {
                let v = self.pconst(l, t, ex);
                match v {
                    V::C(k) => {
                        let n = self.size(t) as usize;
                        for j in 0..n {
                            buf[off + j] = if j < 16 { (k >> (8 * j)) as u8 } else { 0 };
                        }
                    }
                    _ => panic!("global init scalar"),
                }
            }
        }
    }

    pub fn parse(src: &'static str) -> Module {
        let mut m = Module {
            types: vec![],
            tmap: HashMap::new(),
            tsize: vec![],
            named: HashMap::new(),
            globals: vec![],
            funcs: vec![],
            gmap: HashMap::new(),
            exts: HashMap::new(),
            weak: HashSet::new(),
            meta: vec![],
        };
        let b = src.as_bytes();
        let mut i = 0;
        let mut aliases: Vec<(String, String)> = vec![];
        let mut gl: Vec<(&'static str, &'static str)> = vec![];
        while i < b.len() {
            let mut e = i;
            while e < b.len() && b[e] != b'\n' {
                e += 1;
            }
            let line = &src[i..e];
            if line.starts_with("define ") {
                // body up to "\n}\n"
                let st = e + 1;
                let rest = &src[st..];
                let end = if rest.starts_with("}\n") { 0 } else { rest.find("\n}\n").or_else(|| rest.find("\n}")).unwrap() + 1 };
                let body = &src[st..st + end];
                let mut l = Lx::new(line);
                let name = loop {
                    match l.next() {
                        Tok::Global(n) => break n,
                        Tok::Eof => panic!("define without name"),
                        _ => {}
                    }
                };
                let id = m.funcs.len() as u32;
                m.gmap.insert(name.to_string(), GRef::F(id));
                let over = override_of(name);
                m.funcs.push(FDecl { name: name.into(), header: line, body, parsed: None, over, ninst: 0 });
                i = st + end + 2;
                continue;
            } else if line.starts_with('!') && line.as_bytes().get(1).map_or(false, |c| c.is_ascii_digit()) {
                let n: usize = line[1..].split(' ').next().unwrap().parse().unwrap();
                if m.meta.len() <= n {
                    m.meta.resize(n + 1, "");
                }
                m.meta[n] = line;
            } else if line.starts_with("declare extern_weak") {
                if let Some(p) = line.find('@') {
                    if let Tok::Global(n) = Lx::new(&line[p..]).next() {
                        m.weak.insert(n.to_string());
                    }
                }
            } else if line.starts_with('@') {
                let mut l = Lx::new(line);
                let name = match l.next() {
                    Tok::Global(n) => n,
                    _ => panic!(),
                };
                l.expect(b'=');
                gl.push((name, &line[l.i..]));
            } else if line.starts_with('%') && line.contains(" = type ") {
                let mut l = Lx::new(line);
                let name = match l.next() {
                    Tok::Local(n) => n,
                    _ => panic!(),
                };
                l.expect(b'=');
                l.next();
                if l.peek() != Tok::Word("opaque") {
                    let t = m.pty(&mut l);
                    m.named.insert(name.to_string(), t);
                }
            }
            i = e + 1;
        }
        for (name, rest) in gl {
            let mut l = Lx::new(rest);
            // attributes until 'global' / 'constant' / 'alias'
            let mut ext = false;
            loop {
                match l.next() {
                    Tok::Word("global") | Tok::Word("constant") => break,
                    Tok::Word("alias") => {
                        if let Some(p) = rest.rfind('@') {
                            let mut l2 = Lx::new(&rest[p..]);
                            if let Tok::Global(t) = l2.next() {
                                aliases.push((name.to_string(), t.to_string()));
                            }
                        }
                        ext = true;
                        l.i = rest.len();
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => ext = true,
                    Tok::Word("thread_local") => {
                        if l.peek() == Tok::P(b'(') {
                            l.skip_paren();
                        }
                    }
                    Tok::Eof => break,
                    _ => {}
                }
            }
            if l.i >= rest.len() {
                continue;
            }
            let ty = m.pty(&mut l);
            let init = if ext { None } else { Some(&rest[l.i..]) };
            let align = rest.rfind(", align ").map(|p| rest[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(1)).unwrap_or(1);
            let id = m.globals.len() as u32;
            m.gmap.insert(name.to_string(), GRef::G(id));
            m.globals.push(Global { name: name.to_string(), ty, init, align });
        }
        for (a, t) in aliases {
            if let Some(r) = m.gmap.get(&t).copied() {
                m.gmap.insert(a, r);
            }
        }
        m
    }

    pub fn func(&mut self, id: u32, ex: &mut Ex) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return f.clone();
        }
        let (h, body, name) = {
            let d = &self.funcs[id as usize];
            (d.header, d.body, d.name.clone())
        };
        let mut fp = FP { regs: HashMap::new(), n: 0, blocks: HashMap::new(), m: self, ex };
        // parameters
        let mut l = Lx::new(h);
        loop {
            if let Tok::Global(_) = l.next() {
                break;
            }
        }
        l.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !l.eat(b')') {
            loop {
                if l.eatw("...") {
                    l.expect(b')');
                    break;
                }
                let _t = fp.m.pty(&mut l);
                // attributes, then name
                loop {
                    match l.peek() {
                        Tok::Word(w) => {
                            l.next();
                            if l.peek() == Tok::P(b'(') {
                                l.skip_paren();
                            } else if w == "align" {
                                l.next();
                            }
                        }
                        Tok::Str(_) => {
                            l.next();
                            if l.eat(b'=') {
                                l.next();
                            }
                        }
                        _ => break,
                    }
                }
                match l.peek() {
                    Tok::Local(n) => {
                        l.next();
                        params.push(fp.reg(n));
                        // only unnamed values take a number
                        if n == unnamed.to_string().as_str() {
                            unnamed += 1;
                        }
                    }
                    _ => {
                        let n = format!("{}", unnamed);
                        params.push(fp.reg(&n));
                        unnamed += 1;
                    }
                }
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        // join continuation lines
        let mut lines: Vec<String> = vec![];
        for ln in body.split('\n') {
            if ln.is_empty() || ln.starts_with(';') {
                continue;
            }
            if ln.starts_with("    ") || ln.starts_with("  ]") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(ln.trim_start());
            } else {
                if ln.trim_start().starts_with("#dbg_") || ln.trim_start().starts_with(';') {
                    continue;
                }
                lines.push(ln.to_string());
            }
        }
        // block names in order
        let mut blocks: Vec<Block> = vec![];
        let mut first_label = None;
        if let Some(l0) = lines.first() {
            if l0.starts_with("  ") {
                // implicit entry label: number after params
                first_label = Some("__entry".to_string());
            }
        }
        if let Some(n) = first_label {
            fp.blocks.insert(n.clone(), 0);
            // implicit numbering
            let unn = unnamed.to_string();
            fp.blocks.insert(unn, 0);
            blocks.push(Block { name: n, phis: vec![], insts: vec![], dbg: vec![] });
        }
        for ln in &lines {
            if !ln.starts_with(' ') {
                let nm = label_of(ln);
                let id = blocks.len() as u32;
                fp.blocks.insert(nm.clone(), id);
                blocks.push(Block { name: nm, phis: vec![], insts: vec![], dbg: vec![] });
            }
        }
        let mut cur = 0usize;
        let mut started = !lines.is_empty() && lines[0].starts_with("  ");
        let mut cnt = 0;
        for ln in &lines {
            if !ln.starts_with(' ') {
                if started {
                    cur += 1;
                } else {
                    started = true;
                }
                continue;
            }
            cnt += 1;
            let r = fp.inst(ln);
            match r {
                PI::Phi(p) => blocks[cur].phis.push(p),
                PI::I(i) => {
                    blocks[cur].insts.push(i);
                    blocks[cur].dbg.push(dbg_of(ln));
                }
            }
        }
        let nregs = fp.n;
        let f = Rc::new(Func { name, nregs, params, blocks, id });
        self.funcs[id as usize].parsed = Some(f.clone());
        self.funcs[id as usize].ninst = cnt;
        f
    }
}

fn dbg_of(ln: &str) -> u32 {
    match ln.rfind(", !dbg !") {
        Some(p) => ln[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0),
        None => 0,
    }
}

fn mfield<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let pat = format!("{}: ", k);
    let mut from = 0;
    loop {
        let p = from + s[from..].find(&pat)?;
        if p == 0 || matches!(s.as_bytes()[p - 1], b' ' | b'(') {
            let r = &s[p + pat.len()..];
            return Some(if let Some(q) = r.strip_prefix('"') { &q[..q.find('"')?] } else { r.split(|c| c == ',' || c == ')').next().unwrap() });
        }
        from = p + pat.len();
    }
}

impl Module {
    fn mref(&self, s: &str, k: &str) -> Option<&'static str> {
        let r = mfield(s, k)?.strip_prefix('!')?;
        self.meta.get(r.parse::<usize>().ok()?).copied()
    }
    /// Innermost-first list of (file, line, function) for a !dbg id.
    pub fn dbg_stack(&self, d: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = self.meta.get(d as usize).copied();
        while let Some(l) = cur {
            if !l.contains("DILocation(") {
                break;
            }
            let line = mfield(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut sc = self.mref(l, "scope");
            let mut func = String::new();
            let mut file = String::new();
            while let Some(s) = sc {
                if file.is_empty() {
                    if let Some(f) = self.mref(s, "file") {
                        file = mfield(f, "filename").unwrap_or("").to_string();
                    }
                }
                if s.contains("!DISubprogram(") {
                    func = mfield(s, "name").unwrap_or("").to_string();
                    break;
                }
                sc = self.mref(s, "scope");
            }
            out.push((file, line, func));
            cur = if l.contains("inlinedAt: ") { self.mref(l, "inlinedAt") } else { None };
        }
        out
    }
    pub fn dbg_loc(&self, d: u32) -> String {
        self.dbg_stack(d).iter().map(|(f, l, n)| format!("{}:{} {}", f, l, n)).collect::<Vec<_>>().join(" < ")
    }
}

fn label_of(ln: &str) -> String {
    if let Some(r) = ln.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        ln[..ln.find(':').unwrap()].to_string()
    }
}

pub fn override_of(n: &str) -> Option<Intr> {
    // v0-mangled names of the panic machinery's leaves
    let ends = |s: &str| n.ends_with(s);
    if n.starts_with("_R") {
        if n.contains("9panicking") && (ends("9panic_fmt") || ends("18panic_nounwind_fmt") || ends("20rust_panic_with_hook") || ends("13begin_panic_handler")) {
            return Some(Intr::Panic);
        }
        if ends("17rust_begin_unwind") || ends("10rust_panic") {
            return Some(Intr::Panic);
        }
        if ends("18handle_alloc_error") || ends("14abort_internal") {
            return Some(Intr::Abort);
        }
        if n.contains("9panicking") && n.contains("18panic_nounwind_fmt") {
            return Some(Intr::Panic);
        }
    }
    None
}

struct FP<'m> {
    regs: HashMap<String, u32>,
    n: u32,
    blocks: HashMap<String, u32>,
    m: &'m mut Module,
    ex: &'m mut Ex,
}
enum PI {
    Phi(Phi),
    I(Inst),
}

impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, l: &mut Lx, t: Ty) -> O {
        match l.peek() {
            Tok::Local(n) => {
                l.next();
                O::R(self.reg(n))
            }
            _ => O::C(self.m.pconst(l, t, self.ex)),
        }
    }
    fn tv(&mut self, l: &mut Lx) -> (Ty, O) {
        let t = self.m.pty(l);
        self.m.skip_attrs(l);
        let v = self.val(l, t);
        (t, v)
    }
    fn label(&mut self, l: &mut Lx) -> u32 {
        assert!(l.eatw("label"));
        match l.next() {
            Tok::Local(n) => *self.blocks.get(n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label {:?}", t),
        }
    }
    fn blk(&self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {}", n))
    }
    fn skip_words(&self, l: &mut Lx) {
        loop {
            let t = l.peek();
            if is_ty_start(t) {
                return;
            }
            match t {
                Tok::Word(_) => {
                    l.next();
                    if l.peek() == Tok::P(b'(') {
                        l.skip_paren();
                    }
                }
                _ => return,
            }
        }
    }
    fn align_of(&self, l: &Lx) -> u32 {
        if let Some(p) = l.s[l.i..].find("align ") {
            l.s[l.i + p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(1)
        } else {
            1
        }
    }

    fn inst(&mut self, ln: &str) -> PI {
        let mut l = Lx::new(ln);
        let mut d = NOREG;
        if let Tok::Local(n) = l.peek() {
            l.next();
            l.expect(b'=');
            d = self.reg(n);
        }
        let mut w = match l.next() {
            Tok::Word(w) => w,
            t => panic!("inst {:?} in {}", t, ln),
        };
        if matches!(w, "tail" | "musttail" | "notail") {
            w = match l.next() {
                Tok::Word(w) => w,
                _ => panic!(),
            };
        }
        let bin = |s: &str| -> Option<Op> {
            Some(match s {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                _ => return None,
            })
        };
        if let Some(op) = bin(w) {
            self.skip_words(&mut l);
            let t = self.m.pty(&mut l);
            let a = self.val(&mut l, t);
            l.expect(b',');
            let b = self.val(&mut l, t);
            return PI::I(Inst::Bin(op, t, a, b, d));
        }
        let i = match w {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_words(&mut l);
                let t = self.m.pty(&mut l);
                let a = self.val(&mut l, t);
                l.expect(b',');
                let b = self.val(&mut l, t);
                let c = match w {
                    "fadd" => b'+',
                    "fsub" => b'-',
                    "fmul" => b'*',
                    "fdiv" => b'/',
                    _ => b'%',
                };
                Inst::FBin(c, t, a, b, d)
            }
            "fneg" => {
                self.skip_words(&mut l);
                let (t, a) = self.tv(&mut l);
                Inst::FNeg(t, a, d)
            }
            "icmp" => {
                let mut p = match l.next() {
                    Tok::Word(p) => p,
                    _ => panic!(),
                };
                if p == "samesign" {
                    p = match l.next() {
                        Tok::Word(p) => p,
                        _ => panic!(),
                    };
                }
                let t = self.m.pty(&mut l);
                let a = self.val(&mut l, t);
                l.expect(b',');
                let b = self.val(&mut l, t);
                let pr = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("pred {}", p),
                };
                Inst::ICmp(pr, t, a, b, d)
            }
            "fcmp" => {
                let mut p;
                loop {
                    p = match l.next() {
                        Tok::Word(p) => p,
                        _ => panic!(),
                    };
                    if matches!(p, "oeq" | "ogt" | "oge" | "olt" | "ole" | "one" | "ord" | "ueq" | "ugt" | "uge" | "ult" | "ule" | "une" | "uno" | "true" | "false") {
                        break;
                    }
                }
                let t = self.m.pty(&mut l);
                let a = self.val(&mut l, t);
                l.expect(b',');
                let b = self.val(&mut l, t);
                // bits: 1 eq, 2 gt, 4 lt, 8 unordered
                let k = match p {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                Inst::FCmp(k, t, a, b, d)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoaddr" | "addrspacecast" => {
                self.skip_words(&mut l);
                let (ft, a) = self.tv(&mut l);
                assert!(l.eatw("to"), "{}", ln);
                let tt = self.m.pty(&mut l);
                let c = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bit,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => Cast::PtrInt,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    _ => Cast::SiToFp,
                };
                Inst::Cast(c, ft, tt, a, d)
            }
            "select" => {
                self.skip_words(&mut l);
                let (ct, c) = self.tv(&mut l);
                l.expect(b',');
                let (t, a) = self.tv(&mut l);
                l.expect(b',');
                let (_, b) = self.tv(&mut l);
                Inst::Select(ct, c, t, a, b, d)
            }
            "load" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let t = self.m.pty(&mut l);
                l.expect(b',');
                let (_, p) = self.tv(&mut l);
                let al = self.align_of(&l);
                Inst::Load(t, p, al, d)
            }
            "store" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let (t, v) = self.tv(&mut l);
                l.expect(b',');
                let (_, p) = self.tv(&mut l);
                let al = self.align_of(&l);
                Inst::Store(t, v, p, al)
            }
            "getelementptr" => {
                loop {
                    match l.peek() {
                        Tok::Word(x) if matches!(x, "inbounds" | "nuw" | "nusw") => {
                            l.next();
                        }
                        Tok::Word("inrange") => {
                            l.next();
                            l.skip_paren();
                        }
                        _ => break,
                    }
                }
                let st = self.m.pty(&mut l);
                l.expect(b',');
                let (bt, base) = self.tv(&mut l);
                if matches!(self.m.kind(bt), TyK::Vec(..)) {
                    return PI::I(Inst::Bad(ln.to_string()));
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = st;
                let mut first = true;
                while l.eat(b',') {
                    if l.peek() == Tok::P(b'!') {
                        break;
                    }
                    let (it, v) = self.tv(&mut l);
                    let iw = self.m.bits(it);
                    let mut konst = None;
                    if let O::C(V::C(k)) = &v {
                        konst = Some(sx(*k, iw) as i64);
                    }
                    let scale;
                    if first {
                        scale = self.m.size(cur) as i64;
                        first = false;
                    } else {
                        match self.m.kind(cur).clone() {
                            TyK::Struct(..) => {
                                let (o, ft) = self.m.field_off(cur, konst.unwrap() as usize);
                                off += o as i64;
                                cur = ft;
                                continue;
                            }
                            TyK::Arr(_, et) | TyK::Vec(_, et) => {
                                scale = self.m.size(et) as i64;
                                cur = et;
                            }
                            k => panic!("gep {:?}", k),
                        }
                    }
                    if let Some(k) = konst {
                        off = off.wrapping_add(k.wrapping_mul(scale));
                    } else {
                        idx.push((v, iw, scale));
                    }
                }
                Inst::Gep(base, off, idx, d)
            }
            "alloca" => {
                l.eatw("inalloca");
                let t = self.m.pty(&mut l);
                let mut n = O::C(V::C(1));
                if l.eat(b',') {
                    if is_ty_start(l.peek()) {
                        let (_, v) = self.tv(&mut l);
                        n = v;
                    }
                }
                Inst::Alloca(t, n, d)
            }
            "phi" => {
                self.skip_words(&mut l);
                let t = self.m.pty(&mut l);
                let mut ins = vec![];
                loop {
                    l.expect(b'[');
                    let v = self.val(&mut l, t);
                    l.expect(b',');
                    let b = match l.next() {
                        Tok::Local(n) => self.blk(n),
                        t => panic!("phi {:?}", t),
                    };
                    l.expect(b']');
                    ins.push((b, v));
                    if !(l.eat(b',') && l.peek() == Tok::P(b'[')) {
                        break;
                    }
                }
                return PI::Phi(Phi { d, ins });
            }
            "br" => {
                if l.peek() == Tok::Word("label") {
                    Inst::Br(self.label(&mut l))
                } else {
                    let (_, c) = self.tv(&mut l);
                    l.expect(b',');
                    let a = self.label(&mut l);
                    l.expect(b',');
                    let b = self.label(&mut l);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tv(&mut l);
                l.expect(b',');
                let df = self.label(&mut l);
                l.expect(b'[');
                let mut cs = vec![];
                while !l.eat(b']') {
                    let (_, k) = self.tv(&mut l);
                    l.expect(b',');
                    let b = self.label(&mut l);
                    match k {
                        O::C(V::C(k)) => cs.push((k, b)),
                        _ => panic!("switch"),
                    }
                }
                Inst::Switch(t, v, df, cs)
            }
            "ret" => {
                if l.peek() == Tok::Word("void") {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.tv(&mut l)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Unreachable,
            "landingpad" => Inst::Bad(format!("landingpad {}", ln)),
            "fence" => Inst::Fence,
            "freeze" => {
                let (t, v) = self.tv(&mut l);
                Inst::Freeze(t, v, d)
            }
            "extractvalue" => {
                let (_, v) = self.tv(&mut l);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        Tok::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::ExtractValue(v, ix, d)
            }
            "insertvalue" => {
                let (at, a) = self.tv(&mut l);
                l.expect(b',');
                let (_, v) = self.tv(&mut l);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        Tok::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::InsertValue(a, at, v, ix, d)
            }
            "extractelement" => {
                let (_, a) = self.tv(&mut l);
                l.expect(b',');
                let (_, i) = self.tv(&mut l);
                Inst::ExtractElem(a, i, d)
            }
            "insertelement" => {
                let (_, a) = self.tv(&mut l);
                l.expect(b',');
                let (_, v) = self.tv(&mut l);
                l.expect(b',');
                let (_, i) = self.tv(&mut l);
                Inst::InsertElem(a, v, i, d)
            }
            "shufflevector" => {
                let (t, a) = self.tv(&mut l);
                l.expect(b',');
                let (_, b) = self.tv(&mut l);
                l.expect(b',');
                let (_, mk) = self.tv(&mut l);
                let et = match self.m.kind(t) {
                    TyK::Vec(_, e) => *e,
                    _ => panic!(),
                };
                let mk = match mk {
                    O::C(V::A(v)) => v.iter().map(|x| if let V::C(k) = x { *k as i64 } else { -1 }).collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle(a, b, mk, et, d)
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let op = match l.next() {
                    Tok::Word(o) => o,
                    _ => panic!(),
                };
                let (_, p) = self.tv(&mut l);
                l.expect(b',');
                let (t, v) = self.tv(&mut l);
                let k = match op {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => return PI::I(Inst::Bad(ln.to_string())),
                };
                Inst::Rmw(k, t, p, v, d)
            }
            "cmpxchg" => {
                l.eatw("weak");
                l.eatw("volatile");
                let (_, p) = self.tv(&mut l);
                l.expect(b',');
                let (t, a) = self.tv(&mut l);
                l.expect(b',');
                let (_, b) = self.tv(&mut l);
                Inst::CmpXchg(t, p, a, b, d)
            }
            "call" | "invoke" => {
                // flags / cc / attrs
                loop {
                    let t = l.peek();
                    if is_ty_start(t) {
                        break;
                    }
                    match t {
                        Tok::Word(x) => {
                            l.next();
                            if l.peek() == Tok::P(b'(') {
                                l.skip_paren();
                            } else if x == "align" {
                                l.next();
                            }
                        }
                        Tok::Str(_) => {
                            l.next();
                            if l.eat(b'=') {
                                l.next();
                            }
                        }
                        Tok::P(b'#') => {
                            l.next();
                        }
                        _ => panic!("call {}", ln),
                    }
                }
                let rty = self.m.pty(&mut l);
                if l.peek() == Tok::P(b'(') {
                    l.skip_paren(); // function type
                }
                let mut name = String::new();
                let mut ind = None;
                match l.next() {
                    Tok::Global(n) => name = n.to_string(),
                    Tok::Local(n) => ind = Some(O::R(self.reg(n))),
                    Tok::Word("asm") => {
                        return PI::I(Inst::Asm);
                    }
                    Tok::Word("inttoptr") => return PI::I(Inst::Bad(ln.to_string())),
                    t => panic!("callee {:?} in {}", t, ln),
                }
                l.expect(b'(');
                let mut args = vec![];
                if !l.eat(b')') {
                    loop {
                        let t = self.m.pty(&mut l);
                        if matches!(self.m.kind(t), TyK::Other) {
                            // metadata argument: skip
                            let mut depth = 0;
                            loop {
                                match l.peek() {
                                    Tok::P(b'(') => {
                                        depth += 1;
                                        l.next();
                                    }
                                    Tok::P(b')') => {
                                        if depth == 0 {
                                            break;
                                        }
                                        depth -= 1;
                                        l.next();
                                    }
                                    Tok::P(b',') if depth == 0 => break,
                                    Tok::Eof => panic!("metadata arg"),
                                    _ => {
                                        l.next();
                                    }
                                }
                            }
                            args.push((t, O::C(V::C(0))));
                        } else {
                            self.m.skip_attrs(&mut l);
                            let v = self.val(&mut l, t);
                            args.push((t, v));
                        }
                        if l.eat(b')') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                let mut next = NOREG;
                if w == "invoke" {
                    let p = l.s.rfind("to label ").unwrap();
                    let mut l2 = Lx::new(&l.s[p + 3..]);
                    next = self.label(&mut l2);
                }
                let callee = match ind {
                    Some(o) => Callee::Ind(o),
                    None => self.callee(&name),
                };
                Inst::Call { callee, rty, args, d, next, name: name.as_str().into() }
            }
            _ => Inst::Bad(ln.to_string()),
        };
        PI::I(i)
    }

    fn callee(&mut self, n: &str) -> Callee {
        if let Some(GRef::F(i)) = self.m.gmap.get(n) {
            if let Some(o) = self.m.funcs[*i as usize].over {
                return Callee::Intr(o);
            }
            return Callee::Fn(*i);
        }
        match intrinsic(n) {
            Some(i) => Callee::Intr(i),
            None => Callee::Ext(n.to_string()),
        }
    }
}

pub fn intrinsic(n: &str) -> Option<Intr> {
    use Intr::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return Some(if st("lifetime") || st("experimental.noalias") || st("assume") || st("dbg") || st("donothing") || st("invariant") || st("prefetch") || st("var.annotation") || st("x86.sse2.pause") {
            Nop
        } else if st("memcpy") || st("memmove") {
            Memcpy
        } else if st("memset") {
            Memset
        } else if st("sadd.with") {
            AddO(true)
        } else if st("uadd.with") {
            AddO(false)
        } else if st("ssub.with") {
            SubO(true)
        } else if st("usub.with") {
            SubO(false)
        } else if st("smul.with") {
            MulO(true)
        } else if st("umul.with") {
            MulO(false)
        } else if st("uadd.sat") {
            AddSat(false)
        } else if st("sadd.sat") {
            AddSat(true)
        } else if st("usub.sat") {
            SubSat(false)
        } else if st("ssub.sat") {
            SubSat(true)
        } else if st("umax") {
            UMax
        } else if st("umin") {
            UMin
        } else if st("smax") {
            SMax
        } else if st("smin") {
            SMin
        } else if st("abs.") {
            Abs
        } else if st("ctlz") {
            Ctlz
        } else if st("cttz") {
            Cttz
        } else if st("ctpop") {
            Ctpop
        } else if st("bswap") {
            Bswap
        } else if st("bitreverse") {
            Bitrev
        } else if st("fshl") {
            Fshl
        } else if st("fshr") {
            Fshr
        } else if st("ucmp") {
            Ucmp
        } else if st("scmp") {
            Scmp
        } else if st("expect") {
            Expect
        } else if st("is.constant") {
            IsConst
        } else if st("threadlocal.address") {
            ThreadLocal
        } else if st("trap") || st("ubsantrap") || st("debugtrap") {
            Trap
        } else if st("load.relative") {
            LoadRelative
        } else if st("fabs") {
            Fabs
        } else if st("copysign") {
            Copysign
        } else if st("floor") {
            FRound(0)
        } else if st("ceil") {
            FRound(1)
        } else if st("trunc.") {
            FRound(2)
        } else if st("round.") {
            FRound(3)
        } else if st("rint") || st("roundeven") || st("nearbyint") {
            FRound(4)
        } else if st("minnum") || st("minimumnum") {
            FMin
        } else if st("maxnum") || st("maximumnum") {
            FMax
        } else if st("fptosi.sat") {
            FToIntSat(true)
        } else if st("fptoui.sat") {
            FToIntSat(false)
        } else if st("vector.reduce.or") {
            VecReduceOr
        } else if st("vector.reduce.and") {
            VecReduceAnd
        } else if st("vector.reduce.add") {
            VecReduceAdd
        } else if st("x86.sse2.pmovmskb") {
            Pmovmskb
        } else if st("type.test") || st("type.checked") {
            VtblTypeTest
        } else if st("ptrmask") {
            PtrMask
        } else {
            Unsupported
        });
    }
    Some(match n {
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "abort" => Abort,
        "syscall" => Syscall,
        "sym_bytes" => SymBytes,
        "sym_assume" => SymAssume,
        "sym_check" => SymCheck,
        "sym_obs" => SymObs,
        "sym_conc" => SymConc,
        "sym_conc_bytes" => SymConcBytes,
        "sym_cover" => SymCover,
        "sym_param" => SymParam,
        _ => return None,
    })
}
