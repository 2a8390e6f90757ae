//! Hash-consed bit-vector expression DAG with on-the-fly simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type Fx<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Undef,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = lo
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Ex {
    pub n: Vec<Node>,
    map: Fx<Node, E>,
    umax: Vec<u128>,
    undef: Vec<bool>,
    vars: Vec<Option<Rc<Vec<u32>>>>,
    pub nvars: u32,
    // evaluation cache
    ev: Vec<(u32, u128)>,
    stamp: u32,
}

impl Ex {
    pub fn new() -> Self {
        let mut e = Ex {
            n: vec![],
            map: Default::default(),
            umax: vec![],
            undef: vec![],
            vars: vec![],
            nvars: 0,
            ev: vec![],
            stamp: 1,
        };
        // reserve ids 0 and 1
        e.c(0, 1);
        e.c(1, 1);
        e
    }
    pub fn fals(&self) -> E {
        0
    }
    pub fn tru(&self) -> E {
        1
    }
    fn mk(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let id = self.n.len() as E;
        let um = self.compute_umax(&nd);
        let ud = match nd.op {
            Op::Undef => true,
            Op::Const | Op::Var => false,
            _ => {
                let ar = arity(nd.op);
                self.undef[nd.a as usize]
                    || (ar > 1 && self.undef[nd.b as usize])
                    || (ar > 2 && self.undef[nd.c as usize])
            }
        };
        self.n.push(nd);
        self.umax.push(um);
        self.undef.push(ud);
        self.vars.push(None);
        self.ev.push((0, 0));
        self.map.insert(nd, id);
        id
    }
    fn compute_umax(&self, nd: &Node) -> u128 {
        let m = mask(nd.w);
        let u = |e: E| self.umax[e as usize];
        let ar = arity(nd.op);
        if nd.w > 128
            || (ar > 0 && self.n[nd.a as usize].w > 128)
            || (ar > 1 && self.n[nd.b as usize].w > 128)
        {
            return m;
        }
        match nd.op {
            Op::Const => nd.k,
            Op::And => u(nd.a).min(u(nd.b)),
            Op::Or | Op::Xor => {
                let x = u(nd.a) | u(nd.b);
                if x == 0 {
                    0
                } else {
                    (!0u128 >> x.leading_zeros()).min(m)
                }
            }
            Op::Add => u(nd.a).checked_add(u(nd.b)).filter(|x| *x <= m).unwrap_or(m),
            Op::Mul => u(nd.a).checked_mul(u(nd.b)).filter(|x| *x <= m).unwrap_or(m),
            Op::UDiv => {
                if self.n[nd.b as usize].op == Op::Const && self.n[nd.b as usize].k > 0 {
                    u(nd.a) / self.n[nd.b as usize].k
                } else {
                    m
                }
            }
            Op::URem => {
                let ub = u(nd.b);
                if self.n[nd.b as usize].op == Op::Const && ub > 0 {
                    u(nd.a).min(ub - 1)
                } else {
                    u(nd.a)
                }
            }
            Op::ZExt => u(nd.a),
            Op::Ite => u(nd.b).max(u(nd.c)),
            Op::LShr => u(nd.a),
            Op::Extract => {
                if nd.k >= 128 {
                    m
                } else {
                    let x = u(nd.a) >> (nd.k as u32);
                    x.min(m)
                }
            }
            Op::Concat => {
                let lw = self.n[nd.b as usize].w;
                if nd.w > 128 {
                    m
                } else {
                    (u(nd.a) << lw) | mask(lw)
                }
            }
            _ => m,
        }
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize]
    }
    pub fn has_undef(&self, e: E) -> bool {
        self.undef[e as usize]
    }
    pub fn um(&self, e: E) -> u128 {
        self.umax[e as usize]
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn c(&mut self, k: u128, w: u32) -> E {
        assert!(w <= 128, "const wider than 128");
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var8(&mut self) -> E {
        let id = self.nvars;
        self.nvars += 1;
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn var_by_id(&mut self, id: u32) -> E {
        if id >= self.nvars {
            self.nvars = id + 1;
        }
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn undef(&mut self, w: u32) -> E {
        self.mk(Node { op: Op::Undef, w, a: 0, b: 0, c: 0, k: 0 })
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.bin(Op::Xor, a, m)
    }

    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
        let m = mask(w);
        Some(match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Op::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Op::SDiv => {
                if y == 0 {
                    return None;
                }
                (sx(x, w).wrapping_div(sx(y, w)) as u128) & m
            }
            Op::SRem => {
                if y == 0 {
                    return None;
                }
                (sx(x, w).wrapping_rem(sx(y, w)) as u128) & m
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    (x << y as u32) & m
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y as u32
                }
            }
            Op::AShr => {
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                ((sx(x, w) >> s) as u128) & m
            }
            _ => return None,
        })
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {:?}", op);
        let (mut ca, mut cb) = (self.is_c(a), self.is_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Self::fold(op, w, x, y) {
                return self.c(r, w);
            }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        if w > 128 {
            return self.raw(op, w, a, b);
        }
        let m = mask(w);
        let na = self.node(a);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(x) = self.is_c(na.b) {
                            let k = self.c(x.wrapping_add(y), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Ite && (self.is_c(na.b).is_some() && self.is_c(na.c).is_some()) {
                        let p = self.bin(Op::Add, na.b, b);
                        let q = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, p, q);
                    }
                } else {
                    // hoist constants outwards
                    if na.op == Op::Add && self.is_c(na.b).is_some() {
                        let t = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, t, na.b);
                    }
                    let nb = self.node(b);
                    if nb.op == Op::Add && self.is_c(nb.b).is_some() {
                        let t = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, t, nb.b);
                    }
                    // a + (x - a) = x
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let k = self.c(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                let nb = self.node(b);
                if na.op == Op::Add && self.is_c(na.b).is_some() {
                    let t = self.bin(Op::Sub, na.a, b);
                    return self.bin(Op::Add, t, na.b);
                }
                if nb.op == Op::Add {
                    if let Some(y) = self.is_c(nb.b) {
                        let t = self.bin(Op::Sub, a, nb.a);
                        let k = self.c(y.wrapping_neg(), w);
                        return self.bin(Op::Add, t, k);
                    }
                }
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                    if y > self.um(a) {
                        return self.c(0, w);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                    if y > self.um(a) {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if na.op == Op::And && self.is_c(na.b).is_some() {
                        let k = self.bin(Op::And, na.b, b);
                        return self.bin(Op::And, na.a, k);
                    }
                    // contiguous mask
                    let lo = y.trailing_zeros();
                    let t = y >> lo;
                    if (t & (t.wrapping_add(1))) == 0 {
                        let hi = lo + (128 - t.leading_zeros()) - 1;
                        let mut r = self.extract(a, hi, lo);
                        if lo > 0 {
                            let z = self.c(0, lo);
                            r = self.concat(r, z);
                        }
                        return self.zext(r, w);
                    }
                } else if w == 1 {
                    let na = self.node(a);
                    let nb = self.node(b);
                    if (na.op == Op::Xor && na.a == b && na.b == 1) || (nb.op == Op::Xor && nb.a == a && nb.b == 1) {
                        return 0;
                    }
                    // absorption
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                }
                if let Some(r) = self.piecewise(op, a, b) {
                    return r;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                } else if w == 1 {
                    let na = self.node(a);
                    let nb = self.node(b);
                    if (na.op == Op::Xor && na.a == b && na.b == 1) || (nb.op == Op::Xor && nb.a == a && nb.b == 1) {
                        return 1;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return b;
                    }
                }
                if let Some(r) = self.piecewise(op, a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Xor && self.is_c(na.b).is_some() {
                        let k = self.bin(Op::Xor, na.b, b);
                        return self.bin(Op::Xor, na.a, k);
                    }
                    if w == 1 && y == 1 {
                        // push negation into comparisons
                        if na.op == Op::Ult {
                            return self.cmp(Op::Ule, na.b, na.a);
                        }
                        if na.op == Op::Ule {
                            return self.cmp(Op::Ult, na.b, na.a);
                        }
                        if na.op == Op::Slt {
                            return self.cmp(Op::Sle, na.b, na.a);
                        }
                        if na.op == Op::Sle {
                            return self.cmp(Op::Slt, na.b, na.a);
                        }
                    }
                }
                if let Some(r) = self.piecewise(op, a, b) {
                    return r;
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = y.min(w as u128) as u32;
                    match op {
                        Op::Shl => {
                            if y >= w {
                                return self.c(0, w);
                            }
                            let r = self.extract(a, w - y - 1, 0);
                            let z = self.c(0, y);
                            return self.concat(r, z);
                        }
                        Op::LShr => {
                            if y >= w {
                                return self.c(0, w);
                            }
                            let r = self.extract(a, w - 1, y);
                            return self.zext(r, w);
                        }
                        _ => {
                            let y = y.min(w - 1);
                            let r = self.extract(a, w - 1, y);
                            return self.sext(r, w);
                        }
                    }
                }
            }
            _ => {}
        }
        self.raw(op, w, a, b)
    }

    /// Bitwise operation on values with concatenation structure: split where it helps.
    fn piecewise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        let isc = |s: &Self, e: E| matches!(s.node(e).op, Op::Concat | Op::ZExt);
        if !(isc(self, a) || isc(self, b)) {
            return None;
        }
        // only when each is Concat/ZExt/Const
        let ok = |s: &Self, e: E| matches!(s.node(e).op, Op::Concat | Op::ZExt | Op::Const);
        if !(ok(self, a) && ok(self, b)) {
            return None;
        }
        // find the lowest boundary
        let lowb = |s: &Self, e: E| -> u32 {
            let n = s.node(e);
            match n.op {
                Op::Concat => s.w(n.b),
                Op::ZExt => {
                    let i = s.node(n.a);
                    if i.op == Op::Concat {
                        s.w(i.b)
                    } else {
                        s.w(n.a)
                    }
                }
                _ => n.w,
            }
        };
        let bd = lowb(self, a).min(lowb(self, b));
        if bd >= w {
            return None;
        }
        let (al, ah) = (self.extract(a, bd - 1, 0), self.extract(a, w - 1, bd));
        let (bl, bh) = (self.extract(b, bd - 1, 0), self.extract(b, w - 1, bd));
        let l = self.bin(op, al, bl);
        let h = self.bin(op, ah, bh);
        Some(self.concat(h, l))
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        let n = self.node(a);
        if n.op == Op::Const && w <= 128 {
            return self.c(n.k, w);
        }
        if n.op == Op::Undef {
            let z = self.c(0, 1);
            let _ = z;
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::Const && w <= 128 {
            return self.c(sx(n.k, n.w) as u128, w);
        }
        if n.w <= 128 && self.um(a) < (1u128 << (n.w - 1)) {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        if self.w(a) == w {
            return a;
        }
        self.extract(a, w - 1, 0)
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let n = self.node(a);
        let w = hi - lo + 1;
        debug_assert!(hi < n.w && lo <= hi);
        if w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Undef => return self.undef(w),
            Op::Extract => return self.extract(n.a, hi + n.k as u32, lo + n.k as u32),
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    if w > 128 {
                        let z = self.c(0, 1);
                        return self.zext(z, w);
                    }
                    return self.c(0, w);
                }
                if hi < aw {
                    return self.extract(n.a, hi, lo);
                }
                let x = self.extract(n.a, aw - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if hi < aw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < aw {
                    let x = self.extract(n.a, aw - 1, lo);
                    return self.sext(x, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let l = self.extract(n.b, lw - 1, lo);
                let h = self.extract(n.a, hi - lw, 0);
                return self.concat(h, l);
            }
            Op::Ite => {
                let simple = |s: &Self, e: E| matches!(s.node(e).op, Op::Const | Op::Concat | Op::ZExt | Op::Ite | Op::Undef);
                if simple(self, n.b) && simple(self, n.c) {
                    let p = self.extract(n.b, hi, lo);
                    let q = self.extract(n.c, hi, lo);
                    return self.ite(n.a, p, q);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let p = self.extract(n.a, hi, lo);
                let q = self.extract(n.b, hi, lo);
                return self.bin(n.op, p, q);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let p = self.extract(n.a, hi, 0);
                let q = self.extract(n.b, hi, 0);
                return self.bin(n.op, p, q);
            }
            _ => {}
        }
        if n.w <= 128 && lo < 128 && (self.um(a) >> lo) == 0 {
            return self.c(0, w);
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.node(h), self.node(l));
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if w <= 128 {
            if let (Op::Const, Op::Const) = (nh.op, nl.op) {
                return self.c((nh.k << nl.w) | nl.k, w);
            }
        }
        if nh.op == Op::Undef && nl.op == Op::Undef {
            return self.undef(w);
        }
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        // right nest
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        // merge adjacent
        if let Some(x) = self.merge(h, l) {
            return x;
        }
        if nl.op == Op::Concat {
            if let Some(x) = self.merge(h, nl.a) {
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::Const && nl.op == Op::Concat && self.node(nl.a).op == Op::Const && nh.w + self.w(nl.a) <= 128 {
            let x = self.concat(h, nl.a);
            return self.concat(x, nl.b);
        }
        if nh.op == Op::Const && nl.op == Op::ZExt {
            // const ++ 0 ++ x
            let zw = nl.w - self.w(nl.a);
            if nh.w + zw <= 128 {
                let z = self.c(nh.k << zw, nh.w + zw);
                return self.mk(Node { op: Op::Concat, w, a: z, b: nl.a, c: 0, k: 0 });
            }
        }
        // x ++ 0 ++ y  where l is zext
        if nl.op == Op::ZExt {
            let zw = nl.w - self.w(nl.a);
            if zw <= 128 {
                let z = self.c(0, zw);
                let r = self.mk(Node { op: Op::Concat, w: nl.w, a: z, b: nl.a, c: 0, k: 0 });
                return self.mk(Node { op: Op::Concat, w, a: h, b: r, c: 0, k: 0 });
            }
        }
        // same-condition ites
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let p = self.concat(nh.b, nl.b);
            let q = self.concat(nh.c, nl.c);
            return self.ite(nh.a, p, q);
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    fn merge(&mut self, h: E, l: E) -> Option<E> {
        let (nh, nl) = (self.node(h), self.node(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return Some(self.extract(nh.a, (nh.k as u32) + nh.w - 1, nl.k as u32));
        }
        // sign bits: extract of sext
        if nh.op == Op::Extract {
            // h = extract(hi..aw) of SExt(x), l == x
            let base = self.node(nh.a);
            if base.op == Op::SExt {
                let xw = self.w(base.a);
                if nh.k as u32 == xw && base.a == l {
                    return Some(self.sext(l, nh.w + nl.w));
                }
                if nh.k as u32 == xw && nl.op == Op::Extract && nl.a == base.a && nl.k as u32 + nl.w == xw {
                    return Some(self.extract(nh.a, xw + nh.w - 1, nl.k as u32));
                }
            }
        }
        // Distributed truncation: byte 0 of an Add becomes Add of bytes; not merged back.
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.is_c(c) {
            return if k == 1 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.node(c);
        if nc.op == Op::Xor && nc.b == 1 {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(_), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(_)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let na = self.node(a);
        let nb = self.node(b);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let o = self.bin(Op::Or, c, nb.a);
            return self.ite(o, a, nb.c);
        }
        // zext of both
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(Op::Eq, a, b)
    }
    pub fn cmp(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut ca, mut cb) = (self.is_c(a), self.is_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op {
                Op::Eq => x == y,
                Op::Ult => x < y,
                Op::Ule => x <= y,
                Op::Slt => sx(x, w) < sx(y, w),
                Op::Sle => sx(x, w) <= sx(y, w),
                _ => unreachable!(),
            };
            return r as E;
        }
        if a == b {
            return matches!(op, Op::Eq | Op::Ule | Op::Sle) as E;
        }
        if w > 128 {
            if op == Op::Eq {
                // split
                let h = self.extract(a, w - 1, 128);
                let h2 = self.extract(b, w - 1, 128);
                let l = self.extract(a, 127, 0);
                let l2 = self.extract(b, 127, 0);
                let p = self.eq(h, h2);
                let q = self.eq(l, l2);
                return self.bin(Op::And, p, q);
            }
            return self.raw(op, 1, a, b);
        }
        let m = mask(w);
        match op {
            Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                    std::mem::swap(&mut ca, &mut cb);
                }
                let na = self.node(a);
                let nb = self.node(b);
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    if y > self.um(a) {
                        return 0;
                    }
                    match na.op {
                        Op::ZExt => {
                            let aw = self.w(na.a);
                            let k = self.c(y, aw);
                            return self.eq(na.a, k);
                        }
                        Op::SExt => {
                            let aw = self.w(na.a);
                            let k = y & mask(aw);
                            if (sx(k, aw) as u128) & m != y {
                                return 0;
                            }
                            let k = self.c(k, aw);
                            return self.eq(na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.c(y >> lw, w - lw);
                            let kl = self.c(y, lw);
                            let p = self.eq(na.a, kh);
                            if p == 0 {
                                return 0;
                            }
                            let q = self.eq(na.b, kl);
                            return self.bin(Op::And, p, q);
                        }
                        Op::Add => {
                            if let Some(x) = self.is_c(na.b) {
                                let k = self.c(y.wrapping_sub(x), w);
                                return self.eq(na.a, k);
                            }
                        }
                        Op::Sub if y == 0 => return self.eq(na.a, na.b),
                        Op::Xor => {
                            if let Some(x) = self.is_c(na.b) {
                                let k = self.c(y ^ x, w);
                                return self.eq(na.a, k);
                            }
                            if y == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        Op::Or if y == 0 => {
                            let p = self.eq(na.a, b);
                            let q = self.eq(na.b, b);
                            return self.bin(Op::And, p, q);
                        }
                        Op::Ite => {
                            let (p, q) = (self.is_c(na.b), self.is_c(na.c));
                            if p.is_some() || q.is_some() {
                                let x = self.eq(na.b, b);
                                let z = self.eq(na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (aw, bw) = (self.w(na.a), self.w(nb.a));
                        let m = aw.max(bw);
                        let p = self.zext(na.a, m);
                        let q = self.zext(nb.a, m);
                        return self.eq(p, q);
                    }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                        return self.eq(na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let p = self.eq(na.a, nb.a);
                        if p == 0 {
                            return 0;
                        }
                        let q = self.eq(na.b, nb.b);
                        return self.bin(Op::And, p, q);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.eq(na.a, nb.a);
                    }
                    // x + c == x
                    if na.op == Op::Add && na.a == b && self.is_c(na.b).map_or(false, |k| k != 0) {
                        return 0;
                    }
                    if nb.op == Op::Add && nb.a == a && self.is_c(nb.b).map_or(false, |k| k != 0) {
                        return 0;
                    }
                }
            }
            Op::Ult => {
                if cb == Some(0) {
                    return 0;
                }
                if let Some(y) = cb {
                    if self.um(a) < y {
                        return 1;
                    }
                    if y == 1 {
                        let z = self.c(0, w);
                        return self.eq(a, z);
                    }
                    let na = self.node(a);
                    if na.op == Op::ZExt {
                        let k = self.c(y, self.w(na.a));
                        if y <= mask(self.w(na.a)) {
                            return self.cmp(op, na.a, k);
                        }
                    }
                    if y == m {
                        let e = self.eq(a, b);
                        return self.not(e);
                    }
                    // power of two bound on wide value: high bits are zero
                    if y.is_power_of_two() && na.op == Op::Concat {
                        let h = self.extract(a, w - 1, y.trailing_zeros());
                        let z = self.c(0, self.w(h));
                        return self.eq(h, z);
                    }
                }
                if let Some(x) = ca {
                    if x == m || x >= self.um(b) {
                        return 0;
                    }
                    if x == 0 {
                        let z = self.c(0, w);
                        let e = self.eq(b, z);
                        return self.not(e);
                    }
                    let nb = self.node(b);
                    if nb.op == Op::ZExt {
                        let k = self.c(x, self.w(nb.a));
                        return self.cmp(op, k, nb.a);
                    }
                }
                let (na, nb) = (self.node(a), self.node(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let m = self.w(na.a).max(self.w(nb.a));
                    let p = self.zext(na.a, m);
                    let q = self.zext(nb.a, m);
                    return self.cmp(op, p, q);
                }
            }
            Op::Ule => {
                if ca == Some(0) || cb == Some(m) {
                    return 1;
                }
                if let Some(y) = cb {
                    if self.um(a) <= y {
                        return 1;
                    }
                    let k = self.c(y + 1, w);
                    return self.cmp(Op::Ult, a, k);
                }
                if let Some(x) = ca {
                    // x <= b  <=> x-1 < b
                    let k = self.c(x - 1, w);
                    return self.cmp(Op::Ult, k, b);
                }
                let (na, nb) = (self.node(a), self.node(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let m = self.w(na.a).max(self.w(nb.a));
                    let p = self.zext(na.a, m);
                    let q = self.zext(nb.a, m);
                    return self.cmp(op, p, q);
                }
            }
            Op::Slt | Op::Sle => {
                let half = 1u128 << (w - 1);
                if self.um(a) < half && self.um(b) < half {
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sign test
                if op == Op::Slt && cb == Some(0) {
                    let s = self.extract(a, w - 1, w - 1);
                    return s;
                }
                if op == Op::Slt && ca == Some(m) {
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                if op == Op::Sle && cb == Some(m) {
                    let s = self.extract(a, w - 1, w - 1);
                    return s;
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                let (na, nb) = (self.node(a), self.node(b));
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(op, na.a, nb.a);
                }
            }
            _ => unreachable!(),
        }
        self.raw(op, 1, a, b)
    }

    /// Variables a term depends on (sorted).
    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.vars[x as usize].is_some() {
                continue;
            }
            let n = self.n[x as usize];
            let ar = arity(n.op);
            if !done {
                st.push((x, true));
                if ar > 0 {
                    st.push((n.a, false));
                }
                if ar > 1 {
                    st.push((n.b, false));
                }
                if ar > 2 {
                    st.push((n.c, false));
                }
                continue;
            }
            let r: Rc<Vec<u32>> = match n.op {
                Op::Var => Rc::new(vec![n.k as u32]),
                Op::Const | Op::Undef => Rc::new(vec![]),
                _ => {
                    let mut out = self.vars[n.a as usize].clone().unwrap();
                    for (i, k) in [n.b, n.c].iter().enumerate() {
                        if ar > i + 1 {
                            let o = self.vars[*k as usize].clone().unwrap();
                            out = union(&out, &o);
                        }
                    }
                    out
                }
            };
            self.vars[x as usize] = Some(r);
        }
        self.vars[e as usize].clone().unwrap()
    }

    pub fn new_model(&mut self) {
        self.stamp += 1;
    }
    /// Evaluate under a byte assignment (missing variables are 0). Undef evaluates to `ud`.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        if let Some(k) = self.is_c(e) {
            return k;
        }
        let stamp = self.stamp;
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.ev[x as usize].0 == stamp {
                continue;
            }
            let n = self.n[x as usize];
            let ar = arity(n.op);
            if !done && ar > 0 {
                st.push((x, true));
                st.push((n.a, false));
                if ar > 1 {
                    st.push((n.b, false));
                }
                if ar > 2 {
                    st.push((n.c, false));
                }
                continue;
            }
            let g = |k: E| self.ev[k as usize].1;
            let m = mask(n.w);
            let r = match n.op {
                Op::Const => n.k,
                Op::Var => *model.get(n.k as usize).unwrap_or(&0) as u128,
                Op::Undef => 0,
                Op::Eq => (g(n.a) == g(n.b)) as u128,
                Op::Ult => (g(n.a) < g(n.b)) as u128,
                Op::Ule => (g(n.a) <= g(n.b)) as u128,
                Op::Slt => {
                    let w = self.n[n.a as usize].w;
                    (sx(g(n.a), w) < sx(g(n.b), w)) as u128
                }
                Op::Sle => {
                    let w = self.n[n.a as usize].w;
                    (sx(g(n.a), w) <= sx(g(n.b), w)) as u128
                }
                Op::Ite => {
                    if g(n.a) == 1 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                Op::ZExt => g(n.a),
                Op::SExt => (sx(g(n.a), self.n[n.a as usize].w) as u128) & m,
                Op::Extract => {
                    let aw = self.n[n.a as usize].w;
                    if aw > 128 {
                        // recompute from structure
                        self.eval_wide(x, model)
                    } else {
                        (g(n.a) >> (n.k as u32)) & m
                    }
                }
                Op::Concat => {
                    if n.w > 128 {
                        0
                    } else {
                        (g(n.a) << self.n[n.b as usize].w) | g(n.b)
                    }
                }
                Op::UDiv => {
                    let y = g(n.b);
                    if y == 0 {
                        m
                    } else {
                        g(n.a) / y
                    }
                }
                Op::URem => {
                    let y = g(n.b);
                    if y == 0 {
                        g(n.a)
                    } else {
                        g(n.a) % y
                    }
                }
                Op::SDiv => {
                    let y = g(n.b);
                    if y == 0 {
                        if sx(g(n.a), n.w) < 0 {
                            1
                        } else {
                            m
                        }
                    } else {
                        Self::fold(n.op, n.w, g(n.a), y).unwrap()
                    }
                }
                Op::SRem => {
                    let y = g(n.b);
                    if y == 0 {
                        g(n.a)
                    } else {
                        Self::fold(n.op, n.w, g(n.a), y).unwrap()
                    }
                }
                _ => Self::fold(n.op, n.w, g(n.a), g(n.b)).unwrap(),
            };
            self.ev[x as usize] = (stamp, r);
        }
        self.ev[e as usize].1
    }
    fn eval_wide(&self, _x: E, _m: &[u8]) -> u128 {
        panic!("evaluation of an extract from a >128-bit opaque term is not supported")
    }
    pub fn size(&self) -> usize {
        self.n.len()
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.node(e);
        if d == 0 {
            return format!("#{}", e);
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Undef => format!("undef:{}", n.w),
            Op::Extract => format!("{}[{}:{}]", self.show(n.a, d - 1), n.k + n.w as u128 - 1, n.k),
            Op::ZExt => format!("zext{}({})", n.w, self.show(n.a, d - 1)),
            Op::SExt => format!("sext{}({})", n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

pub fn arity(op: Op) -> usize {
    match op {
        Op::Const | Op::Var | Op::Undef => 0,
        Op::ZExt | Op::SExt | Op::Extract => 1,
        Op::Ite => 3,
        _ => 2,
    }
}

pub fn union(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if Rc::ptr_eq(a, b) || b.is_empty() {
        return a.clone();
    }
    if a.is_empty() {
        return b.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            r.push(a[i]);
            i += 1
        } else if a[i] > b[j] {
            r.push(b[j]);
            j += 1
        } else {
            r.push(a[i]);
            i += 1;
            j += 1
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    if r.len() == a.len() {
        return a.clone();
    }
    Rc::new(r)
}
