//! Reference reader for FlatBuffers, written from the format documentation. It
//! shares no code with planus. `B::plain` tolerates anything a reader may tolerate;
//! `B::strict` also records what a conforming writer has to respect.
use crate::sym;
use core::cell::{Cell, RefCell};

pub type R<T> = Result<T, ()>;

/// Canonical dump of a value.
/// The flag: some element inside failed.
/// The second: a float equal to its default is written as the default.
pub struct Out(pub Vec<u8>, pub bool, pub bool);
impl Out {
    pub fn new() -> Self {
        Out(Vec::with_capacity(256), false, false)
    }
    pub fn written() -> Self {
        Out(Vec::with_capacity(256), false, true)
    }
    pub fn put(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    pub fn len(&mut self, n: usize) {
        self.put(&[n as u8])
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.len(b.len());
        self.put(b)
    }
    /// An element that can fail on its own: 1 and its dump, or 0.
    pub fn mark(&mut self, f: impl FnOnce(&mut Out) -> R<()>) {
        let n = self.0.len();
        self.put(&[1]);
        if f(self).is_err() {
            self.0.truncate(n);
            self.put(&[0]);
            self.1 = true;
        }
    }
}
pub fn out(f: impl FnOnce(&mut Out) -> R<()>) -> R<Out> {
    let mut o = Out::new();
    f(&mut o).map(|_| o)
}
/// Equality without a branch per byte (lengths are concrete on a path).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

pub fn like(a: &R<Out>, b: &Out) -> bool {
    matches!(a, Ok(a) if same(&a.0, &b.0))
}
pub fn agree(a: &R<Out>, b: &R<Out>) -> bool {
    match b {
        Ok(b) => like(a, b),
        Err(()) => a.is_err(),
    }
}
pub fn loc(l: &planus::errors::ErrorLocation, ty: &str, method: &str, at: usize) -> bool {
    l.type_ == ty && l.method == method && l.byte_offset == at
}
/// The bytes a primitive writes in place.
pub fn prim<T: planus::WriteAsPrimitive<T>, const N: usize>(v: &T) -> [u8; N] {
    let mut m = [core::mem::MaybeUninit::new(0xEEu8); N];
    v.write(planus::Cursor::new(&mut m), N as u32);
    m.map(|x| unsafe { x.assume_init() })
}
/// What a value feeds to a hasher.
pub fn hashed<T: core::hash::Hash>(v: &T) -> Vec<u8> {
    struct H(Vec<u8>);
    impl core::hash::Hasher for H {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b)
        }
    }
    let mut h = H(Vec::with_capacity(256));
    v.hash(&mut h);
    h.0
}

/// What a generator may build.
#[derive(Clone)]
pub struct Gen {
    /// nesting still allowed below this table
    pub depth: usize,
    /// longest vector
    pub vec: usize,
    /// longest string
    pub str: usize,
    /// strings are exactly `str` bytes, vectors exactly `vec` elements
    pub exact: bool,
}
impl Gen {
    pub fn from_params(i: u64) -> Gen {
        let e = sym::param(i + 3);
        Gen { depth: sym::param(i) as usize, vec: sym::param(i + 1) as usize, str: sym::param(i + 2) as usize, exact: e != 0 }
    }
    pub fn n(&mut self) -> usize {
        if self.exact { self.vec } else { sym::pick(self.vec as u64 + 1) }
    }
    pub fn deeper(&self) -> Gen {
        Gen { depth: self.depth.saturating_sub(1), ..self.clone() }
    }
    /// ASCII text (writing does not look at the content; reading other UTF-8 is
    /// covered by the reader entries).
    pub fn string(&mut self) -> String {
        let n = if self.exact { self.str } else { sym::pick(self.str as u64 + 1) };
        let b = sym::bvec(n);
        for x in &b {
            sym::assume(*x < 0x80);
        }
        unsafe { String::from_utf8_unchecked(b) }
    }
}

/// With the caches on, equal strings and byte vectors are shared.
const SHARE: u8 = if cfg!(feature = "caches") { 2 } else { 1 };

pub struct B<'a> {
    d: &'a [u8],
    strict: bool,
    ok: Cell<bool>,
    /// per byte: 0 free, 1 used, 2 vtable
    cov: RefCell<Vec<u8>>,
    shared: RefCell<Vec<(usize, usize)>>,
    /// some nested table keeps its vtable in front of what refers to the table
    pub back: Cell<bool>,
    /// no stored field carries its default
    pub omit: Cell<bool>,
    /// prepared offsets were passed, so a default string may have been written
    pub forced: bool,
}
pub struct Tab {
    pub pos: usize,
    vt: usize,
    pub vtlen: usize,
    pub tlen: usize,
}

impl<'a> B<'a> {
    pub fn plain(d: &'a [u8]) -> Self {
        B { d, strict: false, ok: Cell::new(true), cov: RefCell::new(Vec::new()), shared: RefCell::new(Vec::new()), back: Cell::new(false), omit: Cell::new(true), forced: false }
    }
    pub fn strict(d: &'a [u8]) -> Self {
        B { d, strict: true, ok: Cell::new(true), cov: RefCell::new(vec![0; d.len()]), shared: RefCell::new(Vec::new()), back: Cell::new(false), omit: Cell::new(true), forced: false }
    }
    pub fn is_ok(&self) -> bool {
        self.ok.get()
    }
    pub fn fail_unless(&self, c: bool) {
        self.ok.set(self.ok.get() & c)
    }
    pub fn need(&self, p: usize, n: usize) -> R<()> {
        if p <= self.d.len() && n <= self.d.len() - p {
            Ok(())
        } else {
            Err(())
        }
    }
    pub fn align(&self, p: usize, a: usize) {
        if self.strict {
            self.fail_unless(p & (a - 1) == 0)
        }
    }
    /// kind 2: may be referred to several times.
    pub fn mark(&self, p: usize, n: usize, kind: u8) {
        if self.strict {
            let mut s = self.shared.borrow_mut();
            if kind == 2 && s.contains(&(p, n)) {
                return;
            }
            let mut c = self.cov.borrow_mut();
            for i in p..p + n {
                if i >= c.len() || c[i] != 0 {
                    self.ok.set(false);
                    return;
                }
                c[i] = kind;
            }
            if kind == 2 {
                s.push((p, n));
            }
        }
    }
    /// Padding inside a struct.
    pub fn free(&self, p: usize, n: usize) {
        if self.strict {
            let mut c = self.cov.borrow_mut();
            for i in p..p + n {
                if i < c.len() {
                    c[i] = 0;
                }
            }
        }
    }
    /// The field at p is stored although it equals its default?
    pub fn nodef(&self, p: usize, def: &[u8]) {
        if self.strict && self.need(p, def.len()).is_ok() {
            self.omit.set(self.omit.get() & !same(&self.d[p..p + def.len()], def))
        }
    }
    /// The same for a string or vector behind the offset at p.
    pub fn nostr(&self, p: usize, def: &[u8]) {
        if self.strict && !self.forced {
            if let Ok(q) = self.u32(p).and_then(|x| self.u32(p + x).map(|n| (p + x + 4, n))) {
                if q.1 == def.len() && self.need(q.0, q.1).is_ok() {
                    self.omit.set(self.omit.get() & !same(&self.d[q.0..q.0 + q.1], def))
                }
            }
        }
    }
    /// The same for the vector whose first element is at q.
    pub fn noempty(&self, q: usize) {
        if self.strict {
            self.omit.set(self.omit.get() & (self.u32(q - 4) != Ok(0)))
        }
    }
    /// A deprecated field is never written.
    pub fn absent(&self, t: &Tab, i: usize) {
        if self.strict {
            self.fail_unless(self.cell(t, i) == Ok(0))
        }
    }
    /// Bytes nothing refers to have to be zero padding.
    pub fn padding_zero(&self) -> bool {
        let c = self.cov.borrow();
        let mut d = 0u8;
        for i in 0..c.len() {
            if c[i] == 0 {
                d |= self.d[i];
            }
        }
        d == 0
    }
    pub fn unused(&self) -> usize {
        self.cov.borrow().iter().filter(|x| **x == 0).count()
    }
    pub fn arr<const N: usize>(&self, p: usize) -> R<[u8; N]> {
        self.need(p, N)?;
        self.align(p, N);
        let mut r = [0u8; N];
        r.copy_from_slice(&self.d[p..p + N]);
        Ok(r)
    }
    pub fn u8(&self, p: usize) -> R<u8> {
        Ok(self.arr::<1>(p)?[0])
    }
    pub fn u16(&self, p: usize) -> R<usize> {
        Ok(u16::from_le_bytes(self.arr(p)?) as usize)
    }
    pub fn u32(&self, p: usize) -> R<usize> {
        Ok(u32::from_le_bytes(self.arr(p)?) as usize)
    }
    /// Follow the unsigned offset at p.
    pub fn off(&self, p: usize) -> R<usize> {
        let q = p + self.u32(p)?;
        if self.strict && p == 0 {
            self.mark(0, 4, 1)
        }
        if q <= self.d.len() {
            Ok(q)
        } else {
            Err(())
        }
    }
    pub fn tab(&self, base: usize, pos: usize) -> R<Tab> {
        self.align(pos, 4);
        let so = u32::from_le_bytes(self.arr(pos)?) as i32;
        let vt = pos as i64 - so as i64;
        if vt < 0 || vt > self.d.len() as i64 {
            return Err(());
        }
        let vt = vt as usize;
        self.back.set(self.back.get() | (vt < base));
        let vtlen = self.u16(vt)?;
        if vtlen < 4 || vtlen & 1 != 0 {
            return Err(());
        }
        self.need(vt, vtlen)?;
        let mut tlen = 0;
        if self.strict {
            tlen = self.u16(vt + 2)?;
            self.fail_unless(tlen >= 4 && self.need(pos, tlen).is_ok());
            self.mark(vt, vtlen, 2);
            self.mark(pos, 4, 1);
        }
        Ok(Tab { pos, vt, vtlen, tlen })
    }
    pub fn cell(&self, t: &Tab, i: usize) -> R<usize> {
        if 4 + 2 * i + 2 > t.vtlen {
            return Ok(0);
        }
        self.u16(t.vt + 4 + 2 * i)
    }
    /// The two cells of a union-like field: (tag, value).
    fn cells(&self, t: &Tab, i: usize) -> R<(usize, usize)> {
        Ok((self.cell(t, i)?, self.cell(t, i + 1)?))
    }
    pub fn utag(&self, t: &Tab, i: usize) -> R<Option<(u8, usize)>> {
        // planus treats a vtable ending between the two slots as malformed (its test
        // issue_99)
        if t.vtlen == 4 + 2 * (i + 1) {
            return Err(());
        }
        let (tg, v) = self.cells(t, i)?;
        if tg == 0 {
            self.fail_unless(v == 0);
            return Ok(None);
        }
        let tag = self.u8(t.pos + tg)?;
        if self.strict {
            self.mark(t.pos + tg, 1, 1);
            self.fail_unless(tg >= 4 && tg < t.tlen);
            self.fail_unless((tag == 0) == (v == 0));
            if v != 0 {
                self.mark(t.pos + v, 4, 1);
                self.fail_unless(v >= 4 && v + 4 <= t.tlen);
                self.align(t.pos + v, 4);
            }
        }
        if v == 0 || tag == 0 {
            return Ok(None);
        }
        Ok(Some((tag, t.pos + v)))
    }
    pub fn uvec(&self, t: &Tab, i: usize) -> R<Option<(usize, usize, usize)>> {
        if t.vtlen == 4 + 2 * (i + 1) {
            return Ok(None);
        }
        let (tg, v) = self.cells(t, i)?;
        if tg == 0 && v == 0 {
            return Ok(None);
        }
        if tg == 0 || v == 0 {
            return Err(());
        }
        if self.strict {
            self.mark(t.pos + tg, 4, 1);
            self.mark(t.pos + v, 4, 1);
            self.fail_unless(tg >= 4 && tg + 4 <= t.tlen && v >= 4 && v + 4 <= t.tlen);
        }
        let (tq, tn) = self.vec(t.pos + tg, 1, 1)?;
        let (q, n) = self.vec(t.pos + v, 4, 4)?;
        if tn != n {
            return Err(());
        }
        Ok(Some((tq, q, n)))
    }
}
impl Tab {
    /// Position of field i, None if absent. `n`, `a`: size and alignment of the field.
    pub fn slot(&self, b: &B, i: usize, n: usize, a: usize) -> R<Option<usize>> {
        let v = b.cell(self, i)?;
        if v == 0 {
            return Ok(None);
        }
        if b.strict {
            b.mark(self.pos + v, n, 1);
            b.fail_unless(v >= 4 && v + n <= self.tlen);
            b.align(self.pos + v, a);
        }
        Ok(Some(self.pos + v))
    }
}
impl<'a> B<'a> {
    /// Vector behind the offset at p: (first element, length).
    pub fn vec(&self, p: usize, stride: usize, al: usize) -> R<(usize, usize)> {
        let q = self.off(p)?;
        let n = self.u32(q)?;
        if n > (self.d.len() - q - 4) / stride {
            return Err(());
        }
        if self.strict {
            self.mark(q, 4 + n * stride, if stride == 1 { SHARE } else { 1 });
            self.align(q, 4);
            if n > 0 {
                self.align(q + 4, al);
            }
        }
        Ok((q + 4, n))
    }
    /// String at q.
    pub fn str(&self, q: usize, o: &mut Out) -> R<()> {
        let n = self.u32(q)?;
        self.need(q + 4, n)?;
        if self.strict {
            self.mark(q, 4 + n + 1, SHARE);
            self.align(q, 4);
            self.fail_unless(self.need(q + 4 + n, 1).is_ok() && self.d[q + 4 + n] == 0);
        }
        let s = &self.d[q + 4..q + 4 + n];
        if core::str::from_utf8(s).is_err() {
            return Err(());
        }
        o.bytes(s);
        Ok(())
    }
}

/// One table type, as the generated oracle describes it.
pub trait Tbl {
    type O: Clone + PartialEq + core::fmt::Debug;
    fn gen(g: &mut Gen) -> Self::O;
    fn canon(v: &Self::O, o: &mut Out);
    fn refr(b: &B, p: usize, o: &mut Out) -> R<()>;
    fn finish(b: &mut planus::Builder, v: &Self::O, form: usize, id: Option<[u8; 4]>);
    fn acc(d: &[u8], o: &mut Out) -> R<()>;
    fn owned(d: &[u8]) -> R<Self::O>;
    /// vtable slot, size, alignment, field, is an offset
    const SLOTS: &'static [(usize, usize, usize, usize, bool)];
    fn dflt() -> Self::O;
    fn dwrite(form: usize, b: &mut planus::Builder);
    /// What failing accessors report.
    fn errs(d: &[u8], only: u64);
    fn fields(d: &[u8], only: u64, f: &mut dyn FnMut(R<Out>, R<Out>, bool)) -> bool;
}
