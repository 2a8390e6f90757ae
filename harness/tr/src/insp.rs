//! What the buffer inspector shows of a buffer in the FlatBuffers format.
use crate::sym;
use planus_buffer_inspection::children::{Byterange, Children};
use planus_buffer_inspection::object_info::ObjectName;
use planus_buffer_inspection::{InspectableFlatbuffer, Object, OffsetObject, OffsetObjectKind};
use planus_types::ast::{FloatType, IntegerType};
use planus_types::intermediate::*;

#[derive(Copy, Clone, PartialEq, Debug)]
enum K {
    Int(usize, bool),
    Float(usize),
    Bool,
    Enum,
    Struct,
    Off,
    VTab,
    Table,
    Vect,
    Str,
    Tag,
    Union,
    UTags,
    UVals,
}
/// An object where it lies: what is in it, and what it refers to.
#[derive(Clone)]
struct N {
    name: Option<String>,
    k: K,
    at: usize,
    end: usize,
    kids: Vec<N>,
    to: Option<Box<N>>,
}
fn n(name: &str, k: K, at: usize, size: usize) -> N {
    N { name: Some(name.into()), k, at, end: at + size, kids: vec![], to: None }
}
const LEN: K = K::Int(4, false);

#[derive(Clone)]
enum V {
    Int(Vec<u8>, bool),
    Float(Vec<u8>),
    Bool(u8),
    Enum(Vec<u8>),
    /// size, alignment, fields with their offsets
    Struct(usize, usize, Vec<(&'static str, usize, V)>),
    Str(Vec<u8>),
    Table(usize, Vec<F>),
    Vect(Vec<V>),
    /// a value of a known variant, or bytes of none
    Union(u8, Option<Box<V>>),
    Unions(Vec<(u8, Option<V>)>),
}
#[derive(Clone)]
struct F(&'static str, usize, V);

struct W {
    b: Vec<u8>,
    behind: bool,
}
impl W {
    fn align(&mut self, a: usize) {
        while self.b.len() % a != 0 {
            self.b.push(0);
        }
    }
    fn u16(&mut self, x: usize) {
        self.b.extend_from_slice(&(x as u16).to_le_bytes());
    }
    fn u32(&mut self, x: usize) {
        self.b.extend_from_slice(&(x as u32).to_le_bytes());
    }
    fn patch(&mut self, at: usize, x: i64) {
        self.b[at..at + 4].copy_from_slice(&(x as i32).to_le_bytes());
    }
    /// size and alignment in place
    fn inline(v: &V) -> (usize, usize) {
        match v {
            V::Int(b, _) | V::Float(b) | V::Enum(b) => (b.len(), b.len()),
            V::Bool(_) => (1, 1),
            V::Struct(s, a, _) => (*s, *a),
            _ => (4, 4),
        }
    }
    fn place(&mut self, name: &str, v: &V) -> N {
        let (s, a) = Self::inline(v);
        self.align(a);
        let at = self.b.len();
        match v {
            V::Int(b, sg) => {
                self.b.extend_from_slice(b);
                n(name, K::Int(s, *sg), at, s)
            }
            V::Float(b) => {
                self.b.extend_from_slice(b);
                n(name, K::Float(s), at, s)
            }
            V::Enum(b) => {
                self.b.extend_from_slice(b);
                n(name, K::Enum, at, s)
            }
            V::Bool(b) => {
                self.b.push(*b);
                n(name, K::Bool, at, 1)
            }
            V::Struct(_, _, f) => {
                let mut r = n(name, K::Struct, at, s);
                for (name, o, v) in f {
                    while self.b.len() < at + o {
                        self.b.push(0);
                    }
                    r.kids.push(self.place(name, v));
                }
                while self.b.len() < at + s {
                    self.b.push(0);
                }
                r
            }
            V::Union(_, x) => {
                self.u32(0);
                let mut r = n(name, K::Union, at, 4);
                r.kids.push(match x {
                    Some(_) => N { name: None, ..n("", K::Off, at, 4) },
                    None => n("unknown offset", LEN, at, 4),
                });
                r
            }
            _ => {
                self.u32(0);
                n(name, K::Off, at, 4)
            }
        }
    }
    /// Writes what a placed value refers to.
    fn rest(&mut self, v: &V, r: &mut N) {
        let t = match v {
            V::Str(_) | V::Table(..) | V::Vect(_) => self.object(v),
            V::Union(_, Some(x)) => {
                let t = self.object(x);
                self.patch(r.at, (t.at - r.at) as i64);
                r.kids[0].to = Some(Box::new(t));
                return;
            }
            _ => return,
        };
        self.patch(r.at, (t.at - r.at) as i64);
        r.to = Some(Box::new(t));
    }
    fn object(&mut self, v: &V) -> N {
        match v {
            V::Str(s) => {
                self.align(4);
                let at = self.b.len();
                self.u32(s.len());
                self.b.extend_from_slice(s);
                self.b.push(0);
                N { kids: vec![n("length", LEN, at, 4)], ..n("", K::Str, at, 4 + s.len()) }
            }
            V::Struct(..) => self.place("", v),
            V::Vect(e) => {
                let a = e.first().map_or(4, |e| Self::inline(e).1.max(4));
                while (self.b.len() + 4) % a != 0 {
                    self.b.push(0);
                }
                let at = self.b.len();
                self.u32(e.len());
                let mut r = N { kids: vec![n("length", LEN, at, 4)], ..n("", K::Vect, at, 0) };
                for (i, e) in e.iter().enumerate() {
                    let k = self.place(&i.to_string(), e);
                    r.kids.push(k);
                }
                for (i, e) in e.iter().enumerate() {
                    self.rest(e, &mut r.kids[i + 1]);
                }
                r
            }
            V::Table(extra, f) => self.table(*extra, f),
            _ => unreachable!(),
        }
    }
    fn vtable(&mut self, slots: &[usize], labels: &[String], size: usize) -> N {
        self.align(2);
        let at = self.b.len();
        self.u16(4 + 2 * slots.len());
        self.u16(size);
        let u2 = K::Int(2, false);
        let mut r = N { kids: vec![n("#vtable_size", u2, at, 2), n("#table_size", u2, at + 2, 2)], ..n("", K::VTab, at, 4 + 2 * slots.len()) };
        for (i, o) in slots.iter().enumerate() {
            self.u16(*o);
            r.kids.push(n(&labels[i], u2, at + 4 + 2 * i, 2));
        }
        r
    }
    /// A table with some slots no field is known for.
    fn table(&mut self, extra: usize, f: &[F]) -> N {
        let two = |v: &V| matches!(v, V::Union(..) | V::Unions(_));
        // where the fields end up, relative to the table
        let mut slots = vec![];
        let mut labels: Vec<String> = vec![];
        let mut set = |slots: &mut Vec<usize>, labels: &mut Vec<String>, i: usize, o: usize, l: String| {
            while slots.len() <= i {
                slots.push(0);
                labels.push(format!("?"));
            }
            slots[i] = o;
            labels[i] = l;
        };
        let mut o = 4;
        let up = |o: usize, a: usize| (o + a - 1) / a * a;
        for F(name, slot, v) in f {
            let (s, a) = Self::inline(v);
            o = up(o, a.min(8));
            if two(v) {
                set(&mut slots, &mut labels, *slot + 1, o, format!("offset[union[{name}]]"));
                o += 4;
                if let V::Unions(_) = v {
                    o = up(o, 4);
                    set(&mut slots, &mut labels, *slot, o, format!("offset[union_tag[{name}]]"));
                    o += 4;
                } else {
                    set(&mut slots, &mut labels, *slot, o, format!("offset[union_tag[{name}]]"));
                    o += 1;
                }
            } else {
                set(&mut slots, &mut labels, *slot, o, format!("offset[{name}]"));
                o += s;
            }
        }
        // a newer writer's fields
        let known = if extra > 0 { ALL } else { 0 };
        for i in 0..extra {
            o = up(o, 4);
            set(&mut slots, &mut labels, known + i, o, format!("offset[{}]", known + i));
            o += 4;
        }
        // labels of slots nothing is stored in come from the schema
        for i in 0..slots.len() {
            if slots[i] == 0 {
                labels[i].clear();
            }
        }
        let mut vt = None;
        if !self.behind {
            vt = Some(self.vtable(&slots, &labels, o));
        }
        self.align(8);
        let at = self.b.len();
        self.u32(0);
        let mut r = n("", K::Table, at, 4);
        let mut kids: Vec<(usize, N)> = vec![];
        for F(name, slot, v) in f {
            match v {
                V::Unions(e) => {
                    kids.push((*slot + 1, self.place(name, &V::Unions(vec![]))));
                    kids.push((*slot, self.place(&format!("union_key[{name}]"), &V::Unions(vec![]))));
                }
                V::Union(t, x) => {
                    kids.push((*slot + 1, self.place(name, v)));
                    let p = self.b.len();
                    self.b.push(*t);
                    kids.push((*slot, n(&format!("union_key[{name}]"), K::Tag, p, 1)));
                }
                v => kids.push((*slot, self.place(name, v))),
            }
        }
        while self.b.len() < at + o {
            self.b.push(7);
        }
        if self.behind {
            vt = Some(self.vtable(&slots, &labels, o));
        }
        let vt = vt.unwrap();
        self.patch(at, at as i64 - vt.at as i64);
        for F(_, slot, v) in f {
            match v {
                V::Unions(e) => {
                    self.align(4);
                    let tags = self.b.len();
                    self.u32(e.len());
                    let mut tn = N { kids: vec![n("length", LEN, tags, 4)], ..n("", K::UTags, tags, 0) };
                    for (i, (t, _)) in e.iter().enumerate() {
                        tn.kids.push(n(&i.to_string(), K::Tag, self.b.len(), 1));
                        self.b.push(*t);
                    }
                    self.align(4);
                    let vals = self.b.len();
                    self.u32(e.len());
                    let mut un = N { kids: vec![n("length", LEN, vals, 4)], ..n("", K::UVals, vals, 0) };
                    for (i, (t, x)) in e.iter().enumerate() {
                        let k = self.place(&i.to_string(), &V::Union(*t, x.clone().map(Box::new)));
                        un.kids.push(k);
                    }
                    for (i, (t, x)) in e.iter().enumerate() {
                        self.rest(&V::Union(*t, x.clone().map(Box::new)), &mut un.kids[i + 1]);
                    }
                    for (i, k) in &mut kids {
                        if *i == *slot {
                            self.patch(k.at, (tags - k.at) as i64);
                            k.to = Some(Box::new(tn.clone()));
                        } else if *i == *slot + 1 {
                            self.patch(k.at, (vals - k.at) as i64);
                            k.to = Some(Box::new(un.clone()));
                        }
                    }
                }
                v => {
                    let want = if two(v) { *slot + 1 } else { *slot };
                    for (i, k) in &mut kids {
                        if *i == want {
                            self.rest(v, k);
                        }
                    }
                }
            }
        }
        let mut off = n("#vtable", K::Off, at, 4);
        off.to = Some(Box::new(vt));
        r.kids.push(off);
        kids.sort_by_key(|x| x.0);
        for (_, k) in kids {
            r.kids.push(k);
        }
        r
    }
}

fn le(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate() {
        v |= (*x as u64) << (8 * i);
    }
    v
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    let mut e = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        e = e & (x == y);
    }
    e
}

/// The object is the one expected, is where it is expected, and so is what is in it.
fn check(o: &Object<'_>, w: &N, buf: &InspectableFlatbuffer<'_>, depth: usize) {
    let k = match o {
        Object::Offset(_) => K::Off,
        Object::VTable(_) => K::VTab,
        Object::Table(_) => K::Table,
        Object::Struct(_) => K::Struct,
        Object::UnionTag(_) => K::Tag,
        Object::Union(_) => K::Union,
        Object::UnionVectorTags(_) => K::UTags,
        Object::UnionVectorValues(_) => K::UVals,
        Object::Enum(_) => K::Enum,
        Object::Vector(_) => K::Vect,
        Object::Integer(i) => K::Int(i.type_.byte_size() as usize, matches!(i.type_, IntegerType::I8 | IntegerType::I16 | IntegerType::I32 | IntegerType::I64)),
        Object::Float(f) => K::Float(f.type_.byte_size() as usize),
        Object::Bool(_) => K::Bool,
        Object::String(_) => K::Str,
        _ => {
            sym::check(false, 180);
            return;
        }
    };
    sym::check(k == w.k && o.offset() as usize == w.at, 180);
    let r = o.byterange(buf);
    sym::check(r.0 as usize == w.at && r.1 as usize == w.end, 180);
    let raw = &buf.buffer[w.at..w.end];
    let sx = |v: u64, n: usize| ((v << (64 - 8 * n)) as i64) >> (64 - 8 * n);
    match o {
        Object::Integer(i) => {
            let (ty, v) = crate::lit::int_of(&i.read(buf).unwrap());
            let x = if ty & 1 == 1 { sx(le(raw), raw.len()) as i128 } else { le(raw) as i128 };
            sym::check(v == x, 181);
        }
        Object::Enum(e) => {
            sym::check(e.read(buf).unwrap() == sx(le(raw), raw.len()) as u64, 181);
        }
        Object::Float(f) => match f.read(buf).unwrap() {
            FloatLiteral::F32(x) => sym::check(raw.len() == 4 && x.to_bits() as u64 == le(raw), 181),
            FloatLiteral::F64(x) => sym::check(raw.len() == 8 && x.to_bits() == le(raw), 181),
        },
        Object::Bool(b) => sym::check(b.read(buf).unwrap() == (raw[0] != 0), 181),
        Object::UnionTag(t) => {
            sym::check(t.tag_value(buf).unwrap() == raw[0], 181);
            let v = t.tag_variant(buf).unwrap().map(|x| x.0);
            sym::check(v == [None, Some("L"), Some("s"), Some("P"), None][raw[0] as usize], 181);
        }
        Object::Union(u) => {
            let v = u.tag_variant(buf).unwrap().map(|x| x.0);
            sym::check(v == [None, Some("L"), Some("s"), Some("P"), None][u.tag as usize], 181);
        }
        Object::String(s) => sym::check(same_bytes(s.bytes(buf).unwrap(), &raw[4..]) && s.len(buf).unwrap() as usize == raw.len() - 4, 181),
        Object::VTable(v) => {
            sym::check(v.get_vtable_size(buf).unwrap() as usize == raw.len(), 181);
            for (i, o) in v.get_offsets(buf).unwrap().enumerate() {
                sym::check(o as u64 == le(&raw[4 + 2 * i..6 + 2 * i]), 181);
            }
        }
        _ => {}
    }
    match (o, &w.to) {
        (Object::Offset(o), Some(t)) => match o.follow_offset(buf) {
            Ok(x) => check(&x, t, buf, depth + 1),
            Err(_) => sym::check(false, 180),
        },
        (Object::Offset(_), None) | (_, Some(_)) => sym::check(false, 180),
        _ => {}
    }
    let mut i = 0;
    o.children(buf, |name, x| {
        if i < w.kids.len() {
            let k = &w.kids[i];
            // what a slot without a field is called does not matter
            if k.name.as_deref() != Some("") {
                sym::check(name.as_deref() == k.name.as_deref(), 182);
            }
            check(&x, k, buf, depth + 1);
        }
        i += 1;
    });
    sym::check(i == w.kids.len(), 180);
}

fn leaves<'a>(w: &'a N, out: &mut Vec<&'a N>) {
    if w.kids.is_empty() && w.end > w.at {
        out.push(w);
    }
    for k in &w.kids {
        leaves(k, out);
    }
    if let Some(t) = &w.to {
        leaves(t, out);
    }
}

const SCHEMA: [&str; 2] = [
    "enum E: short { A = -2, B = 3, C = 300 }\nstruct Q { a: int; }\nstruct P { x: ubyte; y: E; z: Q; w: Q; }\ntable L { n: ubyte; t: string; }\nunion U { L, s: string, P }\n\
table T { a: ubyte; p: P; e: E = A; u: U; us: [U]; s: string; l: L; vb: [ushort]; vp: [P]; vs: [string]; vl: [L]; f: float; ok: bool; d: double; k: long; ve: [E]; }\n",
    "enum E: short { A = -2, B = 3, C = 300 }\nstruct Q { a: int; }\nstruct P { x: ubyte; y: E; z: Q; w: Q; }\ntable L { n: ubyte (id: 1); t: string (id: 0); }\nunion U { L, s: string, P }\n\
table T { a: ubyte (id: 17); p: P (id: 16); e: E = A (id: 15); u: U (id: 14); us: [U] (id: 12); s: string (id: 10); l: L (id: 9); vb: [ushort] (id: 8); vp: [P] (id: 7); vs: [string] (id: 6); vl: [L] (id: 5); f: float (id: 4); ok: bool (id: 3); d: double (id: 2); k: long (id: 1); ve: [E] (id: 0); }\n",
];
const ALL: usize = 18;
const NAMES: [&str; 16] = ["a", "p", "e", "u", "us", "s", "l", "vb", "vp", "vs", "vl", "f", "ok", "d", "k", "ve"];
const SLOT: [[usize; 16]; 2] = [[0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17], [17, 16, 15, 13, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]];

fn text(n: usize) -> Vec<u8> {
    let b = sym::bvec(n);
    for c in &b {
        sym::assume((*c >= b'a') & (*c <= b'z'));
    }
    b
}
/// Bytes of a number; fixed ones where it is to be printed, which takes a path per digit.
fn wide(n: usize) -> Vec<u8> {
    if sym::param(5) == 2 {
        (0..n).map(|i| 65 + 20 * i as u8).collect()
    } else {
        sym::bvec(n)
    }
}
fn p() -> V {
    let q = || V::Struct(4, 4, vec![("a", 0, V::Int(wide(4), true))]);
    V::Struct(12, 4, vec![("x", 0, V::Int(sym::bvec(1), false)), ("y", 2, V::Enum(wide(2))), ("z", 4, q()), ("w", 8, q())])
}
fn l(v: usize) -> V {
    let k = [[0, 1], [1, 0]][v];
    V::Table(0, vec![F("n", k[0], V::Int(sym::bvec(1), false)), F("t", k[1], V::Str(text(1)))])
}
fn un(v: usize) -> (u8, Option<V>) {
    let t = sym::pick(4) as u8 + 1;
    (
        t,
        match t {
            1 => Some(l(v)),
            2 => Some(V::Str(text(2))),
            3 => Some(p()),
            _ => None,
        },
    )
}
fn field(i: usize, v: usize, len: usize) -> V {
    match i {
        0 => V::Int(sym::bvec(1), false),
        1 => p(),
        2 => V::Enum(sym::bvec(2)),
        3 => {
            let (t, x) = un(v);
            V::Union(t, x.map(Box::new))
        }
        4 => V::Unions((0..len).map(|_| un(v)).collect()),
        5 => V::Str(text(len)),
        6 => l(v),
        7 => V::Vect((0..len).map(|_| V::Int(wide(2), false)).collect()),
        8 => V::Vect((0..len).map(|_| p()).collect()),
        9 => V::Vect((0..len).map(|_| V::Str(text(1))).collect()),
        10 => V::Vect((0..len).map(|_| l(v)).collect()),
        11 => V::Float(wide(4)),
        12 => V::Bool(sym::u8()),
        13 => V::Float(wide(8)),
        14 => V::Int(wide(8), true),
        _ => V::Vect((0..len).map(|_| V::Enum(sym::bvec(2))).collect()),
    }
}
fn buffer(mask: u64, len: usize, extra: usize, variant: usize, behind: bool) -> (Vec<u8>, N) {
    let f: Vec<F> = (0..16).filter(|i| mask >> i & 1 == 1).map(|i| F(NAMES[i], SLOT[variant][i], field(i, variant, len))).collect();
    let mut w = W { b: vec![0; 4], behind };
    let t = w.table(extra, &f);
    w.patch(0, t.at as i64);
    (w.b, t)
}
fn root(d: &Declarations) -> DeclarationIndex {
    let mut r = None;
    for (i, (p, _)) in d.declarations.iter().enumerate() {
        if p.0[0] == "T" {
            r = Some(DeclarationIndex(i));
        }
    }
    r.unwrap()
}

/// `[fields, length of vectors, slots of a newer writer, ids, vtables behind tables, what]`:
/// a buffer of the fields in the mask; 0: its objects, 1: the object at each byte, 2: what is printed.
fn shows() {
    let (mask, len, extra) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize);
    let variant = sym::param(3) as usize;
    let (b, t) = buffer(mask, len, extra, variant, sym::param(4) == 1);
    let d = crate::lit::translate(SCHEMA[variant].as_bytes());
    sym::check(d.is_some(), 183);
    let Some(d) = d else { return };
    let buf = InspectableFlatbuffer { declarations: &d, buffer: &b };
    let r = OffsetObject { offset: 0, kind: OffsetObjectKind::Table(root(&d)) };
    if sym::param(5) == 0 {
        let mut w = n("", K::Off, 0, 4);
        w.to = Some(Box::new(t));
        check(&Object::Offset(r), &w, &buf, 0);
        sym::cover(1);
        return;
    }
    let m = buf.calculate_object_mapping(root(&d));
    sym::check(m.root_object == r.follow_offset(&buf).unwrap(), 184);
    let mut ls = vec![];
    leaves(&t, &mut ls);
    if sym::param(5) == 1 {
        // every byte of every object leads to that object
        for w in &ls {
            for b in w.at..w.end {
                let mut hits = 0;
                m.get_interpretations_cb(b as u32, &buf, |x| {
                    let (_, r) = m.root_objects.get_index(x.root_object_index).unwrap();
                    sym::check(r.0 as usize <= b && b < r.1 as usize, 184);
                    sym::check(!x.lines.is_empty(), 184);
                    hits += 1;
                });
                sym::check(hits == 1, 184);
            }
        }
        sym::cover(1);
        return;
    }
    for w in &ls {
        let mut hit = false;
        for x in m.get_interpretations(w.at as u32, &buf) {
            let lines = m.line_tree(x.root_object_index, &buf).flatten(&buf);
            let l = &lines[*x.lines.last().unwrap()];
            for (i, y) in lines.iter().enumerate() {
                sym::check(y.start_line_index == i || (y.end_line_index == i && y.line == "}"), 185);
                sym::check(y.line.len() <= y.object_width, 185);
            }
            if l.start as usize == w.at && l.end as usize == w.end {
                let raw = &b[w.at..w.end];
                let mut want = String::new();
                if let (Some(n), false) = (&w.name, w.name.as_deref() == Some("")) {
                    want.push_str(n);
                    want.push_str(": ");
                }
                let known = match w.k {
                    K::Int(1, false) => {
                        want.push_str(&raw[0].to_string());
                        true
                    }
                    K::Tag => {
                        want.push_str(["", "U::L", "U::s", "U::P", "U::UnknownVariant(4)"][raw[0] as usize]);
                        true
                    }
                    K::Enum => {
                        let v = le(raw) as u16 as i16;
                        match v {
                            -2 => want.push_str("E::A"),
                            3 => want.push_str("E::B"),
                            300 => want.push_str("E::C"),
                            _ => {
                                want.push_str("E::UnknownTag(");
                                want.push_str(&v.to_string());
                                want.push_str(")");
                            }
                        }
                        true
                    }
                    K::Bool => {
                        want.push_str(if raw[0] != 0 { "true" } else { "false" });
                        true
                    }
                    _ => false,
                };
                if known {
                    sym::check(same_bytes(l.line.as_bytes(), want.as_bytes()), 185);
                }
                hit = true;
            }
        }
        sym::check(hit, 184);
    }
    // a string is shown where it is referred to
    if mask >> 5 & 1 == 1 {
        let mut s = None;
        for k in &t.kids {
            if k.name.as_deref() == Some("s") {
                s = k.to.as_ref();
            }
        }
        let s = s.unwrap();
        let i = m.root_objects.get_index_of(&m.root_object).unwrap();
        let mut want = b"s: \"".to_vec();
        want.extend_from_slice(&b[s.at + 4..s.end]);
        want.extend_from_slice(format!("\" (len={})", s.end - s.at - 4).as_bytes());
        let mut hit = false;
        for l in m.line_tree(i, &buf).flatten(&buf) {
            if l.line.len() == want.len() {
                hit = hit | same_bytes(l.line.as_bytes(), &want);
            }
        }
        sym::check(hit, 185);
    }
    sym::cover(1);
}
entries! { insp_shows = shows }
