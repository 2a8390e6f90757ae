//! What the schema compiler reads out of literals: integer, float, string and
//! enum defaults, and the values of enum variants.
use crate::{fs, sym};
use planus_types::ast::{FloatType, IntegerType};
use planus_types::intermediate::*;

pub fn translate(text: &[u8]) -> Option<Declarations> {
    fs::put("a.fbs", text);
    planus_translation::translate_files(&["a.fbs"])
}
/// A schema text put together from fixed and symbolic parts.
#[derive(Default)]
pub struct Txt(pub Vec<u8>);
impl Txt {
    pub fn s(&mut self, s: &str) -> &mut Self {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn b(&mut self, s: &[u8]) -> &mut Self {
        self.0.extend_from_slice(s);
        self
    }
}
pub const INTS: [(&str, i128, i128); 8] = [
    ("ubyte", 0, u8::MAX as i128),
    ("byte", i8::MIN as i128, i8::MAX as i128),
    ("ushort", 0, u16::MAX as i128),
    ("short", i16::MIN as i128, i16::MAX as i128),
    ("uint", 0, u32::MAX as i128),
    ("int", i32::MIN as i128, i32::MAX as i128),
    ("ulong", 0, u64::MAX as i128),
    ("long", i64::MIN as i128, i64::MAX as i128),
];
pub fn int_of(l: &IntegerLiteral) -> (usize, i128) {
    match *l {
        IntegerLiteral::U8(x) => (0, x as i128),
        IntegerLiteral::I8(x) => (1, x as i128),
        IntegerLiteral::U16(x) => (2, x as i128),
        IntegerLiteral::I16(x) => (3, x as i128),
        IntegerLiteral::U32(x) => (4, x as i128),
        IntegerLiteral::I32(x) => (5, x as i128),
        IntegerLiteral::U64(x) => (6, x as i128),
        IntegerLiteral::I64(x) => (7, x as i128),
    }
}
pub fn decl<'a>(d: &'a Declarations, name: &str) -> Option<&'a DeclarationKind> {
    for (p, x) in d.declarations.iter() {
        if p.0.len() == 1 && p.0[0] == name {
            return Some(&x.kind);
        }
    }
    None
}
pub fn table<'a>(d: &'a Declarations, name: &str) -> &'a Table {
    match decl(d, name) {
        Some(DeclarationKind::Table(t)) => t,
        _ => {
            sym::check(false, 148);
            unreachable!()
        }
    }
}
/// `n` symbolic digits of the base, any of which but the first may be `_`.
pub fn digits(n: usize, hex: bool, under: bool, first: bool) -> Vec<u8> {
    let b = sym::bvec(n);
    for (i, &c) in b.iter().enumerate() {
        let d = c.is_ascii_digit();
        let h = (c >= b'a' && c <= b'f') | (c >= b'A' && c <= b'F');
        let u = c == b'_';
        sym::assume(d | (h & hex) | (u & under & !(first & (i == 0))));
    }
    b
}
/// The value of digits, underscores left out; `None` without a digit.
pub fn value(b: &[u8], hex: bool) -> Option<i128> {
    let mut v = 0i128;
    let mut any = false;
    for &c in b {
        if c == b'_' {
            continue;
        }
        any = true;
        let d = if c <= b'9' { c - b'0' } else { (c | 32) - b'a' + 10 };
        v = v.wrapping_mul(if hex { 16 } else { 10 }).wrapping_add(d as i128);
    }
    any.then_some(v)
}

/// `[type, prefix digits of the largest value, symbolic digits, sign 0..3, hex, underscores]`
fn int() {
    let (name, min, max) = INTS[sym::param(0) as usize];
    let (pre, n, sign, hex) = (sym::param(1) as usize, sym::param(2) as usize, sym::param(3), sym::param(4) == 1);
    let neg = sign & 1 == 1;
    let big = if neg && min != 0 { -min } else { max };
    let mut big = if hex { format!("{:x}", big as u64) } else { format!("{}", big as u64) };
    big.truncate(pre);
    let mut num = big.into_bytes();
    let under = sym::param(5) == 1;
    num.extend_from_slice(&digits(n, hex, under, num.is_empty() && !hex));
    let mut t = Txt::default();
    t.s("table T { x: ").s(name).s(" = ").s(["", "-", "+", "- +"][sign as usize]);
    if hex {
        t.s("0x");
    }
    t.b(&num).s("; }\n");
    let got = translate(&t.0);
    let want = value(&num, hex).map(|v| if neg { v.wrapping_neg() } else { v }).filter(|v| min <= *v && *v <= max);
    sym::check(got.is_some() == want.is_some(), 140);
    if let (Some(d), Some(v)) = (got, want) {
        let t = table(&d, "T");
        match &t.fields["x"].assign_mode {
            AssignMode::HasDefault(Literal::Int(l)) => {
                sym::check(int_of(l) == (sym::param(0) as usize, v), 141);
                sym::cover(1);
            }
            _ => sym::check(false, 141),
        }
    } else {
        sym::cover(2);
    }
}

/// `[double?, form]`: the sign of a float literal, written in up to two characters.
fn float() {
    let double = sym::param(0) == 1;
    let (lit, v) = [("1.5", 1.5f64), ("2", 2.0), ("1_0", 10.0), ("0.25e2", 25.0), ("inf", f64::INFINITY), (".5", 0.5), ("0.0", 0.0)][sym::param(1) as usize];
    let s = sym::bytes::<2>();
    let mut neg = false;
    for c in s {
        sym::assume((c == b'+') | (c == b'-') | (c == b' '));
        if c == b'-' {
            neg = !neg;
        }
    }
    let mut t = Txt::default();
    t.s("table T { x: ").s(if double { "double" } else { "float" }).s(" = ").b(&s).s(lit).s("; }\n");
    let got = translate(&t.0);
    sym::check(got.is_some(), 140);
    if let Some(d) = got {
        let (w32, w64) = ((v as f32).to_bits() | (neg as u32) << 31, v.to_bits() | (neg as u64) << 63);
        match &table(&d, "T").fields["x"].assign_mode {
            AssignMode::HasDefault(Literal::Float(FloatLiteral::F32(x))) => sym::check(!double && x.to_bits() == w32, 141),
            AssignMode::HasDefault(Literal::Float(FloatLiteral::F64(x))) => sym::check(double && x.to_bits() == w64, 141),
            _ => sym::check(false, 141),
        }
        sym::cover(1);
    }
}

fn hexv(c: u8) -> Option<u32> {
    match c {
        b'0'..=b'9' => Some((c - b'0') as u32),
        b'a'..=b'f' => Some((c - b'a') as u32 + 10),
        b'A'..=b'F' => Some((c - b'A') as u32 + 10),
        _ => None,
    }
}
/// What a quoted string denotes, or `None` for an escape that is not one.
fn unescape(b: &[u8]) -> Option<Vec<u8>> {
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            r.push(b[i]);
            i += 1;
            continue;
        }
        let c = *b.get(i + 1)?;
        i += 2;
        match c {
            b'n' => r.push(10),
            b't' => r.push(9),
            b'r' => r.push(13),
            b'b' => r.push(8),
            b'f' => r.push(12),
            b'"' | b'\'' | b'/' | b'\\' => r.push(c),
            b'x' => {
                let v = hexv(*b.get(i)?)? * 16 + hexv(*b.get(i + 1)?)?;
                if v > 127 {
                    return None;
                }
                r.push(v as u8);
                i += 2;
            }
            b'u' => {
                let mut v = 0;
                for k in 0..4 {
                    v = v * 16 + hexv(*b.get(i + k)?)?;
                }
                i += 4;
                if v < 0x80 {
                    r.push(v as u8);
                } else if v < 0x800 {
                    r.push(0xc0 | (v >> 6) as u8);
                    r.push(0x80 | (v & 63) as u8);
                } else {
                    if v >= 0xd800 && v < 0xe000 {
                        return None;
                    }
                    r.push(0xe0 | (v >> 12) as u8);
                    r.push(0x80 | (v >> 6 & 63) as u8);
                    r.push(0x80 | (v & 63) as u8);
                }
            }
            _ => return None,
        }
    }
    Some(r)
}
/// `[bytes, form, quote]`: a string default of symbolic ASCII characters (form 0),
/// of one escape of that many (1: `\`, 2: `\x`, 3: `\u`) and what follows it.
fn string() {
    let n = sym::param(0) as usize;
    let mut body = Vec::from([&b""[..], b"\\", b"\\x", b"\\u"][sym::param(1) as usize]);
    let q = [b'"', b'\''][sym::param(2) as usize];
    let s = sym::bvec(n);
    let esc = sym::param(1) != 0;
    body.extend_from_slice(&s);
    // inside the quotes: no quote of the same kind but an escaped one
    let mut i = 0;
    let mut closed = true;
    for &c in &s {
        sym::assume(c < 128);
    }
    while i < body.len() {
        if body[i] == b'\\' {
            closed = i + 1 < body.len();
            i += 2;
        } else {
            sym::assume(body[i] != q);
            i += 1;
        }
    }
    sym::assume(closed);
    let mut t = Txt::default();
    t.s("table T { x: string = ").b(&[q]).b(&body).b(&[q]).s("; }\n");
    let got = translate(&t.0);
    let want = unescape(&body);
    sym::check(got.is_some() == want.is_some(), 142);
    if let (Some(d), Some(w)) = (got, want) {
        match &table(&d, "T").fields["x"].assign_mode {
            AssignMode::HasDefault(Literal::String(x)) => {
                let x = x.as_bytes();
                sym::check(x.len() == w.len(), 143);
                for (a, b) in x.iter().zip(&w) {
                    sym::check(a == b, 143);
                }
                sym::cover(1);
            }
            _ => sym::check(false, 143),
        }
    } else {
        sym::cover(2);
    }
}

/// `[characters, sign?]`: the default of an enum field, by name or by number.
fn enum_default() {
    let n = sym::param(0) as usize;
    let s = sym::bvec(n);
    for &c in &s {
        sym::assume(c.is_ascii_alphanumeric() | (c == b'_'));
    }
    let neg = sym::param(1) == 1;
    let mut t = Txt::default();
    t.s("enum E : byte { A = -2, Bc, C = 5, D5 = 12, Z = 0 }\ntable T { x: E = ").s(if neg { "-" } else { "" }).b(&s).s("; }\n");
    let names: [(&[u8], i128); 5] = [(b"A", -2), (b"Bc", -1), (b"C", 5), (b"D5", 12), (b"Z", 0)];
    let mut want = None;
    if s[0].is_ascii_digit() {
        let mut num = true;
        for &c in &s {
            num &= c.is_ascii_digit() | (c == b'_');
        }
        if num {
            let v = value(&s, false).unwrap();
            let v = if neg { v.wrapping_neg() } else { v };
            want = names.iter().position(|x| x.1 == v);
        } else {
            // 0x..: the value of one hexadecimal digit
            if s.len() == 3 && s[0] == b'0' && s[1] == b'x' && hexv(s[2]).is_some() {
                let v = hexv(s[2]).unwrap() as i128;
                let v = if neg { v.wrapping_neg() } else { v };
                want = names.iter().position(|x| x.1 == v);
            }
        }
    } else if !neg {
        want = names.iter().position(|x| x.0 == &s[..]);
    }
    let null = s.len() == 4 && &s[..] == b"null";
    sym::assume(!null);
    let got = translate(&t.0);
    sym::check(got.is_some() == want.is_some(), 144);
    if let (Some(d), Some(w)) = (got, want) {
        match &table(&d, "T").fields["x"].assign_mode {
            AssignMode::HasDefault(Literal::EnumTag { variant_index, value }) => {
                sym::check(*variant_index == w && int_of(value) == (1, names[w].1), 144);
                sym::cover(1);
            }
            _ => sym::check(false, 144),
        }
    } else {
        sym::cover(2);
    }
}

/// `[type, symbolic digits, assigned mask, sign mask, prefix]`: the values of four variants.
fn enum_values() {
    let (name, min, max) = INTS[sym::param(0) as usize];
    let (n, mask, signs) = (sym::param(1) as usize, sym::param(2), sym::param(3));
    let mut t = Txt::default();
    t.s("enum E : ").s(name).s(" {");
    let mut prev: Option<i128> = None;
    let mut vals = [0i128; 4];
    let mut ok = true;
    for i in 0..4 {
        t.s([" A", ", B", ", C", ", D"][i]);
        let v = if mask >> i & 1 == 1 {
            let neg = signs >> i & 1 == 1;
            let big = if neg && min != 0 { -min } else { max };
            let mut num = format!("{}", big as u64);
            num.truncate(if sym::param(4) >> i & 1 == 1 { num.len() - n } else { 0 });
            let mut num = num.into_bytes();
            let dg = digits(n, false, false, true);
            num.extend_from_slice(&dg);
            t.s(" = ").s(if neg { "-" } else { "" }).b(&num);
            let v = value(&num, false).unwrap();
            if neg { v.wrapping_neg() } else { v }
        } else {
            prev.map_or(0, |x: i128| x.wrapping_add(1))
        };
        ok &= (min <= v) & (v <= max);
        for j in 0..i {
            ok &= vals[j] != v;
        }
        vals[i] = v;
        prev = Some(v);
    }
    t.s(" }\n");
    let got = translate(&t.0);
    sym::check(got.is_some() == ok, 145);
    if let Some(d) = got {
        match decl(&d, "E") {
            Some(DeclarationKind::Enum(e)) => {
                sym::check(e.variants.len() == 4, 146);
                for (i, (l, v)) in e.variants.iter().enumerate() {
                    sym::check(int_of(l) == (sym::param(0) as usize, vals[i]) && v.name == ["A", "B", "C", "D"][i], 146);
                }
                sym::cover(1);
            }
            _ => sym::check(false, 146),
        }
    } else {
        sym::cover(2);
    }
}
entries! { lit_int = int, lit_float = float, lit_string = string, lit_enum = enum_default, lit_values = enum_values }
