//! The formatter: what it keeps, and that it is idempotent.
use crate::{fs, sym};

fn format(text: &[u8], ignore: bool) -> Option<String> {
    fs::put("a.fbs", text);
    planus_translation::format_file(&"a.fbs", ignore)
}

/// Schemas as their tokens; a gap of whitespace and comments fits in front of
/// each and behind the last.
const TEMPLATES: [&[&str]; 20] = [
    &["table", "T", "{", "x", ":", "int", "=", "-", "3", "(", "id", ":", "0", ",", "key", ")", ";", "}"],
    &["struct", "S", "(", "force_align", ":", "8", ")", "{", "x", ":", "short", ";", "y", ":", "int", ";", "}"],
    &["enum", "E", ":", "byte", "(", "bit_flags", ")", "{", "A", "=", "1", ",", "B", ",", "}"],
    &["union", "U", "{", "A", ",", "b", ":", "ns", ".", "B", ",", "C", "}"],
    &["include", "\"b.fbs\"", ";", "namespace", "a", ".", "b", ".", "c", ";", "root_type", "T", ";"],
    &["rpc_service", "R", "{", "f", "(", "A", ")", ":", "ns", ".", "B", "(", "streaming", ")", ";", "}"],
    &["table", "A", "{", "}", "struct", "B", "{", "}", "table", "C", "{", "}"],
    &["file_identifier", "'ABCD'", ";", "file_extension", "\"a//b\"", ";", "attribute", "foo", ";", "attribute", "\"b\"", ";"],
    &["table", "T", "{", "v", ":", "[", "a", ".", "B", "]", "=", "[", "1", ",", "2", ",", "]", ";", "}"],
    &["union", "U", "{", "}", "rpc_service", "R", "{", "}", "enum", "E", ":", "int", "{", "}"],
    &["table", "T", "{", "a", ":", "[", "int", ":", "3", "]", "(", "id", ":", "1", ",", ")", ";", "b", ":", "string", "=", "'\\'//'", ";", "}"],
    &["native_include", "\"x\"", ";", "enum", "E", ":", "ubyte", "{", "A", "=", "0x1_0", ",", "B", "}", "table", "T", "{", "f", ":", "float", "=", "1.5e2", ";", "}"],
    &["table", "T", "{", "x", ":", "int", "=", "+", "3", ";", "y", ":", "int", "=", "-", "-", "3", "(", "deprecated", ",", "hash", ":", "'h'", ",", ")", ";", "}"],
    &["table", "T", "(", "original_order", ",", "private", ":", "1", ")", "{", "v", ":", "[", "[", "a", ".", "b", ".", "C", "]", "]", ";", "w", ":", "E", "=", "B", ";", "}"],
    &["struct", "S", "(", "force_align", ":", "8", ",", "x", ")", "{", "}", "enum", "E", ":", "int", "(", "private", ")", "{", "}"],
    &["union", "U", "(", "private", ")", "{", "a", ":", "B", "(", "x", ",", "y", ":", "-", "1", ")", ",", "[", "int", "]", "}"],
    &["rpc_service", "R", "{", "f", "(", "A", ")", ":", "B", ";", "g", "(", "a", ".", "A", ")", ":", "B", "(", "streaming", ":", "'x'", ",", "idempotent", ")", ";", "}"],
    &["root_type", "a", ".", "b", ".", "T", ";", "enum", "E", ":", "int", "{", "A", "=", "-", "1", ",", "B", "=", "+", "2", ",", "}"],
    &[],
    &["table", "table", "{", "include", ":", "string", "=", "[", "[", "-", "1", "]", ",", "'x'", "]", ";", "root_type", ":", "[", "enum", ":", "3", "]", ";", "}"],
];

/// Tokens and comments of a text (comments without what trails them), both in order.
struct Scan {
    toks: Vec<u8>,
    comments: Vec<u8>,
}
fn ws(c: u8) -> bool {
    (c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r') | (c == 12)
}
fn scan(t: &[u8]) -> Scan {
    let mut r = Scan { toks: vec![], comments: vec![] };
    let mut i = 0;
    let mut glue = false;
    while i < t.len() {
        let c = t[i];
        if ws(c) {
            i += 1;
            glue = false;
            continue;
        }
        if c == b'/' && i + 1 < t.len() && t[i + 1] == b'/' {
            let mut e = i;
            while e < t.len() && t[e] != b'\n' {
                e += 1;
            }
            let mut k = e;
            while k > i && (ws(t[k - 1]) || t[k - 1] == 11) {
                k -= 1;
            }
            r.comments.extend_from_slice(&t[i..k]);
            r.comments.push(b'\n');
            i = e;
            glue = false;
            continue;
        }
        if c == b'"' || c == b'\'' {
            let s = i;
            i += 1;
            while i < t.len() && t[i] != c {
                i += if t[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            r.toks.extend_from_slice(&t[s..i.min(t.len())]);
            r.toks.push(b' ');
            glue = false;
            continue;
        }
        let word = c.is_ascii_alphanumeric() || c == b'_';
        if !(word && glue) && r.toks.last().map_or(false, |x| *x != b' ') {
            r.toks.push(b' ');
        }
        // a comma in front of a closing bracket means nothing
        if (c == b')' || c == b']' || c == b'}') && r.toks.len() >= 2 && r.toks[r.toks.len() - 2] == b',' {
            let n = r.toks.len() - 2;
            r.toks.truncate(n);
        }
        r.toks.push(c);
        glue = word;
        i += 1;
    }
    r
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut e = true;
    for (x, y) in a.iter().zip(b) {
        e &= x == y;
    }
    e
}

/// The pieces of a gap, in base 8: 1 a blank of any kind, 2 a comment of one
/// symbolic character, 3 a newline, 4 a comment of two, 5 two newlines, 6 a
/// fixed comment, 7 a comment ending in a carriage return.
fn gap(t: &mut Vec<u8>, mut pieces: u64) {
    while pieces > 0 {
        match pieces & 7 {
            1 => {
                let c = sym::u8();
                sym::assume(ws(c) & (c != b'\r'));
                t.push(c);
            }
            p @ (2 | 4) => {
                t.extend_from_slice(b"//");
                for _ in 0..p / 2 {
                    let c = sym::u8();
                    sym::assume((c != b'\n') & (c < 128));
                    t.push(c);
                }
                t.push(b'\n');
            }
            3 => t.push(b'\n'),
            5 => t.extend_from_slice(b"\n\n"),
            6 => t.extend_from_slice(b"//! c \n"),
            _ => t.extend_from_slice(b"/// d\r\n"),
        }
        pieces >>= 3;
    }
}

/// `[template, pieces, pieces of the next gap, first gap (or 99), spread, ignore errors]`
fn fmt() {
    let toks = TEMPLATES[sym::param(0) as usize];
    let at = if sym::param(3) == 99 { sym::pick(toks.len() as u64 + 1) } else { sym::param(3) as usize };
    let at2 = at + sym::param(4) as usize;
    let mut t = vec![];
    for i in 0..=toks.len() {
        if i > 0 {
            t.extend_from_slice(toks[i - 1].as_bytes());
        }
        if i == at {
            t.push(b' ');
            gap(&mut t, sym::param(1));
        } else if i == at2 {
            t.push(b' ');
            gap(&mut t, sym::param(2));
        }
        t.push(b' ');
    }
    let out = format(&t, sym::param(5) == 1);
    sym::check(out.is_some(), 160);
    let Some(out) = out else { return };
    let (a, b) = (scan(&t), scan(out.as_bytes()));
    sym::check(same(&a.toks, &b.toks), 161);
    sym::check(same(&a.comments, &b.comments), 162);
    let again = format(out.as_bytes(), sym::param(5) == 1);
    match again {
        Some(x) => sym::check(same(x.as_bytes(), out.as_bytes()), 163),
        None => sym::check(false, 163),
    }
    sym::cover(1);
}

/// Where arbitrary bytes are put.
const AROUND: [(&str, &str); 24] = [
    ("", ""),
    ("table ", " { x: int; }"),
    ("table T ", " { x: int; }"),
    ("table T { ", " }"),
    ("table T { x", " int; }"),
    ("table T { x: ", "; }"),
    ("table T { x: int = ", "; }"),
    ("table T { x: string = \"", "\"; }"),
    ("table T { x: int (", "); }"),
    ("table T { x: [", "]; }"),
    ("table T { x: int; ", ""),
    ("struct S { x: int; ", " }"),
    ("struct S (force_align: ", ") { x: int; }"),
    ("enum E : byte { A", " B }"),
    ("enum E : ", " { A }"),
    ("table T {} union U { T", " }"),
    ("namespace a", "; table T {}"),
    ("table T {} root_type ", ";"),
    ("file_identifier \"", "\";"),
    ("include \"", "\"; table T {}"),
    ("table T {} rpc_service R { f(T", " }"),
    ("attribute ", ";"),
    ("table T { x: float = ", "; }"),
    ("table T {} //", "\n table S {}"),
];

/// `[context, bytes, format?]`: anything there is compiled or refused.
fn any() {
    let (a, b) = AROUND[sym::param(0) as usize];
    let s = sym::bvec(sym::param(1) as usize);
    if sym::param(0) == 22 {
        // reading the digits of a float is floating-point arithmetic
        for c in &s {
            sym::assume(!c.is_ascii_digit());
        }
    }
    if sym::param(0) == 19 {
        // the path of a file that is opened is tried byte by byte
        for c in &s {
            sym::assume(b"./ab\"\\0\n\xc3\xa4".contains(c));
        }
    }
    let mut t = Vec::from(a.as_bytes());
    t.extend_from_slice(&s);
    t.extend_from_slice(b.as_bytes());
    t.push(b'\n');
    // the formatter is not used on files that are not text
    if sym::param(2) == 1 {
        if std::str::from_utf8(&t).is_ok() {
            let x = format(&t, true);
            sym::obs(&[x.is_some() as u8]);
        }
    } else {
        let x = crate::lit::translate(&t);
        sym::obs(&[x.is_some() as u8]);
        sym::cover(if x.is_some() { 1 } else { 2 });
    }
}
entries! { fmt_keeps = fmt, text_any = any }
