//! What a field's declaration makes of it, and which declaration a doc comment documents.
use crate::lit::{decl, int_of, table, translate, Txt};
use crate::{fs, sym};
use planus_types::intermediate::*;

const TYPES: [&str; 15] = ["bool", "byte", "ulong", "float", "double", "E", "S", "string", "T2", "[ubyte]", "[string]", "U", "[U]", "[[int]]", "[int:3]"];

/// `[type]`: presence of a field, from its default, attributes and type.
fn mode() {
    let ty = sym::param(0) as usize;
    let form = sym::pick(8);
    let attrs = sym::pick(4);
    let (required, gone) = (attrs & 1 == 1, attrs & 2 == 2);
    // whether a number will do for a bool is left open
    sym::assume(!(ty == 0 && form == 4));
    let e = sym::bytes::<2>();
    // the value of a float is for other checks
    let lit = if ty == 3 || ty == 4 { b'7' } else { sym::u8() };
    for c in [e[0], e[1], lit] {
        sym::assume(c.is_ascii_digit());
    }
    sym::assume(e[0] != e[1]);
    let mut t = Txt::default();
    t.s("table T2 { }\nstruct S { a: int; b: short; }\nenum E : ubyte { A = ").b(&e[..1]).s(", B = ").b(&e[1..]).s(" }\nunion U { T2 }\ntable T { f: ");
    t.s(TYPES[ty]);
    t.s(["", " = null", " = []", " = \"x\"", " = ", " = true", " = [1]", " = B"][form]);
    if form == 4 {
        t.b(&[lit]);
    }
    t.s(["", " (required)", " (deprecated)", " (deprecated, required)"][attrs]).s("; }\n");
    let scalar = ty <= 5;
    let lit = (lit - b'0') as i128;
    let (a, b) = ((e[0] - b'0') as i128, (e[1] - b'0') as i128);
    // the default: whether there is one, or whether what is written is none
    let zero = ty < 5 || ty == 5 && (a == 0) | (b == 0);
    let (mut ok, default) = match form {
        0 => (!(ty == 5 && !zero), scalar),
        1 => (true, false),
        2 => (matches!(ty, 9 | 10 | 12), true),
        3 => (ty == 7, true),
        4 => (matches!(ty, 1..=4) || ty == 5 && (lit == a) | (lit == b), true),
        5 => (ty == 0, true),
        6 => (false, true),
        _ => (ty == 5, true),
    };
    if required {
        ok &= !scalar && form != 1 && !default;
    }
    ok &= ty < 13;
    let got = translate(&t.0);
    sym::check(got.is_some() == ok, 190);
    let Some(d) = got else {
        sym::cover(2);
        return;
    };
    if !ok {
        return;
    }
    sym::cover(1);
    let f = &table(&d, "T").fields["f"];
    sym::check(f.deprecated == gone, 191);
    match &f.assign_mode {
        AssignMode::Required => sym::check(required, 191),
        AssignMode::Optional => sym::check(!required && !default, 191),
        AssignMode::HasDefault(l) => {
            sym::check(!required && default, 191);
            match l {
                Literal::Bool(x) => sym::check(ty == 0 && *x == (form == 5), 192),
                Literal::Int(x) => sym::check(int_of(x) == ([0, 1, 6][ty], if form == 4 { lit } else { 0 }), 192),
                Literal::Float(FloatLiteral::F32(x)) => sym::check(ty == 3 && (x.to_bits() == 0) == (form == 0), 192),
                Literal::Float(FloatLiteral::F64(x)) => sym::check(ty == 4 && (x.to_bits() == 0) == (form == 0), 192),
                Literal::EnumTag { value, .. } => sym::check(ty == 5 && int_of(value) == (0, if form == 4 { lit } else if form == 7 { b } else { 0 }), 192),
                Literal::String(x) => sym::check(ty == 7 && x == "x", 192),
                Literal::Vector(x) => sym::check(form == 2 && x.is_empty(), 192),
                _ => sym::check(false, 192),
            }
        }
    }
}

/// Schemas as tokens; a token documented by the comments in front of it is marked with what it begins.
const DOCS: [&[(&str, &str)]; 5] = [
    &[("namespace", ""), ("n", ""), (".", ""), ("m", ""), (";", ""), ("table", "T"), ("T", ""), ("{", ""), ("x", "T.x"), (":", ""), ("int", ""), ("=", ""), ("-", ""), ("3", ""), ("(", ""), ("id", ""), (":", ""), ("0", ""), (",", ""), ("deprecated", ""), (")", ""), (";", ""), ("y", "T.y"), (":", ""), ("[", ""), ("string", ""), ("]", ""), ("(", ""), ("id", ""), (":", ""), ("1", ""), (")", ""), (";", ""), ("}", "")],
    &[("enum", "E"), ("E", ""), (":", ""), ("byte", ""), ("{", ""), ("A", "E.A"), ("=", ""), ("1", ""), (",", ""), ("B", "E.B"), (",", ""), ("C", "E.C"), ("}", ""), ("table", "T"), ("T", ""), ("{", ""), ("e", "T.e"), (":", ""), ("E", ""), ("=", ""), ("B", ""), (";", ""), ("}", "")],
    &[("struct", "S"), ("S", ""), ("(", ""), ("force_align", ""), (":", ""), ("8", ""), (")", ""), ("{", ""), ("x", "S.x"), (":", ""), ("short", ""), (";", ""), ("y", "S.y"), (":", ""), ("int", ""), (";", ""), ("}", "")],
    &[("table", "A"), ("A", ""), ("{", ""), ("}", ""), ("union", "U"), ("U", ""), ("{", ""), ("A", "U.A"), (",", ""), ("b", "U.b"), (":", ""), ("A", ""), (",", ""), ("c", "U.c"), (":", ""), ("string", ""), (",", ""), ("}", ""), ("root_type", ""), ("A", ""), (";", "")],
    &[("file_identifier", ""), ("\"ABCD\"", ""), (";", ""), ("file_extension", ""), ("\"x\"", ""), (";", ""), ("table", "A"), ("A", ""), ("(", ""), (")", ""), ("{", ""), ("v", "A.v"), (":", ""), ("[", ""), ("ubyte", ""), ("]", ""), ("=", ""), ("[", ""), ("]", ""), (";", ""), ("}", "")],
];

fn is(a: &str, b: &[u8]) -> bool {
    let mut e = a.len() == b.len();
    for (x, y) in a.as_bytes().iter().zip(b) {
        e = e & (x == y);
    }
    e
}

/// `[template, comments, 1: starts on a new line, 2: a blank line between]`: comments of two symbolic characters
/// after their slashes, anywhere.
fn docs() {
    let toks = DOCS[sym::param(0) as usize];
    let fresh = sym::param(2) & 1 == 1;
    let apart = sym::param(2) & 2 == 2;
    let at = sym::pick(toks.len() as u64 + 1);
    let mut t = Txt::default();
    let mut texts: Vec<[u8; 2]> = vec![];
    for i in 0..=toks.len() {
        if i == at {
            if fresh {
                t.s("\n");
            }
            for i in 0..sym::param(1) {
                if i > 0 && apart {
                    t.s("\n");
                }
                let c = sym::bytes::<2>();
                sym::assume((c[0] != b'\n') & (c[0] < 128) & (c[1] != b'\n') & (c[1] < 128));
                t.s("//").b(&c).s("\n");
                texts.push(c);
            }
        }
        if i < toks.len() {
            t.s(toks[i].0).s(" ");
        }
    }
    let mut ok = true;
    let mut docs: Vec<Vec<u8>> = vec![];
    let mut ns: Vec<Vec<u8>> = vec![];
    let mut outer = false;
    for (i, c) in texts.iter().enumerate() {
        // on the line of the token before
        let post = i == 0 && !fresh && at > 0;
        if c[0] == b'/' {
            outer = true;
            if at < toks.len() && !toks[at].1.is_empty() && !post {
                docs.push(vec![c[1]]);
            } else {
                ok = false;
            }
        } else if c[0] == b'!' {
            if at == 0 && !outer {
                ns.push(vec![c[1]]);
            } else {
                ok = false;
            }
        }
    }
    let got = translate(&t.0);
    sym::check(got.is_some() == ok, 193);
    let Some(d) = got else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    let want = if at < toks.len() { toks[at].1 } else { "" };
    let mut seen = want.is_empty();
    let mut one = |name: &str, x: &planus_types::ast::Docstrings| {
        let n = if name == want { docs.len() } else { 0 };
        seen |= name == want;
        sym::check(x.docstrings.len() == n, 194);
        for (x, y) in x.docstrings.iter().zip(&docs) {
            if name == want {
                sym::check(is(&x.value, y), 194);
            }
        }
    };
    for (p, x) in &d.declarations {
        let p = p.0.last().unwrap();
        one(p, &x.docstrings);
        match &x.kind {
            DeclarationKind::Table(x) => {
                for (n, x) in &x.fields {
                    one(&format!("{p}.{n}"), &x.docstrings);
                }
            }
            DeclarationKind::Struct(x) => {
                for (n, x) in &x.fields {
                    one(&format!("{p}.{n}"), &x.docstrings);
                }
            }
            DeclarationKind::Enum(x) => {
                for x in x.variants.values() {
                    one(&format!("{p}.{}", x.name), &x.docstrings);
                }
            }
            DeclarationKind::Union(x) => {
                for (n, x) in &x.variants {
                    one(&format!("{p}.{n}"), &x.docstrings);
                }
            }
            _ => {}
        }
    }
    sym::check(seen, 194);
    let mut found = ns.is_empty();
    for (p, x) in &d.namespaces {
        let here = p.0.len() == if sym::param(0) == 0 { 2 } else { 0 };
        let n = if here { ns.len() } else { 0 };
        sym::check(x.docstrings.docstrings.len() == n, 195);
        if here {
            found = true;
            for (x, y) in x.docstrings.docstrings.iter().zip(&ns) {
                sym::check(is(&x.value, y), 195);
            }
        }
    }
    sym::check(found, 195);
}
entries! { field_mode = mode, doc_attach = docs }
