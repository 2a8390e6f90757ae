//! What the code generator makes of a schema: the names of the items, where the
//! references between them lead, and which traits the types get.
use crate::lit::{translate, Txt};
use crate::{fs, sym};
use planus_types::intermediate::Declarations;

// ---- a reader of generated code --------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum K {
    Id,
    Doc,
    Str,
    P(u8),
}
#[derive(Clone, Copy)]
struct Tok {
    k: K,
    a: usize,
    b: usize,
}
/// 1: part of a word, 2: a blank
const CLASS: [u8; 256] = {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        let c = i as u8;
        t[i] = if c.is_ascii_alphanumeric() || c == b'_' {
            1
        } else if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
            2
        } else {
            0
        };
        i += 1;
    }
    t
};
fn word(c: u8) -> bool {
    CLASS[c as usize] == 1
}
fn toks(s: &[u8]) -> Vec<Tok> {
    let mut v = Vec::with_capacity(s.len() / 2);
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let a = i;
        if CLASS[c as usize] == 2 {
            i += 1;
        } else if word(c) {
            while i < s.len() && word(s[i]) {
                i += 1;
            }
            v.push(Tok { k: K::Id, a, b: i });
        } else if c == b'/' && i + 1 < s.len() && s[i + 1] == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
            if s[a + 2..].starts_with(b"/") {
                v.push(Tok { k: K::Doc, a: a + 3, b: i });
            }
        } else if c == b'"' {
            i += 1;
            while s[i] != b'"' {
                i += if s[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            v.push(Tok { k: K::Str, a, b: i });
        } else if c == b'\'' {
            // lifetimes only
            i += 1;
            while i < s.len() && word(s[i]) {
                i += 1;
            }
        } else {
            i += 1;
            v.push(Tok { k: K::P(c), a, b: i });
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Mod,
    Struct,
    Enum,
}
type Path = Vec<String>;
struct Member {
    name: String,
    mark: String,
    /// paths in the type that start with `self` or `super`
    paths: Vec<Path>,
}
struct Item {
    kind: Kind,
    name: String,
    parent: usize,
    mark: String,
    derives: Vec<String>,
    members: Vec<Member>,
}
struct Method {
    name: String,
    field: String,
    paths: Vec<Path>,
}
struct Impl<'s> {
    parent: usize,
    /// the words and commas behind `impl`
    head: Vec<&'s str>,
    fns: Vec<Method>,
}
struct Code<'s> {
    s: &'s [u8],
    t: Vec<Tok>,
    items: Vec<Item>,
    impls: Vec<Impl<'s>>,
    /// every path that starts with `self` or `super`, and the module it is in
    uses: Vec<(usize, Path)>,
}
impl<'s> Code<'s> {
    fn new(s: &'s [u8]) -> Code<'s> {
        let mut c = Code { s, t: toks(s), items: Vec::new(), impls: Vec::new(), uses: Vec::new() };
        c.items.push(Item { kind: Kind::Mod, name: String::new(), parent: 0, mark: String::new(), derives: Vec::new(), members: Vec::new() });
        let end = c.module(0, 0);
        sym::check(end == c.t.len(), 200);
        c
    }
    fn txt(&self, i: usize) -> &'s str {
        let t = &self.t[i];
        unsafe { std::str::from_utf8_unchecked(&self.s[t.a..t.b]) }
    }
    fn is(&self, i: usize, p: u8) -> bool {
        i < self.t.len() && self.t[i].k == K::P(p)
    }
    fn id(&self, i: usize, w: &str) -> bool {
        i < self.t.len() && self.t[i].k == K::Id && &self.s[self.t[i].a..self.t[i].b] == w.as_bytes()
    }
    /// the token behind the bracket that closes the one at `i`
    fn close(&self, mut i: usize) -> usize {
        let mut n = 0;
        loop {
            match self.t[i].k {
                K::P(b'(') | K::P(b'[') | K::P(b'{') => n += 1,
                K::P(b')') | K::P(b']') | K::P(b'}') => n -= 1,
                _ => {}
            }
            i += 1;
            if n == 0 {
                return i;
            }
        }
    }
    fn path(&self, mut i: usize) -> Option<(Path, usize)> {
        if !(self.id(i, "self") || self.id(i, "super")) || !self.is(i + 1, b':') || (self.is(i - 1, b':') && self.is(i - 2, b':')) {
            return None;
        }
        let mut p = vec![self.txt(i).to_string()];
        i += 1;
        while self.is(i, b':') && self.is(i + 1, b':') && i + 2 < self.t.len() && self.t[i + 2].k == K::Id {
            p.push(self.txt(i + 2).to_string());
            i += 3;
        }
        Some((p, i))
    }
    fn paths(&self, a: usize, b: usize) -> Vec<Path> {
        let mut v = Vec::new();
        let mut i = a;
        while i < b {
            if self.t[i].k != K::Id || self.s[self.t[i].a] != b's' {
                i += 1;
            } else if let Some((p, e)) = self.path(i) {
                v.push(p);
                i = e;
            } else {
                i += 1;
            }
        }
        v
    }
    /// `[...]` of attributes: the names in `derive`
    fn module(&mut self, me: usize, mut i: usize) -> usize {
        let mut mark = String::new();
        let mut derives = Vec::new();
        while i < self.t.len() && !self.is(i, b'}') {
            match self.t[i].k {
                K::Doc => {
                    mark_of(self.txt(i), &mut mark);
                    i += 1;
                }
                K::P(b'#') => {
                    let e = self.close(i + 1);
                    if self.id(i + 2, "derive") {
                        for j in i + 3..e {
                            if self.t[j].k == K::Id {
                                derives.push(self.txt(j).to_string());
                            }
                        }
                    }
                    i = e;
                }
                K::Id => {
                    let w = self.txt(i);
                    let kind = match w {
                        "mod" => Some(Kind::Mod),
                        "struct" => Some(Kind::Struct),
                        "enum" => Some(Kind::Enum),
                        _ => None,
                    };
                    if let Some(kind) = kind {
                        let name = self.txt(i + 1).to_string();
                        let at = self.items.len();
                        self.items.push(Item { kind, name, parent: me, mark: std::mem::take(&mut mark), derives: std::mem::take(&mut derives), members: Vec::new() });
                        i += 2;
                        while !self.is(i, b'{') && !self.is(i, b'(') {
                            i += 1;
                        }
                        if kind == Kind::Mod {
                            i = self.module(at, i + 1);
                            sym::check(self.is(i, b'}'), 200);
                            i += 1;
                        } else if self.is(i, b'(') {
                            i = self.close(i) + 1;
                        } else {
                            let e = self.close(i);
                            let u = self.paths(i, e);
                            self.uses.extend(u.into_iter().map(|p| (me, p)));
                            let m = self.fields(i + 1, e - 1);
                            self.items[at].members = m;
                            i = e;
                        }
                    } else if w == "impl" {
                        let a = i;
                        while !self.is(i, b'{') {
                            i += 1;
                        }
                        let mut head = Vec::new();
                        for j in a + 1..i {
                            if self.t[j].k == K::Id {
                                head.push(self.txt(j));
                            }
                        }
                        let e = self.close(i);
                        let u = self.paths(a, e);
                        self.uses.extend(u.into_iter().map(|p| (me, p)));
                        let fns = self.methods(i + 1, e - 1);
                        self.impls.push(Impl { parent: me, head, fns });
                        mark.clear();
                        derives.clear();
                        i = e;
                    } else if w == "pub" || w == "unsafe" {
                        i += 1;
                    } else {
                        // `const _: () = ...;`, `pub use ...;`
                        while !self.is(i, b';') {
                            i += 1;
                        }
                        i += 1;
                        mark.clear();
                    }
                }
                _ => {
                    sym::check(false, 200);
                    return self.t.len();
                }
            }
        }
        i
    }
    fn fields(&self, mut i: usize, e: usize) -> Vec<Member> {
        let mut v = Vec::new();
        let mut mark = String::new();
        while i < e {
            match self.t[i].k {
                K::Doc => {
                    mark_of(self.txt(i), &mut mark);
                    i += 1;
                }
                K::P(b'#') => i = self.close(i + 1),
                K::Id if self.txt(i) == "pub" => i += 1,
                _ => {
                    let name = if self.t[i].k == K::Id { self.txt(i).to_string() } else { String::new() };
                    let a = i;
                    let mut n = 0;
                    while i < e && !(n == 0 && self.is(i, b',')) {
                        match self.t[i].k {
                            K::P(b'(') | K::P(b'[') | K::P(b'<') => n += 1,
                            K::P(b')') | K::P(b']') | K::P(b'>') => n -= 1,
                            _ => {}
                        }
                        i += 1;
                    }
                    v.push(Member { name, mark: std::mem::take(&mut mark), paths: self.paths(a + 1, i) });
                    i += 1;
                }
            }
        }
        v
    }
    fn methods(&self, mut i: usize, e: usize) -> Vec<Method> {
        let mut v = Vec::new();
        let mut field = String::new();
        while i < e {
            match self.t[i].k {
                K::Doc => {
                    // "Getter for the [`x` field](..."
                    let d = self.txt(i).as_bytes();
                    field.clear();
                    let mut q = d.splitn(3, |&c| c == b'`');
                    if let (Some(h), Some(x)) = (q.next(), q.next()) {
                        if h == b" Getter for the [" {
                            field.push_str(std::str::from_utf8(x).unwrap());
                        }
                    }
                    i += 1;
                }
                K::Id if self.txt(i) == "fn" => {
                    let name = self.txt(i + 1).to_string();
                    let a = i;
                    while !self.is(i, b'{') {
                        i += 1;
                    }
                    v.push(Method { name, field: std::mem::take(&mut field), paths: self.paths(a, i) });
                    i = self.close(i);
                }
                K::P(b'(') | K::P(b'[') | K::P(b'{') => i = self.close(i),
                _ => i += 1,
            }
        }
        v
    }
    /// Where a path leads: the items of its module, then of the one found ...
    fn lead(&self, from: usize, p: &Path) -> Option<usize> {
        let mut m = from;
        let mut i = 0;
        if p[0] == "self" {
            i = 1;
        }
        while i < p.len() && p[i] == "super" {
            m = self.items[m].parent;
            i += 1;
        }
        while i < p.len() {
            let mut to = None;
            for (j, x) in self.items.iter().enumerate() {
                if j != 0 && x.parent == m && x.name == p[i] {
                    to = Some(j);
                    break;
                }
            }
            m = to?;
            i += 1;
            if self.items[m].kind != Kind::Mod {
                // what is left is an associated item
                return Some(m);
            }
        }
        None
    }
    fn marked(&self, mark: &str) -> usize {
        let mut to = 0;
        for (j, x) in self.items.iter().enumerate() {
            if x.mark == mark {
                sym::check(to == 0, 201);
                to = j;
            }
        }
        sym::check(to != 0, 201);
        to
    }
    /// The item of references to `of`, and whether they are converted without fail.
    fn reference(&self, of: usize) -> Option<(usize, bool)> {
        let x = &self.items[of];
        for m in &self.impls {
            if m.parent != x.parent {
                continue;
            }
            // core :: convert :: TryFrom < Name > for Owned
            let w = &m.head;
            if w.len() == 6 && w[0] == "core" && w[1] == "convert" && (w[2] == "TryFrom" || w[2] == "From") && w[4] == "for" && w[5] == x.name {
                for (j, y) in self.items.iter().enumerate() {
                    if j != 0 && y.parent == x.parent && y.name == w[3] {
                        return Some((j, w[2] == "From"));
                    }
                }
            }
        }
        None
    }
    /// Every name is one Rust takes, no two items of a scope share one, every path
    /// leads to an item.
    fn sane(&self) {
        for (j, x) in self.items.iter().enumerate() {
            if j == 0 {
                continue;
            }
            sym::check(ident(&x.name), 202);
            for (k, y) in self.items.iter().enumerate().take(j) {
                sym::check(k == 0 || x.parent != y.parent || x.name != y.name, 203);
            }
            for (k, f) in x.members.iter().enumerate() {
                sym::check(ident(&f.name), 202);
                for g in &x.members[..k] {
                    sym::check(f.name != g.name, 203);
                }
            }
        }
        for m in &self.impls {
            for (k, f) in m.fns.iter().enumerate() {
                sym::check(ident(&f.name), 202);
                for g in &m.fns[..k] {
                    sym::check(f.name != g.name, 203);
                }
            }
        }
        for (m, p) in &self.uses {
            sym::check(self.lead(*m, p).is_some(), 204);
        }
    }
    /// The member `mark` of the item `of` leads to `to`, and so does its getter.
    fn refers(&self, of: &str, mark: &str, field: &str, to: &str) {
        let o = self.marked(of);
        let t = self.marked(to);
        let x = &self.items[o];
        let mut n = 0;
        for f in &x.members {
            if f.mark == mark {
                n += 1;
                sym::check(f.paths.len() == 1, 204);
                sym::check(self.lead(x.parent, &f.paths[0]) == Some(t), 204);
            }
        }
        sym::check(n == 1, 201);
        let t = self.reference(t).map_or(t, |x| x.0);
        let Some((r, _)) = self.reference(o) else {
            sym::check(false, 204);
            return;
        };
        let mut n = 0;
        for m in &self.impls {
            // of the references' own impl
            if m.parent != x.parent || m.head.len() != 1 || m.head[0] != self.items[r].name {
                continue;
            }
            for f in &m.fns {
                if f.field == field {
                    n += 1;
                    sym::check(!f.paths.is_empty(), 204);
                    for p in &f.paths {
                        sym::check(self.lead(m.parent, p) == Some(t), 204);
                    }
                }
            }
        }
        sym::check(n == 1, 201);
    }
}
fn mark_of(doc: &str, mark: &mut String) {
    let d = doc.trim();
    if d.len() == 3 && d.as_bytes()[0] == b'%' {
        mark.clear();
        mark.push_str(d);
    }
}
/// The words of the Rust reference that are no identifiers.
const WORDS: [&str; 52] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn",
    "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "_",
];
fn ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && !b[0].is_ascii_digit() && !WORDS.iter().any(|w| *w == s)
}

// ---- names -----------------------------------------------------------------

/// A name: of the characters a case conversion tells apart, or a word of Rust.
fn name(mode: u64) -> Vec<u8> {
    if mode >= 10 {
        let w = WORDS[sym::pick(51)];
        let mut v = w.as_bytes().to_vec();
        if mode == 11 {
            v[0] = v[0].to_ascii_uppercase();
        }
        return v;
    }
    let n = 1 + sym::pick(mode);
    let mut b = sym::bvec(n);
    for (i, &c) in b.iter().enumerate() {
        let d = c == b'1';
        sym::assume((c == b'x') | (c == b'X') | (c == b'_') | (d & (i > 0)));
    }
    sym::conc_bytes(&mut b);
    b
}
fn after(a: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    v.push(b'_');
    v
}
const SUFFIX: [&str; 4] = ["", "Ref", "Builder", "_"];
/// A declaration of each kind that has members.
fn declare(t: &mut Txt, kind: u64, mark: &str, n: &[u8], s: &str) {
    t.s("/// ").s(mark).s("\n");
    match kind {
        0 => t.s("table ").b(n).s(s).s(" { k: int; }\n"),
        1 => t.s("struct ").b(n).s(s).s(" { k: int; }\n"),
        2 => t.s("enum ").b(n).s(s).s(" : byte { k }\n"),
        _ => t.s("union ").b(n).s(s).s(" { k: string }\n"),
    };
}
fn code(d: &Declarations) -> String {
    planus_codegen::generate_rust(d, false).unwrap()
}

/// `[0: two declarations | 1: two namespaces | 2: one in another | 3: a namespace and a declaration | 4, 5: far from each other, form of the names, kinds]`
fn types() {
    let what = sym::param(0);
    let kinds = sym::param(2);
    let (k1, k2) = (kinds & 3, kinds >> 2 & 3);
    let a = name(sym::param(1));
    let b = if sym::param(1) >= 10 { after(&a) } else { name(sym::param(1)) };
    let s1 = SUFFIX[if kinds >> 4 & 1 == 1 { sym::pick(4) } else { 0 }];
    let s2 = SUFFIX[if kinds >> 5 & 1 == 1 { sym::pick(4) } else { 0 }];
    let mut t = Txt::default();
    let refs = "Zr";
    match what {
        0 => {
            declare(&mut t, k1, "%d1", &a, s1);
            declare(&mut t, k2, "%d2", &b, s2);
            t.s("/// %dr\ntable Zr {\n/// %f1\nfa: ").b(&a).s(s1).s(";\n/// %f2\nfb: ").b(&b).s(s2).s("; }\n");
        }
        1 | 2 => {
            // a file each, and a third one with the references, in the second namespace
            let p = if what == 2 { "p." } else { "" };
            let mut u = Txt::default();
            u.s("namespace ").s(p).b(&a).s(";\n");
            declare(&mut u, k1, "%d1", b"Vt", "");
            fs::put("b.fbs", &u.0);
            let mut u = Txt::default();
            u.s("namespace ").s(p).b(&b).s(";\n");
            declare(&mut u, k2, "%d2", b"Vu", "");
            fs::put("c.fbs", &u.0);
            t.s("include \"b.fbs\";\ninclude \"c.fbs\";\nnamespace ").s(p).b(&b).s(";\n");
            t.s("/// %dr\ntable Zr {\n/// %f1\nfa: ").s(p).b(&a).s(".Vt;\n/// %f2\nfb: ").s(p).b(&b).s(".Vu; }\n");
        }
        4 | 5 => {
            let mut u = Txt::default();
            u.s("namespace p.").b(&a).s(".q;\n");
            declare(&mut u, k1, "%d1", b"Vt", "");
            fs::put("b.fbs", &u.0);
            let mut u = Txt::default();
            if what == 4 {
                u.s("namespace ").b(&b).s(".p.q.r;\n");
            }
            declare(&mut u, k2, "%d2", b"Vu", "");
            fs::put("c.fbs", &u.0);
            t.s("include \"b.fbs\";\ninclude \"c.fbs\";\nnamespace ").b(&b).s(".p.q;\n");
            t.s("/// %dr\ntable Zr {\n/// %f1\nfa: p.").b(&a).s(".q.Vt;\n/// %f2\nfb: ");
            if what == 4 {
                t.b(&b).s(".p.q.r.");
            }
            t.s("Vu; }\n");
        }
        _ => {
            // a namespace within one of the same name, beside a type of the outer one
            let mut u = Txt::default();
            u.s("namespace ").b(&a).s(".").b(&a).s(";\n");
            declare(&mut u, k1, "%d1", b"Vt", "");
            fs::put("b.fbs", &u.0);
            t.s("include \"b.fbs\";\nnamespace ").b(&a).s(";\n");
            declare(&mut t, k2, "%d2", &b, s2);
            t.s("/// %dr\ntable Zr {\n/// %f1\nfa: ").b(&a).s(".").b(&a).s(".Vt;\n/// %f2\nfb: ").b(&a).s(".").b(&b).s(s2).s("; }\n");
        }
    }
    let Some(d) = translate(&t.0) else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    let s = code(&d);
    let c = Code::new(s.as_bytes());
    c.sane();
    c.refers("%dr", "%f1", "fa", "%d1");
    c.refers("%dr", "%f2", "fb", "%d2");
    // items of one namespace are items of one module
    let (x, y, r) = (c.marked("%d1"), c.marked("%d2"), c.marked("%dr"));
    let p = |x: usize| c.items[x].parent;
    match what {
        0 => sym::check((p(x) == p(y)) & (p(x) == p(r)), 201),
        1 | 2 => sym::check((p(x) == p(r)) == (a == b) && (p(y) == p(r)) && c.items[p(x)].parent == c.items[p(y)].parent, 201),
        3 => sym::check((p(y) == p(r)) & (p(p(x)) == p(y)), 201),
        4 => sym::check(p(p(y)) == p(r) && p(p(p(p(x)))) == 1, 201),
        _ => sym::check(p(y) == p(p(p(p(r)))), 201),
    }
}
fn p_of(c: &Code<'_>, x: usize) -> usize {
    c.items[x].parent
}

/// `[0: table | 1: struct | 2: enum | 3: union, form of the names, a third one?]`
fn members() {
    let what = sym::param(0);
    let a = name(sym::param(1));
    let third = sym::param(2) == 1;
    let b = if sym::param(1) >= 10 { after(&a) } else { name(sym::param(1)) };
    let mut c = if third { name(sym::param(1)) } else { Vec::new() };
    if third && sym::pick(2) == 1 {
        c.push(b'_');
    }
    let mut t = Txt::default();
    t.s("/// %d1\n");
    t.s(["table", "struct", "enum", "union"][what as usize]).s(if what == 2 { " Vt : byte {\n" } else { " Vt {\n" });
    t.s("/// %f1\n").b(&a).s([": Ve;", ": Ve;", ",", ": Za,"][what as usize]);
    t.s("\n/// %f2\n").b(&b).s([": Vs;", ": Vs;", ",", ": Za,"][what as usize]);
    if third {
        t.s("\n/// %f3\n").b(&c).s([": Ve;", ": Ve;", ",", ": Za,"][what as usize]);
    }
    t.s("\n}\n");
    t.s("/// %d2\nenum Ve : byte { k }\n/// %d3\nstruct Vs { k: int; }\ntable Za {}\n");
    let Some(d) = translate(&t.0) else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    let s = code(&d);
    let third = third.then_some(c);
    let c = Code::new(s.as_bytes());
    c.sane();
    let x = &c.items[c.marked("%d1")];
    sym::check(x.members.len() == 2 + third.is_some() as usize, 201);
    sym::check(x.members[0].mark == "%f1" && x.members[1].mark == "%f2", 201);
    if what < 2 {
        c.refers("%d1", "%f1", std::str::from_utf8(&a).unwrap(), "%d2");
        c.refers("%d1", "%f2", std::str::from_utf8(&b).unwrap(), "%d3");
        if let Some(x) = &third {
            c.refers("%d1", "%f3", std::str::from_utf8(x).unwrap(), "%d2");
        }
    }
}

// ---- traits ----------------------------------------------------------------

/// What a field of a table may be: its text, what it needs to be equal, to have a default.
const SCALAR: [&str; 6] = ["int", "float", "string", "bool", "E", "D"];
/// `[kinds of the four declarations (base 4: table, struct, union, none), fields each (base 4), attributes?, set of allowed types]`
fn traits() {
    let ks = sym::param(0);
    let fs = sym::param(1);
    let with = sym::param(2) == 1;
    let allowed = sym::param(3);
    let kind: Vec<u64> = (0..3).map(|i| ks >> (2 * i) & 3).collect();
    let nm = ["A", "B", "C"];
    // a member: a scalar (0..6), the declaration `6 + i`, and a vector of them
    let mut mem: Vec<Vec<(usize, bool, u8)>> = Vec::new();
    let mut t = Txt::default();
    t.s("enum E : byte { a, b }\nenum D : byte { a = 1 }\nstruct F { x: float; }\nstruct I { x: int; }\ntable T { x: int; }\ntable G { x: float; }\n");
    for i in 0..3 {
        let mut v = Vec::new();
        let n = (fs >> (2 * i) & 3) as usize;
        if kind[i] == 3 {
            mem.push(v);
            continue;
        }
        t.s("/// %d").s(nm[i]).s("\n").s(["table ", "struct ", "union "][kind[i] as usize]).s(nm[i]).s(" {\n");
        for j in 0..n {
            t.s(["", "", "k"][kind[i] as usize]);
            t.s(["p", "q", "r"][j]).s(": ");
            // int float string bool E D | A B C | F I T G
            let k = sym::pick(13);
            // integers and strings are alike in a table
            sym::assume(allowed >> k & 1 == 1 && !(k == 0 && kind[i] == 0 && allowed & 0xfff == 0x1c7));
            let decl = k >= 6 && k < 9;
            let ok = match kind[i] {
                0 => !decl || kind[k - 6] != 3,
                1 => k != 2 && k < 11 && (!decl || (kind[k - 6] == 1 && k - 6 != i)),
                _ => (decl && (kind[k - 6] < 2)) || k == 2 || k > 8,
            };
            sym::assume(ok);
            let vec = kind[i] == 0 && with && sym::pick(2) == 1;
            let union = decl && kind[k - 6] == 2;
            let scalar = k < 6 && k != 2;
            let req = if kind[i] == 0 && with && (vec || !scalar) { sym::pick(2) as u8 } else { 0 };
            if vec {
                t.s("[");
            }
            t.s(if k < 6 { SCALAR[k] } else if decl { nm[k - 6] } else { ["F", "I", "T", "G"][k - 9] });
            if vec {
                t.s("]");
            }
            if req == 1 {
                t.s(" (required)");
            }
            t.s(if kind[i] == 2 { ",\n" } else { ";\n" });
            v.push((k, vec, req));
        }
        t.s("}\n");
        mem.push(v);
    }
    let Some(d) = translate(&t.0) else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    // a float anywhere below, an enum anywhere below, no default: least fixed points
    let mut float = [false; 3];
    let mut odd = [false; 3];
    let mut nodef = [false; 3];
    // a table of a table of itself, required: neither is asked for
    let mut open = [false; 3];
    for _ in 0..4 {
        for i in 0..3 {
            for &(k, vec, req) in &mem[i] {
                let of = |s: &[bool; 3]| k >= 6 && k < 9 && s[k - 6];
                float[i] |= k == 1 || k == 9 || k == 12 || of(&float);
                odd[i] |= match kind[i] {
                    1 => k == 4 || k == 5 || of(&odd),
                    _ => !(k == 9 || k == 10 || (k >= 6 && k < 9 && kind[k - 6] == 1 && !of(&odd))),
                };
                nodef[i] |= match kind[i] {
                    1 => k == 4 || k == 5 || of(&nodef),
                    0 if vec => false,
                    // an enum without the value zero has no default to fall back on
                    0 if k == 5 => true,
                    0 if k < 6 || req == 0 => false,
                    0 => of(&nodef) || (k < 9 && kind[k - 6] == 2),
                    _ => true,
                };
            }
        }
    }
    let mut need = [[false; 3]; 3];
    for i in 0..3 {
        for &(k, vec, req) in &mem[i] {
            if k >= 6 && k < 9 && !vec && req == 1 {
                need[i][k - 6] = true;
            }
        }
    }
    for k in 0..3 {
        for i in 0..3 {
            for j in 0..3 {
                need[i][j] |= need[i][k] && need[k][j];
            }
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            open[i] |= need[j][j] && (i == j || need[i][j]);
        }
    }
    let s = code(&d);
    let c = Code::new(s.as_bytes());
    for i in 0..3 {
        if kind[i] == 3 {
            continue;
        }
        let mut m = String::from("%d");
        m.push_str(nm[i]);
        let at = c.marked(&m);
        let x = &c.items[at];
        let has = |w: &str| x.derives.iter().any(|d| d == w);
        for w in ["Clone", "Debug", "PartialEq", "PartialOrd"] {
            sym::check(has(w), 206);
        }
        for w in ["Eq", "Ord", "Hash"] {
            sym::check(has(w) == !float[i], 206);
        }
        let mut imp = 0;
        for y in &c.impls {
            if y.parent == x.parent && y.head == ["core", "default", "Default", "for", &x.name] {
                imp += 1;
            }
        }
        let der = has("Default") as usize;
        if kind[i] == 2 {
            sym::check(der + imp == 0, 207);
        } else if !open[i] {
            sym::check(der + imp == !nodef[i] as usize, 207);
        }
        let r = c.reference(at);
        sym::check(r.is_some(), 208);
        if let Some((_, sure)) = r {
            sym::check(sure == (kind[i] != 0 && !odd[i]), 208);
        }
    }
}
entries! { gen_types = types, gen_members = members, gen_traits = traits }
