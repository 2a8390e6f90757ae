//! Which declaration a type name refers to, across files and namespaces.
use crate::lit::{decl, Txt};
use crate::{fs, sym};
use planus_types::intermediate::*;

fn letters(n: usize) -> Vec<u8> {
    let b = sym::bvec(n);
    for &c in &b {
        sym::assume((c >= b'a') & (c < b'a' + sym::param(6) as u8));
    }
    b
}
fn dotted(t: &mut Txt, p: &[u8]) {
    for (i, c) in p.iter().enumerate() {
        if i > 0 {
            t.s(".");
        }
        t.b(&[*c]);
    }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut e = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        e = e & (x == y);
    }
    e
}
fn path_is(p: &AbsolutePath, w: &[u8]) -> bool {
    let mut e = p.0.len() == w.len();
    for (x, y) in p.0.iter().zip(w) {
        e = e & (x.len() == 1) && x.as_bytes()[0] == *y;
    }
    e
}

/// `[namespace lengths of three files (base 4), length of the reference, include
/// edges (m>b m>c b>c c>b b>m c>m), where the reference is, what is declared in b and
/// c (base 4), how the includes are spelled, size of the alphabet]`: three files, each with a namespace
/// and a declaration of symbolic names, the first with a reference.
fn resolve() {
    let nl = sym::param(0);
    let ns: [Vec<u8>; 3] = [letters((nl & 3) as usize), letters((nl >> 2 & 3) as usize), letters((nl >> 4 & 3) as usize)];
    let own = letters(3);
    let r = letters(sym::param(1) as usize);
    let edges = sym::param(2);
    let place = sym::param(3);
    let kinds = [0, sym::param(4) & 3, sym::param(4) >> 2 & 3];
    let spell = [["b.fbs", "c.fbs", "a.fbs"], ["./b.fbs", "x/../c.fbs", ".//a.fbs"], ["../d/b.fbs", "./c.fbs", "../d/./a.fbs"], ["./c.fbs", "../../c.fbs", "d/../a.fbs"]][sym::param(5) as usize];
    let inc = |t: &mut Txt, k: usize, s: &[&str; 3]| {
        t.s("include \"").s(s[k]).s("\";\n");
    };
    let mut reach = [[false; 3]; 3];
    for (b, (i, j)) in [(0, 1), (0, 2), (1, 2), (2, 1), (1, 0), (2, 0)].into_iter().enumerate() {
        reach[i][j] = edges >> b & 1 == 1;
    }
    // the last spelling has nothing lead back from the third file
    let names = if sym::param(5) == 3 { ["a.fbs", "c.fbs", "../../c.fbs"] } else { ["d/a.fbs", "d/b.fbs", "d/c.fbs"] };
    for f in 0..3 {
        let mut t = Txt::default();
        for g in 0..3 {
            if reach[f][g] {
                inc(&mut t, (g + 2) % 3, &spell);
            }
        }
        if !ns[f].is_empty() {
            t.s("namespace ");
            dotted(&mut t, &ns[f]);
            t.s(";\n");
        }
        match kinds[f] {
            0 => {
                t.s("table ").b(&own[f..f + 1]).s(" {");
                if f == 0 {
                    t.s(" x: ").s(["", "[", ""][place as usize]);
                    if place == 2 {
                        t.s("uu");
                    } else {
                        dotted(&mut t, &r);
                    }
                    t.s(["", "]", ""][place as usize]).s(";");
                }
                t.s(" }\n");
            }
            1 => {
                t.s("struct ").b(&own[f..f + 1]).s(" { y: int; }\n");
            }
            2 => {
                t.s("enum ").b(&own[f..f + 1]).s(": int { Z }\n");
            }
            _ => {
                t.s("union ").b(&own[f..f + 1]).s(" { tt }\n table tt {}\n");
            }
        }
        if f == 0 && place == 2 {
            t.s("union uu { ");
            dotted(&mut t, &r);
            t.s(" }\n");
        }
        fs::put(names[f], &t.0);
    }
    for k in 0..3 {
        reach[k][k] = true;
    }
    for k in 0..3 {
        for i in 0..3 {
            for j in 0..3 {
                reach[i][j] |= reach[i][k] && reach[k][j];
            }
        }
    }
    let full: Vec<Vec<u8>> = (0..3)
        .map(|f| {
            let mut p = ns[f].clone();
            p.push(own[f]);
            p
        })
        .collect();
    let mut ok = true;
    for i in 0..3 {
        for j in 0..i {
            ok &= !same(&full[i], &full[j]);
        }
    }
    // nor is a declaration called like a namespace
    for i in 0..3 {
        for j in 0..3 {
            for k in 1..=ns[j].len() {
                ok &= !same(&full[i], &ns[j][..k]);
            }
        }
    }
    // two files of one namespace would both declare `tt`
    if kinds[1] == 3 && kinds[2] == 3 {
        ok &= !same(&ns[1], &ns[2]);
    }
    // innermost first
    let mut want = None;
    for k in (0..=ns[0].len()).rev() {
        let mut p = ns[0][..k].to_vec();
        p.extend_from_slice(&r);
        for f in 0..3 {
            if want.is_none() && reach[0][f] && same(&p, &full[f]) {
                want = Some(f);
            }
        }
    }
    let kind_ok = want.map_or(false, |f| match (place, kinds[f]) {
        (1, _) => true,
        (2, 2 | 3) => false,
        _ => true,
    });
    let got = planus_translation::translate_files(&names);
    // an enum without zero has no default; the ones here have
    sym::check(got.is_some() == (ok && kind_ok), 170);
    let Some(d) = got else {
        sym::cover(2);
        return;
    };
    let Some(f) = want else { return };
    sym::cover(1);
    let ix = |k: &TypeKind| match k {
        TypeKind::Table(i) => (0, i.0),
        TypeKind::SimpleType(SimpleType::Struct(i)) => (1, i.0),
        TypeKind::SimpleType(SimpleType::Enum(i)) => (2, i.0),
        TypeKind::Union(i) => (3, i.0),
        _ => (9, 0),
    };
    let mut found = None;
    let mut t = None;
    for (i, (p, x)) in d.declarations.iter().enumerate() {
        if path_is(p, &full[f]) {
            found = Some(i);
        }
        if path_is(p, &full[0]) {
            t = Some(x);
        }
    }
    let (Some(i), Some(t)) = (found, t) else {
        sym::check(false, 171);
        return;
    };
    let DeclarationKind::Table(t) = &t.kind else {
        sym::check(false, 171);
        return;
    };
    let x = &t.fields["x"].type_.kind;
    match place {
        0 => sym::check(ix(x) == (kinds[f], i), 171),
        1 => match x {
            TypeKind::Vector(y) => sym::check(ix(&y.kind) == (kinds[f], i), 171),
            _ => sym::check(false, 171),
        },
        _ => match x {
            TypeKind::Union(u) => match &d.declarations[u.0].kind {
                DeclarationKind::Union(u) => {
                    sym::check(u.variants.len() == 1, 171);
                    for v in u.variants.values() {
                        sym::check(ix(&v.type_.kind) == (kinds[f], i), 171);
                    }
                }
                _ => sym::check(false, 171),
            },
            _ => sym::check(false, 171),
        },
    }
    tree(&d);
}

/// Every declaration and namespace is listed in the namespace around it.
fn tree(d: &Declarations) {
    for (i, (p, x)) in d.declarations.iter().enumerate() {
        let (n, around) = d.namespaces.get_index(x.namespace_id.0).unwrap();
        let last = p.0.last().unwrap();
        let mut e = n.0.len() + 1 == p.0.len();
        for (a, b) in n.0.iter().zip(&p.0) {
            e = e && a == b;
        }
        sym::check(e, 172);
        sym::check(around.declaration_ids.get(last).map(|x| x.0) == Some(i), 172);
    }
    for (i, (p, _)) in d.namespaces.iter().enumerate() {
        if p.0.is_empty() {
            continue;
        }
        let n = p.0.len() - 1;
        let mut found = false;
        for (q, m) in d.namespaces.iter() {
            let mut e = q.0.len() == n;
            for (a, b) in q.0.iter().zip(&p.0) {
                e = e && a == b;
            }
            if e {
                found = m.child_namespaces.get(&p.0[n]).map(|x| x.0) == Some(i);
            }
        }
        sym::check(found, 172);
    }
}

/// `[from, to, files, which include two]`: files `a` to `d`, each including one file (two where the
/// mask says so) of the solver's choice; a type is known where it is included,
/// however indirectly.
fn reach() {
    let (from, to, n) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    let mut to_of = [[b'a'; 2]; 4];
    let mut reach = [[false; 4]; 4];
    let names = ["a.fbs", "b.fbs", "c.fbs", "d.fbs"];
    for f in 0..n {
        let mut t = Txt::default();
        let k = 1 + (sym::param(3) >> f & 1) as usize;
        for j in 0..k {
            let c = sym::u8();
            sym::assume((c >= b'a') & (c < b'a' + n as u8));
            to_of[f][j] = c;
            t.s("include \"").b(&[c]).s(".fbs\";\n");
        }
        for g in 0..n {
            let c = b'a' + g as u8;
            reach[f][g] = (f == g) | (to_of[f][0] == c) | ((k == 2) & (to_of[f][1] == c));
        }
        t.s("namespace ns; table T").b(&[b'a' + f as u8]).s(" {");
        if f == from {
            t.s(" x: T").b(&[b'a' + to as u8]).s(";");
        }
        t.s(" }\n");
        fs::put(names[f], &t.0);
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                reach[i][j] = reach[i][j] | (reach[i][k] & reach[k][j]);
            }
        }
    }
    let got = planus_translation::translate_files(&names[..n]);
    sym::check(got.is_some() == reach[from][to], 173);
    let Some(d) = got else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    sym::check(d.declarations.len() == n, 173);
    let mut found = false;
    for (p, x) in &d.declarations {
        if p.0.len() == 2 && p.0[1].as_bytes() == [b'T', b'a' + from as u8] {
            let DeclarationKind::Table(t) = &x.kind else { continue };
            if let TypeKind::Table(i) = &t.fields["x"].type_.kind {
                found = d.declarations.get_index(i.0).unwrap().0 .0[1].as_bytes() == [b'T', b'a' + to as u8];
            }
        }
    }
    sym::check(found, 173);
    tree(&d);
}
entries! { names_resolve = resolve, names_reach = reach }
