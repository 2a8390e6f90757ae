//! Field ids, the order of table fields, struct layout and names.
use crate::lit::{decl, digits, int_of, table, translate, value, Txt};
use crate::{fs, sym};
use planus_types::ast::{FloatType, IntegerType};
use planus_types::intermediate::*;

/// `[fields, kinds, with id mask, digits, deprecated mask]`: which ids are accepted and
/// where the fields end up. Kind 1 is a union, kind 2 a vector of unions: two slots.
fn ids() {
    let gone = sym::param(4);
    let (n, kinds, mask, nd) = (sym::param(0) as usize, sym::param(1), sym::param(2), sym::param(3) as usize);
    let mut t = Txt::default();
    t.s("union U { T }\ntable T {");
    let mut ok = mask == 0 || mask == (1 << n) - 1;
    let mut slot = [0i128; 4];
    let mut next = 0;
    for i in 0..n {
        let two = kinds >> (2 * i) & 3 != 0;
        t.s([" a", " b", " c", " d"][i]).s([": ubyte", ": U", ": [U]", ": string"][(kinds >> (2 * i) & 3) as usize]);
        slot[i] = next;
        if mask >> i & 1 == 1 {
            let mut d = digits(nd, false, false, true);
            t.s(" (").s(if gone >> i & 1 == 1 { "deprecated, id: " } else { "id: " }).b(&d).s(")");
            slot[i] = value(&d, false).unwrap().wrapping_sub(two as i128);
            ok &= slot[i] >= 0;
        } else if gone >> i & 1 == 1 {
            t.s(" (deprecated)");
        }
        t.s(";");
        next = slot[i].wrapping_add(1).wrapping_add(two as i128);
    }
    t.s(" }\n");
    // the slots are 0..total, each once
    let mut total = 0;
    for i in 0..n {
        total += 1 + (kinds >> (2 * i) & 3 != 0) as i128;
    }
    for i in 0..n {
        let two = kinds >> (2 * i) & 3 != 0;
        ok &= slot[i].wrapping_add(two as i128) < total;
        for j in 0..i {
            let tj = kinds >> (2 * j) & 3 != 0;
            ok &= (slot[i] != slot[j]) & (!two | (slot[i].wrapping_add(1) != slot[j])) & (!tj | (slot[i] != slot[j].wrapping_add(1)));
        }
    }
    let got = translate(&t.0);
    sym::check(got.is_some() == ok, 150);
    if let Some(d) = got {
        let t = table(&d, "T");
        sym::check(t.fields.len() == n, 151);
        for (i, (name, f)) in t.fields.iter().enumerate() {
            sym::check(f.vtable_index as i128 == slot[i] && *name == ["a", "b", "c", "d"][i], 151);
        }
        // whether a vtable has room for slots nothing is written to does not matter
        let mut live = 0;
        for i in 0..n {
            let end = slot[i].wrapping_add(1 + (kinds >> (2 * i) & 3 != 0) as i128);
            live = if (gone >> i & 1 == 0) & (end > live) { end } else { live };
        }
        let m = t.max_vtable_size as i128;
        sym::check((m >= live.wrapping_mul(2).wrapping_add(4)) & (m <= 4 + 2 * total), 151);
        sym::cover(1);
    } else {
        sym::cover(2);
    }
}

const WIDTHS: [[&[u8; 6]; 4]; 2] = [[b"uint8 ", b"uint16", b"uint32", b"uint64"], [b"int8  ", b"int16 ", b"int32 ", b"int64 "]];
/// A type name with a symbolic width; what it is wide.
fn width(t: &mut Txt, signed: bool) -> u32 {
    let b = sym::bytes::<2>();
    let w = match &b {
        b"8 " => 1,
        b"16" => 2,
        b"32" => 4,
        b"64" => 8,
        _ => 0,
    };
    sym::assume(w != 0);
    t.s(if signed { "int" } else { "uint" }).b(&b);
    w
}

fn up(x: u32, a: u32) -> u32 {
    x.wrapping_add(a).wrapping_sub(1) & !a.wrapping_sub(1)
}

/// `[fields, digits of the alignment, nested]`: sizes, offsets and padding of a
/// struct, its fields' widths and its forced alignment symbolic.
fn layout() {
    let (n, nd, nested) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) == 1);
    let mut t = Txt::default();
    let mut body = Txt::default();
    let mut off = 0u32;
    let mut align = 1u32;
    let mut offs = [0u32; 4];
    let mut sizes = [0u32; 4];
    for i in 0..n {
        body.s(["a: ", "b: ", "c: ", "d: "][i]);
        let (w, a) = if nested && i == 1 {
            body.s("In");
            (12, 4)
        } else {
            let w = width(&mut body, i & 1 == 1);
            (w, w)
        };
        body.s("; ");
        off = up(off, a);
        offs[i] = off;
        sizes[i] = w;
        off = off.wrapping_add(w);
        align = if a > align { a } else { align };
    }
    t.s("struct In { x: short; y: int; z: bool; }\nstruct S ");
    let mut ok = true;
    if nd > 0 {
        let d = digits(nd, false, false, true);
        t.s("(force_align: ").b(&d).s(") ");
        let v = value(&d, false).unwrap() as u32;
        ok = (v != 0) & (v & v.wrapping_sub(1) == 0) & (v >= align);
        align = v;
    }
    t.s("{ ").b(&body.0).s("}\n");
    let got = translate(&t.0);
    sym::check(got.is_some() == ok, 152);
    if let Some(d) = got {
        match decl(&d, "S") {
            Some(DeclarationKind::Struct(s)) => {
                let size = up(off, align);
                sym::check(s.size == size && s.alignment == align, 153);
                sym::check(s.fields.len() == n, 153);
                for (i, (name, f)) in s.fields.iter().enumerate() {
                    let end = if i + 1 < n { offs[i + 1] } else { size };
                    sym::check(f.offset == offs[i] && f.size == sizes[i], 153);
                    sym::check(f.padding_after_field == end.wrapping_sub(offs[i]).wrapping_sub(sizes[i]), 153);
                    sym::check(*name == ["a", "b", "c", "d"][i], 153);
                }
            }
            _ => sym::check(false, 153),
        }
        sym::cover(1);
    } else {
        sym::cover(2);
    }
}

/// `[fields, digits of a forced alignment, its field, kinds]`: written in their
/// order, largest first and without padding, the fields of a table end up aligned.
fn order() {
    let (n, nd, who, kinds) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize, sym::param(3));
    let mut t = Txt::default();
    t.s("struct In { x: short; y: int; z: bool; }\nstruct Al (force_align: 16) { x: ushort; }\nenum E : short { A, B }\nunion U { T }\ntable T {");
    let mut sz = [(0u32, 0u32); 5];
    let mut ok = true;
    for i in 0..n {
        t.s([" a: ", " b: ", " c: ", " d: ", " e: "][i]);
        let k = kinds >> (4 * i) & 15;
        sz[i] = match k {
            0 => {
                let w = width(&mut t, i & 1 == 1);
                (w, w)
            }
            1 => {
                t.s("In");
                (12, 4)
            }
            2 => {
                t.s("Al");
                (16, 16)
            }
            3 => {
                t.s("E");
                (2, 2)
            }
            4 => {
                t.s("U");
                (4, 4)
            }
            5 => {
                t.s("[U]");
                (4, 4)
            }
            6 => {
                t.s("string");
                (4, 4)
            }
            7 => {
                t.s("double");
                (8, 8)
            }
            _ => {
                t.s("bool");
                (1, 1)
            }
        };
        if nd > 0 && who == i {
            let d = digits(nd, false, false, true);
            t.s(" (force_align: ").b(&d).s(")");
            let v = value(&d, false).unwrap() as u32;
            ok = (v != 0) & (v & v.wrapping_sub(1) == 0) & (v >= sz[i].1);
        }
        t.s("; ");
    }
    t.s(" }\n");
    let got = translate(&t.0);
    sym::check(got.is_some() == ok, 154);
    if let Some(d) = got {
        let t = table(&d, "T");
        sym::check(t.alignment_order.len() == n, 155);
        let mut seen = 0u32;
        // whichever of the fields in front are present
        let mut before = 0u32;
        for i in 0..n {
            let k = sym::conc(t.alignment_order[i] as u64) as usize;
            sym::check(k < n && seen >> k & 1 == 0, 155);
            seen |= 1 << k;
            let f = &t.fields[k];
            sym::check(f.object_value_size == sz[k].0, 156);
            sym::check(before & sz[k].1.wrapping_sub(1) == 0, 155);
            before |= sz[k].0;
            let tags = match f.object_tag_kind {
                TableFieldTagKind::None => 0,
                TableFieldTagKind::UnionTag => 1,
                TableFieldTagKind::UnionTagVector => 2,
            };
            let kind = kinds >> (4 * k) & 15;
            sym::check(tags == if kind == 4 { 1 } else if kind == 5 { 2 } else { 0 }, 156);
        }
        sym::cover(1);
    } else {
        sym::cover(2);
    }
}
/// `[structs, widths]`: structs in structs, whichever contains whichever. Accepted
/// when none contains itself and all fields are plain; the sizes then add up.
fn nest() {
    let n = sym::param(0) as usize;
    let names = b"abcd";
    let mut r = [0u8; 4];
    let mut t = Txt::default();
    t.s("table t { }\nenum e : long { Z }\n");
    for i in 0..n {
        r[i] = sym::u8();
        sym::assume((r[i] >= b'a') & (r[i] < b'a' + n as u8) | (r[i] == b't') | (r[i] == b'e'));
        let w = ["bool", "int", "double", "short"][(sym::param(1) >> (4 * i) & 3) as usize];
        let v = ["bool", "int", "double", "short"][(sym::param(1) >> (4 * i + 2) & 3) as usize];
        t.s("struct ").b(&names[i..i + 1]).s(" { p: ").s(w).s("; x: ").b(&r[i..i + 1]).s("; q: ").s(v).s("; }\n");
    }
    let got = translate(&t.0);
    for i in 0..n {
        r[i] = sym::conc(r[i] as u64) as u8;
    }
    // size and alignment of each, the innermost first
    let mut done: [Option<(u32, u32)>; 4] = [None; 4];
    for _ in 0..n {
        for i in 0..n {
            let inner = match r[i] {
                b'e' => Some((8, 8)),
                b't' => None,
                c => done[(c - b'a') as usize],
            };
            let Some((s, a)) = inner else { continue };
            let w = [1, 4, 8, 2][(sym::param(1) >> (4 * i) & 3) as usize];
            let v = [1, 4, 8, 2][(sym::param(1) >> (4 * i + 2) & 3) as usize];
            let al = w.max(a).max(v);
            done[i] = Some((up(up(up(w, a) + s, v) + v, al), al));
        }
    }
    let ok = done[..n].iter().all(|x| x.is_some());
    sym::check(got.is_some() == ok, 152);
    let Some(d) = got else {
        sym::cover(2);
        return;
    };
    for i in 0..n {
        let Some((s, a)) = done[i] else { continue };
        match decl(&d, core::str::from_utf8(&names[i..i + 1]).unwrap()) {
            Some(DeclarationKind::Struct(x)) => {
                sym::check(x.size == s && x.alignment == a, 153);
                let (ps, (is, ia)) = ([1, 4, 8, 2][(sym::param(1) >> (4 * i) & 3) as usize], match r[i] {
                    b'e' => (8, 8),
                    c => done[(c - b'a') as usize].unwrap(),
                });
                sym::check(x.fields[1].offset == up(ps, ia) && x.fields[1].size == is, 153);
            }
            _ => sym::check(false, 153),
        }
    }
    sym::cover(1);
}
entries! { tab_nest = nest, tab_ids = ids, tab_layout = layout, tab_order = order }
