//! The vector interface: Vector and UnionVector behave like slices of their elements.
use crate::core_gen::c as k;
use crate::refr::same;
use crate::sym;
use core::ops::Bound;
use planus::{Builder, ReadAsRoot};

type Dump = Vec<u8>;

fn eq(a: &[Dump], b: &[Dump]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
fn eqo(a: Option<Dump>, b: Option<&Dump>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same(&a, b),
        (None, None) => true,
        _ => false,
    }
}
fn eqs(a: Option<Vec<Dump>>, b: Option<&[Dump]>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => eq(&a, b),
        (None, None) => true,
        _ => false,
    }
}
fn index() -> usize {
    sym::u64() as usize
}

/// One path per index up to n; None: any larger one.
fn small(n: usize) -> Option<usize> {
    let i = sym::pick(n as u64 + 2);
    (i <= n).then_some(i)
}

/// k steps on an iterator, against the same steps on a slice iterator.
fn steps<A, B>(mut a: A, mut b: B, n: usize, same1: &dyn Fn(Option<A::Item>, Option<B::Item>) -> bool)
where
    A: DoubleEndedIterator + ExactSizeIterator + Clone,
    B: DoubleEndedIterator + ExactSizeIterator + Clone,
{
    for _ in 0..n {
        match sym::pick(6) {
            0 => sym::check(same1(a.next(), b.next()), 61),
            1 => sym::check(same1(a.next_back(), b.next_back()), 61),
            2 => {
                let Some(i) = small(b.len()) else {
                    let i = index();
                    sym::assume(i > b.len());
                    sym::check(same1(a.nth(i), b.nth(i)), 61);
                    sym::check(a.len() == 0 && a.size_hint() == (0, Some(0)) && a.next().is_none() && a.next_back().is_none(), 61);
                    return;
                };
                sym::check(same1(a.nth(i), b.nth(i)), 61)
            }
            3 => {
                let Some(i) = small(b.len()) else {
                    let i = index();
                    sym::assume(i > b.len());
                    sym::check(same1(a.nth_back(i), b.nth_back(i)), 61);
                    sym::check(a.len() == 0 && a.size_hint() == (0, Some(0)) && a.next().is_none() && a.next_back().is_none(), 61);
                    return;
                };
                sym::check(same1(a.nth_back(i), b.nth_back(i)), 61)
            }
            4 => {
                sym::check(same1(a.clone().last(), b.clone().last()), 61);
                sym::check(a.clone().count() == b.clone().count(), 61)
            }
            _ => {
                sym::check(a.size_hint() == b.size_hint(), 62);
                sym::check(a.len() == b.len(), 62);
                let (mut x, mut y) = (a.clone(), b.clone());
                for _ in 0..b.len() + 1 {
                    sym::check(same1(x.next(), y.next()), 61);
                }
                sym::check(x.next().is_none() && x.next_back().is_none(), 61);
            }
        }
    }
    sym::check(a.len() == b.len(), 62);
    let (mut x, mut y) = (a.clone(), b.clone());
    for _ in 0..b.len() + 1 {
        sym::check(same1(x.next_back(), y.next_back()), 61);
    }
    sym::check(a.size_hint() == b.size_hint(), 62);
    for _ in 0..b.len() + 1 {
        sym::check(same1(a.next(), b.next()), 61);
    }
    sym::check(a.next().is_none() && a.nth(0).is_none() && a.nth_back(0).is_none(), 61);
}

fn chunk(n: usize) -> usize {
    match sym::pick(n as u64 + 6) {
        i if i < n + 2 => i + 1,
        i => [usize::MAX, usize::MAX - 1, 1 << 63, 1 << 62][i - n - 2],
    }
}

/// `$v`: an expression of a vector type; `$m`: the dumps of its elements; `$d`:
/// dump of an element as the vector yields it.
macro_rules! slice_like {
    ($v:expr, $m:expr, $d:expr) => {{
        let (v, m, d) = ($v, &$m[..], $d);
        let n = m.len();
        let all = |v| {
            let mut v = v;
            if false {
                v = $v
            }
            let mut r: Vec<Dump> = Vec::new();
            for i in 0..v.len() {
                match v.get(i) {
                    Some(x) => r.push(d(x)),
                    None => sym::check(false, 60),
                }
            }
            r
        };
        sym::check(v.len() == n && v.is_empty() == (n == 0), 60);
        sym::check(eq(&all(v), m), 60);
        let st = sym::param(2) as usize;
        match sym::param(1) {
            0 => match sym::pick(18) {
                0 => {
                    let i = index();
                    sym::check(eqo(v.get(i).map(d), m.get(i)), 60)
                }
                1 => sym::check(eqo(v.first().map(d), m.first()), 60),
                2 => sym::check(eqo(v.last().map(d), m.last()), 60),
                3 => sym::check(
                    match (v.split_first(), m.split_first()) {
                        (Some((x, r)), Some((y, s))) => same(&d(x), y) && eq(&all(r), s),
                        (None, None) => true,
                        _ => false,
                    },
                    60,
                ),
                4 => sym::check(
                    match (v.split_last(), m.split_last()) {
                        (Some((x, r)), Some((y, s))) => same(&d(x), y) && eq(&all(r), s),
                        (None, None) => true,
                        _ => false,
                    },
                    60,
                ),
                5 => {
                    let i = index();
                    sym::check(v.split_at(i).is_some() == (i <= n), 60);
                    if i <= n {
                        let i = sym::conc(i as u64) as usize;
                        if let Some((a, b)) = v.split_at(i) {
                            sym::check(eq(&all(a), &m[..i]) && eq(&all(b), &m[i..]), 60);
                        }
                        let (a, b) = unsafe { v.split_at_unchecked(i) };
                        sym::check(eq(&all(a), &m[..i]) && eq(&all(b), &m[i..]), 60);
                    }
                }
                6 => {
                    let (i, j) = (index(), index());
                    let w = i <= j && j <= n;
                    sym::check(v.get(i..j).is_some() == w, 60);
                    if w {
                        let (i, j) = (sym::conc(i as u64) as usize, sym::conc(j as u64) as usize);
                        sym::check(eqs(v.get(i..j).map(all), m.get(i..j)), 60);
                        sym::check(eq(&all(unsafe { v.get_unchecked(i..j) }), &m[i..j]), 60);
                        sym::check(eq(&all(unsafe { v.get_unchecked((Bound::Included(i), Bound::Excluded(j))) }), &m[i..j]), 60);
                        if i > 0 && j > 0 {
                            sym::check(eq(&all(unsafe { v.get_unchecked((Bound::Excluded(i - 1), Bound::Included(j - 1))) }), &m[i..j]), 60);
                            sym::check(eq(&all(unsafe { v.get_unchecked(i..=j - 1) }), &m[i..j]), 60);
                        }
                    }
                }
                7 => {
                    let i = index();
                    sym::check(v.get(i..).is_some() == (i <= n), 60);
                    if i <= n {
                        let i = sym::conc(i as u64) as usize;
                        sym::check(eqs(v.get(i..).map(all), m.get(i..)), 60);
                        sym::check(eq(&all(unsafe { v.get_unchecked(i..) }), &m[i..]), 60);
                        sym::check(eq(&all(unsafe { v.get_unchecked((Bound::Included(i), Bound::Unbounded)) }), &m[i..]), 60);
                    }
                }
                8 => {
                    let i = index();
                    sym::check(v.get(..i).is_some() == (i <= n), 60);
                    if i <= n {
                        let i = sym::conc(i as u64) as usize;
                        sym::check(eqs(v.get(..i).map(all), m.get(..i)), 60);
                        sym::check(eq(&all(unsafe { v.get_unchecked(..i) }), &m[..i]), 60);
                        sym::check(eq(&all(unsafe { v.get_unchecked((Bound::Unbounded, Bound::Excluded(i))) }), &m[..i]), 60);
                    }
                }
                9 => {
                    let (i, j) = (index(), index());
                    let w = j < n && i <= j + 1;
                    sym::check(v.get(i..=j).is_some() == w, 60);
                    if w {
                        let (i, j) = (sym::conc(i as u64) as usize, sym::conc(j as u64) as usize);
                        sym::check(eqs(v.get(i..=j).map(all), m.get(i..=j)), 60);
                    }
                }
                10 => {
                    let j = index();
                    sym::check(v.get(..=j).is_some() == (j < n), 60);
                    if j < n {
                        let j = sym::conc(j as u64) as usize;
                        sym::check(eqs(v.get(..=j).map(all), m.get(..=j)), 60);
                        sym::check(eq(&all(unsafe { v.get_unchecked(..=j) }), &m[..=j]), 60);
                    }
                }
                11 => {
                    sym::check(eqs(v.get(..).map(all), m.get(..)), 60);
                    sym::check(eq(&all(unsafe { v.get_unchecked(..) }), m), 60);
                }
                12 => {
                    let (i, j) = (index(), index());
                    let bound = |i| match sym::pick(3) {
                        0 => Bound::Included(i),
                        1 => Bound::Excluded(i),
                        _ => Bound::Unbounded,
                    };
                    let r = (bound(i), bound(j));
                    sym::check(v.get(r).is_some() == m.get(r).is_some(), 60);
                    if m.get(r).is_some() {
                        let cb = |b| match b {
                            Bound::Included(i) => Bound::Included(sym::conc(i as u64) as usize),
                            Bound::Excluded(i) => Bound::Excluded(sym::conc(i as u64) as usize),
                            Bound::Unbounded => Bound::Unbounded,
                        };
                        let r = (cb(r.0), cb(r.1));
                        sym::check(eqs(v.get(r).map(all), m.get(r)), 60);
                    }
                }
                13 => {
                    let i = index();
                    if i < n {
                        let i = sym::conc(i as u64) as usize;
                        sym::check(same(&d(unsafe { v.get_unchecked(i) }), &m[i]), 60)
                    }
                }
                14 => {
                    let mut k = 0;
                    for x in v {
                        sym::check(k < n && same(&d(x), &m[k]), 60);
                        k += 1;
                    }
                    sym::check(k == n, 60);
                }
                15 => {
                    let c = chunk(n);
                    let (a, b) = (v.chunks_exact(c), m.chunks_exact(c));
                    sym::check(eq(&all(a.remainder()), b.remainder()), 63);
                    let mut a = a;
                    a.next();
                    sym::check(eq(&all(a.remainder()), b.remainder()), 63);
                }
                16 => {
                    let c = chunk(n);
                    let (a, b) = (v.rchunks_exact(c), m.rchunks_exact(c));
                    sym::check(eq(&all(a.remainder()), b.remainder()), 63);
                    let mut a = a;
                    a.next();
                    sym::check(eq(&all(a.remainder()), b.remainder()), 63);
                }
                _ => {
                    // an empty vector of the same type
                    if let Some(e) = v.get(0..0) {
                        sym::check(e.is_empty() && e.get(0).is_none() && e.first().is_none() && e.last().is_none() && e.iter().next().is_none(), 60);
                        sym::check(e.split_first().is_none() && e.split_last().is_none() && e.windows(1).next().is_none() && e.chunks(1).next().is_none(), 60);
                    }
                }
            },
            1 => steps(v.iter(), m.iter(), st, &|a, b| eqo(a.map(d), b)),
            2 => {
                let c = chunk(n);
                steps(v.chunks(c), m.chunks(c), st, &|a, b| eqs(a.map(all), b))
            }
            3 => {
                let c = chunk(n);
                steps(v.rchunks(c), m.rchunks(c), st, &|a, b| eqs(a.map(all), b))
            }
            4 => {
                let c = chunk(n);
                steps(v.chunks_exact(c), m.chunks_exact(c), st, &|a, b| eqs(a.map(all), b))
            }
            5 => {
                let c = chunk(n);
                steps(v.rchunks_exact(c), m.rchunks_exact(c), st, &|a, b| eqs(a.map(all), b))
            }
            _ => {
                let c = chunk(n);
                steps(v.windows(c), m.windows(c), st, &|a, b| eqs(a.map(all), b))
            }
        }
    }};
}

fn n() -> usize {
    sym::param(0) as usize
}
fn bad(_: planus::Error) -> Dump {
    vec![0xEE]
}

// params: length, mode, steps
fn longs() {
    let x: Vec<u64> = (0..n()).map(|_| sym::u64()).collect();
    let mut b = Builder::new();
    let r = k::VecB::create(&mut b, (), &x, ());
    let d = b.finish(r, None).to_vec();
    let m: Vec<Dump> = x.iter().map(|x| x.to_le_bytes().to_vec()).collect();
    let v = k::VecBRef::read_as_root(&d).ok().and_then(|r| r.longs().ok().flatten());
    let Some(v) = v else { return sym::check(false, 60) };
    slice_like!(v, m, |x: u64| x.to_le_bytes().to_vec())
}
fn bools() {
    let x: Vec<u8> = sym::bvec(n());
    let mut b = Builder::new();
    let r = k::VecB::create(&mut b, &x, (), ());
    let d = b.finish(r, None).to_vec();
    // byte vectors are slices already
    let v = k::VecBRef::read_as_root(&d).ok().and_then(|r| r.bytes().ok().flatten());
    sym::check(matches!(v, Some(s) if same(s, &x)), 60);
    let x: Vec<bool> = (0..n()).map(|_| sym::bool()).collect();
    let mut b = Builder::new();
    let r = k::VecB::create(&mut b, (), (), &x);
    let d = b.finish(r, None).to_vec();
    let m: Vec<Dump> = x.iter().map(|x| vec![*x as u8]).collect();
    let v = k::VecBRef::read_as_root(&d).ok().and_then(|r| r.bools().ok().flatten());
    let Some(v) = v else { return sym::check(false, 60) };
    slice_like!(v, m, |x: bool| vec![x as u8])
}
/// Enum elements are results: arbitrary bytes.
fn enums() {
    let x: Vec<u8> = sym::bvec(n());
    let mut b = Builder::new();
    let r = k::VecB::create(&mut b, &x, (), ());
    let d = b.finish(r, None).to_vec();
    let m: Vec<Dump> = x.iter().map(|x| if *x == 0 || *x == 1 || *x == 7 { vec![*x, 1] } else { vec![*x, 0] }).collect();
    let v = k::VecERef::read_as_root(&d).ok().and_then(|r| r.enums().ok().flatten());
    let Some(v) = v else { return sym::check(false, 60) };
    slice_like!(v, m, |x: Result<k::Color, planus::errors::UnknownEnumTag>| match x {
        Ok(c) => vec![c as u8, 1],
        Err(e) => vec![e.error_kind.tag as u8, 0],
    })
}
fn structs() {
    let x: Vec<k::Inner> = (0..n()).map(|_| k::Inner { a: sym::u8(), b: sym::u32() }).collect();
    let o: Vec<k::Outer> = x.iter().map(|i| k::Outer { x: 1, i: *i, y: 2, c: k::Color::Green, f: true }).collect();
    let mut b = Builder::new();
    let r = k::VecS::create(&mut b, &o, ());
    let d = b.finish(r, None).to_vec();
    let m: Vec<Dump> = x.iter().map(|x| [&[x.a][..], &x.b.to_le_bytes()].concat()).collect();
    let v = k::VecSRef::read_as_root(&d).ok().and_then(|r| r.structs().ok().flatten());
    let Some(v) = v else { return sym::check(false, 60) };
    slice_like!(v, m, |x: k::OuterRef<'_>| {
        if x.x() != 1 || x.y() != 2 || !x.f() { vec![] } else { [&[x.i().a()][..], &x.i().b().to_le_bytes()].concat() }
    })
}
fn tables() {
    let x: Vec<u32> = (0..n()).map(|_| sym::u32()).collect();
    x.iter().for_each(|v| sym::assume(*v != 0));
    let l: Vec<k::Leaf> = x.iter().map(|v| k::Leaf { v: *v }).collect();
    let mut b = Builder::new();
    let r = k::VecT::create(&mut b, &l, ());
    let d = b.finish(r, None).to_vec();
    let m: Vec<Dump> = x.iter().map(|x| x.to_le_bytes().to_vec()).collect();
    let v = k::VecTRef::read_as_root(&d).ok().and_then(|r| r.tabs().ok().flatten());
    let Some(v) = v else { return sym::check(false, 60) };
    slice_like!(v, m, |x: planus::Result<k::LeafRef<'_>>| match x.and_then(|t| t.v()) {
        Ok(v) => v.to_le_bytes().to_vec(),
        Err(e) => bad(e),
    })
}
fn strings() {
    let x: Vec<String> = (0..n()).map(|i| { let mut s = sym::string(1); s.push((b'0' + i as u8) as char); s }).collect();
    let mut b = Builder::new();
    let r = k::VecT::create(&mut b, (), &x);
    let d = b.finish(r, None).to_vec();
    let m: Vec<Dump> = x.iter().map(|x| x.as_bytes().to_vec()).collect();
    let v = k::VecTRef::read_as_root(&d).ok().and_then(|r| r.strs().ok().flatten());
    let Some(v) = v else { return sym::check(false, 60) };
    slice_like!(v, m, |x: planus::Result<&str>| match x {
        Ok(v) => v.as_bytes().to_vec(),
        Err(e) => bad(e),
    })
}
fn unions() {
    let x: Vec<u32> = (0..n()).map(|_| sym::u32()).collect();
    x.iter().for_each(|v| sym::assume(*v != 0));
    let u: Vec<k::U> = x
        .iter()
        .enumerate()
        .map(|(i, v)| if i % 2 == 0 { k::U::Leaf(Box::new(k::Leaf { v: *v })) } else { k::U::O(k::Outer { x: i as u16, i: k::Inner { a: 1, b: *v }, y: 3, c: k::Color::Red, f: false }) })
        .collect();
    let mut b = Builder::new();
    let r = k::UnV::create(&mut b, 1, &u, 2);
    let d = b.finish(r, None).to_vec();
    let m: Vec<Dump> = x.iter().enumerate().map(|(i, x)| [&[(i % 2) as u8][..], &x.to_le_bytes()].concat()).collect();
    let v = k::UnVRef::read_as_root(&d).ok().and_then(|r| r.uv().ok().flatten());
    let Some(v) = v else { return sym::check(false, 60) };
    slice_like!(v, m, |x: planus::Result<k::URef<'_>>| match x {
        Ok(k::URef::Leaf(l)) => match l.v() {
            Ok(v) => [&[0u8][..], &v.to_le_bytes()].concat(),
            Err(e) => bad(e),
        },
        Ok(k::URef::O(o)) => [&[1u8][..], &o.i().b().to_le_bytes()].concat(),
        Ok(_) => vec![],
        Err(e) => bad(e),
    })
}

entries! {
    vec_longs = longs, vec_bools = bools, vec_enums = enums, vec_structs = structs, vec_tables = tables, vec_strings = strings, vec_unions = unions,
}
