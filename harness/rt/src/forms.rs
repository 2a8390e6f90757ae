//! Every kind of argument the creating functions accept, the builder itself.
use crate::core_gen::c as k;
use crate::h_core::*;
use crate::refr::*;
use crate::sym;
use crate::tables::prefix;
use planus::{Builder, DefaultValue, Offset, WriteAsOffset};

/// Writes with f, then expects v.
fn ex<T: Tbl>(v: T::O, forced: bool, f: impl FnOnce(&mut Builder) -> Offset<T::O>) {
    let k = sym::pick(sym::param(0) + 1);
    let mut bl = Builder::new();
    prefix(&mut bl, k);
    let r = f(&mut bl);
    let d = bl.finish(r, None);
    sym::obs(d);
    let mut c = Out::written();
    T::canon(&v, &mut c);
    let mut b = B::strict(d);
    b.forced = forced;
    if k > 0 {
        b.mark(d.len() - k, k, 1);
    }
    let r = out(|o| {
        let p = b.off(0)?;
        T::refr(&b, p, o)
    });
    sym::check(matches!(&r, Ok(o) if same(&o.0, &c.0)), 70);
    sym::check(b.is_ok(), 71);
    sym::check(b.padding_zero(), 72);
    sym::check(b.omit.get(), 73);
    let a = out(|o| T::acc(d, o));
    sym::check(matches!(&a, Ok(a) if same(&a.0, &c.0)), 74);
}
/// `forms!(T, value, |b| a, b, c)`: one path per form; each writes `value`.
macro_rules! forms {
    ($t:ty, $v:expr, |$b:ident| $($e:expr),+ $(,)?) => {{
        #[allow(unused_assignments)]
        let n = { let mut n = 0u64; $( let _ = stringify!($e); n += 1; )+ n };
        let want = sym::pick(n);
        let mut i = 0;
        $( if want == i { return ex::<$t>($v, true, |$b| $e) } i += 1; )+
        let _ = i;
    }};
}

macro_rules! d {
    () => {
        DefaultValue
    };
}
fn scalars() {
    let (a, b, o) = (sym::u8(), sym::i16(), sym::i32());
    sym::assume(a != 3 && b != 0);
    let v = || k::Sc { a, b, o: Some(o), ..Default::default() };
    let w = || k::Sc { a, b, o: None, ..Default::default() };
    if sym::bool() {
        forms!(T_Sc, v(), |b_|
            k::Sc::create(b_, a, b, d!(), d!(), d!(), d!(), d!(), o),
            k::Sc::create(b_, &a, &b, d!(), d!(), d!(), d!(), d!(), &o),
            k::Sc::create(b_, Box::new(a), &&b, d!(), d!(), d!(), d!(), d!(), Box::new(o)),
            k::Sc::create(b_, a, b, 77u32, 0u64, false, k::Color::Green, k::Sgn::Zero, Some(o)),
            k::Sc::create(b_, a, b, &77u32, &0u64, &false, &k::Color::Green, &k::Sgn::Zero, Some(&o)),
            k::Sc::create(b_, a, b, d!(), d!(), d!(), d!(), d!(), &Some(&o)),
            k::Sc::create(b_, a, b, d!(), d!(), d!(), d!(), d!(), Some(Box::new(o))),
            k::Sc::builder().a(a).b(b).c_as_default().d_as_default().e_as_default().f_as_default().g_as_default().o(o).finish(b_),
            k::Sc::builder().a(&a).b(&b).c(77u32).d(&0u64).e_as_default().f_as_default().g_as_default().o(Some(o)).finish(b_),
            WriteAsOffset::prepare(&k::Sc::builder().a(a).b(b).c_as_default().d_as_default().e_as_default().f_as_default().g_as_default().o(o), b_),
            { let r = k::Sc::builder().a(a).b(b).c_as_default().d_as_default().e_as_default().f_as_default().g_as_default().o(&o); WriteAsOffset::prepare(&&r, b_) },
            WriteAsOffset::prepare(&Box::new(v()), b_),
            { let o = WriteAsOffset::prepare(&v(), b_); WriteAsOffset::prepare(&o, b_) },
        )
    } else {
        forms!(T_Sc, w(), |b_|
            k::Sc::create(b_, a, b, d!(), d!(), d!(), d!(), d!(), ()),
            k::Sc::create(b_, a, b, d!(), d!(), d!(), d!(), d!(), None::<i32>),
            k::Sc::create(b_, a, b, d!(), d!(), d!(), d!(), d!(), &None::<i32>),
            k::Sc::builder().a(a).b(b).c_as_default().d_as_default().e_as_default().f_as_default().g_as_default().o_as_null().finish(b_),
            k::Sc::builder().a(a).b(b).c_as_default().d_as_default().e_as_default().f_as_default().g_as_default().o(()).finish(b_),
        )
    }
}
fn text() {
    let n = sym::pick(sym::param(1) + 1);
    let (s, t) = (sym::string(n), sym::string(1));
    let v = || k::Str { s: Some(s.clone()), t: t.clone() };
    let bs: Box<str> = s.clone().into_boxed_str();
    if sym::bool() {
        forms!(T_Str, v(), |b|
            k::Str::create(b, &s, &t),
            k::Str::create(b, s.as_str(), t.as_str()),
            k::Str::create(b, s.clone(), t.clone()),
            k::Str::create(b, Some(&s), &&t),
            k::Str::create(b, Some(s.as_str()), &*t),
            k::Str::create(b, Some(s.clone()), Box::new(t.clone())),
            k::Str::create(b, &Some(&s), &t),
            k::Str::create(b, bs.clone(), &t),
            { let o = b.create_string(&s); k::Str::create(b, o, &t) },
            { let o = b.create_string(s.as_str()); let p = b.create_string(t.clone()); k::Str::create(b, Some(o), p) },
            { let p = b.create_string(&t); let o = b.create_string(&*s); k::Str::create(b, &Some(o), &p) },
            k::Str::builder().s(&s).t(&t).finish(b),
            k::Str::builder().s(Some(s.clone())).t(t.as_str()).finish(b),
            { let o = b.create_string(&s); k::Str::builder().s(o).t(&t).finish(b) },
        )
    } else {
        forms!(T_Str, k::Str { s: None, t: t.clone() }, |b|
            k::Str::create(b, (), &t),
            k::Str::create(b, None::<&str>, &t),
            k::Str::create(b, None::<String>, &t),
            k::Str::create(b, &None::<String>, &t),
            k::Str::create(b, None::<Offset<str>>, &t),
            k::Str::builder().s_as_null().t(&t).finish(b),
        )
    }
}
fn bytes() {
    let x: [u8; 3] = sym::bytes();
    let y: [u64; 2] = [sym::u64(), sym::u64()];
    let z: [bool; 3] = [sym::bool(), sym::bool(), sym::bool()];
    let v = || k::VecB { bytes: Some(x.to_vec()), longs: Some(y.to_vec()), bools: Some(z.to_vec()) };
    forms!(T_VecB, v(), |b|
        k::VecB::create(b, x, y, z),
        k::VecB::create(b, &x, &y, &z),
        k::VecB::create(b, &x[..], &y[..], &z[..]),
        k::VecB::create(b, x.to_vec(), y.to_vec(), z.to_vec()),
        k::VecB::create(b, &x.to_vec(), &y.to_vec(), &z.to_vec()),
        k::VecB::create(b, Some(x), Some(y), Some(z)),
        k::VecB::create(b, Some(&x[..]), Some(&y[..]), Some(&z[..])),
        k::VecB::create(b, &Some(x.to_vec()), &Some(y.to_vec()), &Some(z.to_vec())),
        k::VecB::create(b, Box::new(x), [&y[0], &y[1]], Box::new(z)),
        k::VecB::create(b, &&x, vec![&y[0], &y[1]], &[&z[0], &z[1], &z[2]]),
        { let p = b.create_vector(&x); let q = b.create_vector(y); let r = b.create_vector(&z[..]); k::VecB::create(b, p, q, r) },
        { let p = b.create_vector(x.to_vec()); let q = b.create_vector(&y.to_vec()); let r = b.create_vector(z); k::VecB::create(b, Some(p), Some(q), &r) },
        k::VecB::builder().bytes(&x[..]).longs(y).bools(&z).finish(b),
    )
}
fn structs() {
    let i = k::Inner { a: sym::u8(), b: sym::u32() };
    let s = k::Outer { x: sym::u16(), i, y: sym::u64(), c: k::Color::Blue, f: sym::bool() };
    let t = k::Tiny { a: sym::i8() };
    let n = sym::pick(3);
    let vs = vec![s; n];
    if sym::bool() {
        let mk = |b: &mut Builder, f: usize| match (f, n) {
            (0, _) => k::VecS::create(b, &vs, [t]),
            (1, 0) => k::VecS::create(b, [s; 0], &[&t]),
            (1, 1) => k::VecS::create(b, [s], &[&t]),
            (1, _) => k::VecS::create(b, [s, s], &[&t]),
            (2, _) => k::VecS::create(b, vs.iter().collect::<Vec<_>>(), Some(&[t][..])),
            (3, _) => k::VecS::create(b, Some(&vs[..]), vec![&t]),
            (4, 2) => k::VecS::create(b, &[&s, &s], &vec![t]),
            (4, _) => k::VecS::create(b, &vs[..], &vec![t]),
            (5, _) => {
                let o = b.create_vector(&vs);
                k::VecS::create(b, o, [&t])
            }
            _ => {
                let o = if n == 2 { b.create_vector([s, s]) } else { b.create_vector(vs.clone()) };
                let p = b.create_vector([t]);
                k::VecS::builder().structs(o).tiny(p).finish(b)
            }
        };
        let f = sym::pick(7);
        ex::<T_VecS>(k::VecS { structs: Some(vs.clone()), tiny: Some(vec![t]) }, true, |b| mk(b, f))
    } else {
        forms!(T_StT, k::StT { s: Some(s), r: i, t: Some(t), fl: None }, |b|
            k::StT::create(b, s, i, t, ()),
            k::StT::create(b, &s, &i, &t, None::<k::Fl>),
            k::StT::create(b, Some(s), &&i, Some(&t), ()),
            k::StT::create(b, Box::new(s), Box::new(i), Some(Box::new(t)), ()),
            k::StT::create(b, &Some(&s), i, &Some(t), ()),
            k::StT::builder().s(Some(s)).r(i).t(t).fl(()).finish(b),
            k::StT::builder().s(&s).r(&i).t(&t).fl_as_null().finish(b),
        )
    }
}
fn tables() {
    let x = [sym::u32(), sym::u32()];
    let l = [k::Leaf { v: x[0] }, k::Leaf { v: x[1] }];
    let n = sym::pick(3);
    let (s0, s1) = (sym::string(1), sym::string(2));
    let s = [s0.clone(), s1.clone()];
    let v = || k::VecT { tabs: Some(l[..n].to_vec()), strs: Some(s[..n].to_vec()) };
    let off = |b: &mut Builder| l[..n].iter().map(|x| WriteAsOffset::prepare(x, b)).collect::<Vec<Offset<k::Leaf>>>();
    let soff = |b: &mut Builder| s[..n].iter().map(|x| b.create_string(x)).collect::<Vec<Offset<str>>>();
    if n == 2 && sym::bool() {
        forms!(T_VecT, v(), |b|
            k::VecT::create(b, [&l[0], &l[1]], [&s0, &s1]),
            k::VecT::create(b, &[&l[0], &l[1]], &[s0.as_str(), s1.as_str()]),
            k::VecT::create(b, l.clone(), s.clone()),
            k::VecT::create(b, &l, &s),
            k::VecT::create(b, [Box::new(l[0].clone()), Box::new(l[1].clone())].map(|x| *x), [&*s0, &*s1]),
            { let o = off(b); let p = soff(b); k::VecT::create(b, [o[0], o[1]], [p[0], p[1]]) },
            { let o = off(b); let p = soff(b); k::VecT::create(b, [&o[0], &o[1]], [&p[0], &p[1]]) },
            { let o = off(b); let p = soff(b); let o = b.create_vector([o[0], o[1]]); let p = b.create_vector([p[0], p[1]]); k::VecT::create(b, o, p) },
            { let p = b.create_vector(["a", "b"].map(|x| if x == "a" { &s0 } else { &s1 })); k::VecT::create(b, &l, p) },
        )
    } else {
        forms!(T_VecT, v(), |b|
            k::VecT::create(b, &l[..n], &s[..n]),
            k::VecT::create(b, l[..n].to_vec(), s[..n].to_vec()),
            k::VecT::create(b, &l[..n].to_vec(), &s[..n].to_vec()),
            k::VecT::create(b, Some(&l[..n]), Some(&s[..n])),
            k::VecT::create(b, l[..n].iter().collect::<Vec<_>>(), s[..n].iter().map(|x| x.as_str()).collect::<Vec<_>>()),
            { let o = off(b); let p = soff(b); k::VecT::create(b, o, p) },
            { let o = off(b); let p = soff(b); k::VecT::create(b, &o, &p[..]) },
            { let o = off(b); let p = soff(b); let o = b.create_vector(o); let p = b.create_vector(&p); k::VecT::create(b, o, p) },
            { let p = b.create_vector(&s[..n]); let o = b.create_vector(&l[..n]); k::VecT::create(b, Some(o), &p) },
            k::VecT::builder().tabs(&l[..n]).strs(&s[..n]).finish(b),
        )
    }
}
fn nested() {
    let (x, p) = (sym::u32(), sym::u8());
    let t = sym::string(1);
    let lf = k::Leaf { v: x };
    let st = k::Str { s: None, t: t.clone() };
    let inner = || k::Nest { l: Some(Box::new(lf.clone())), s: None, n: None, pad: p };
    forms!(T_Nest, k::Nest { l: Some(Box::new(lf.clone())), s: Some(Box::new(st.clone())), n: Some(Box::new(inner())), pad: 0 }, |b|
        k::Nest::create(b, &lf, &st, inner(), DefaultValue),
        k::Nest::create(b, lf.clone(), Box::new(st.clone()), &inner(), 0u8),
        k::Nest::create(b, Some(&lf), Some(st.clone()), Some(inner()), 0u8),
        k::Nest::create(b, Some(Box::new(lf.clone())), Some(Box::new(st.clone())), Some(Box::new(inner())), 0u8),
        k::Nest::create(b, k::Leaf::builder().v(x), k::Str::builder().s_as_null().t(&t), k::Nest::builder().l(&lf).s_as_null().n_as_null().pad(p), 0u8),
        k::Nest::create(b, Some(k::Leaf::builder().v(x)), &k::Str::builder().s_as_null().t(&t), Some(k::Nest::builder().l(k::Leaf::builder().v(x)).s(()).n(None::<k::Nest>).pad(p)), 0u8),
        { let a = k::Leaf::create(b, x); let s = k::Str::create(b, (), &t); let n = k::Nest::create(b, &lf, (), (), p); k::Nest::create(b, a, s, n, 0u8) },
        { let s = k::Str::create(b, (), &t); let n = k::Nest::create(b, &lf, (), (), p); let a = k::Leaf::builder().v(x).finish(b); k::Nest::create(b, Some(a), &s, Some(&n), 0u8) },
        k::Nest::builder().l(&lf).s(&st).n(inner()).pad(0u8).finish(b),
        k::Nest::builder().l(k::Leaf::builder().v(&x)).s(Some(&st)).n(Box::new(inner())).pad_as_default().finish(b),
    )
}
fn unions() {
    let x = sym::u32();
    let t = sym::string(1);
    let i = k::Inner { a: sym::u8(), b: sym::u32() };
    let o = k::Outer { x: sym::u16(), i, y: sym::u64(), c: k::Color::Red, f: sym::bool() };
    let lf = k::Leaf { v: x };
    match sym::pick(5) {
        0 => {
            let u = k::U::Leaf(Box::new(lf.clone()));
            forms!(T_Un, k::Un { before: 0, u: Some(u.clone()), after: 0 }, |b|
                k::Un::create(b, 0u8, &u, 0u16),
                k::Un::create(b, 0u8, u.clone(), 0u16),
                k::Un::create(b, 0u8, Some(&u), 0u16),
                k::Un::create(b, 0u8, Some(u.clone()), 0u16),
                k::Un::create(b, 0u8, &Some(u.clone()), 0u16),
                k::Un::create(b, 0u8, Box::new(u.clone()), 0u16),
                { let p = k::U::create_leaf(b, &lf); k::Un::create(b, 0u8, p, 0u16) },
                { let p = k::U::create_leaf(b, k::Leaf::builder().v(x)); k::Un::create(b, 0u8, Some(p), 0u16) },
                k::Un::create(b, 0u8, k::U::builder().leaf(&lf), 0u16),
                { let p = k::U::builder().leaf(lf.clone()).finish(b); k::Un::create(b, 0u8, &p, 0u16) },
                k::Un::create(b, 0u8, Some(k::U::builder().leaf(k::Leaf::builder().v(x))), 0u16),
                k::Un::builder().before(0u8).u(&u).after(0u16).finish(b),
                k::Un::builder().before_as_default().u(k::U::builder().leaf(&lf)).after_as_default().finish(b),
            )
        }
        1 => {
            let st = k::Str { s: Some(t.clone()), t: t.clone() };
            let u = k::U::Str(Box::new(st.clone()));
            forms!(T_UnR, k::UnR { u: u.clone() }, |b|
                k::UnR::create(b, &u),
                k::UnR::create(b, u.clone()),
                k::UnR::create(b, Box::new(u.clone())),
                { let p = k::U::create_str(b, &st); k::UnR::create(b, p) },
                { let p = k::U::create_str(b, k::Str::builder().s(&t).t(&t)); k::UnR::create(b, &p) },
                k::UnR::create(b, k::U::builder().str(&st)),
                k::UnR::builder().u(k::U::builder().str(k::Str::builder().s(&t).t(&t))).finish(b),
            )
        }
        2 => {
            let u = k::U::O(o);
            forms!(T_UnR, k::UnR { u: u.clone() }, |b|
                k::UnR::create(b, &u),
                { let p = k::U::create_o(b, &o); k::UnR::create(b, p) },
                { let p = k::U::create_o(b, o); k::UnR::create(b, &&p) },
                k::UnR::create(b, k::U::builder().o(o)),
                { let p = k::U::builder().o(&o).finish(b); k::UnR::builder().u(p).finish(b) },
            )
        }
        3 => {
            let u = k::U::S(t.clone());
            forms!(T_UnR, k::UnR { u: u.clone() }, |b|
                k::UnR::create(b, &u),
                { let p = k::U::create_s(b, &t); k::UnR::create(b, p) },
                { let p = k::U::create_s(b, t.as_str()); k::UnR::create(b, p) },
                { let s = b.create_string(&t); let p = k::U::create_s(b, s); k::UnR::create(b, p) },
                k::UnR::create(b, k::U::builder().s(&t)),
                k::UnR::create(b, k::U::builder().s(t.as_str())),
            )
        }
        _ => forms!(T_Un, k::Un { before: 1, u: None, after: 2 }, |b|
            k::Un::create(b, 1u8, (), 2u16),
            k::Un::create(b, 1u8, None::<k::U>, 2u16),
            k::Un::create(b, 1u8, None::<&k::U>, 2u16),
            k::Un::create(b, 1u8, &None::<k::U>, 2u16),
            k::Un::create(b, 1u8, None::<planus::UnionOffset<k::U>>, 2u16),
            k::Un::builder().before(1u8).u_as_null().after(2u16).finish(b),
        ),
    }
}
fn uvecs() {
    let o = k::Outer { x: sym::u16(), i: k::Inner { a: sym::u8(), b: sym::u32() }, y: 7, c: k::Color::Red, f: false };
    let all = [k::U::Leaf(Box::new(k::Leaf { v: sym::u32() })), k::U::O(o), k::U::S(sym::string(1))];
    let at = sym::pick(2);
    let n = sym::pick(3);
    let us = || all[at..at + n].to_vec();
    let u = us();
    let offs = |b: &mut Builder| u.iter().map(|x| planus::WriteAsUnion::prepare(x, b)).collect::<Vec<planus::UnionOffset<k::U>>>();
    if n == 2 && sym::bool() {
        forms!(T_UnV, k::UnV { a: 1, uv: Some(us()), b: 2 }, |b|
            k::UnV::create(b, 1u8, [u[0].clone(), u[1].clone()], 2u32),
            k::UnV::create(b, 1u8, &[u[0].clone(), u[1].clone()], 2u32),
            k::UnV::create(b, 1u8, [&u[0], &u[1]], 2u32),
            k::UnV::create(b, 1u8, Some([&u[0], &u[1]]), 2u32),
            { let o = offs(b); k::UnV::create(b, 1u8, [&o[0], &o[1]], 2u32) },
            { let p = b.create_union_vector([&u[0], &u[1]]); k::UnV::create(b, 1u8, p, 2u32) },
            { let p = b.create_union_vector(&[u[0].clone(), u[1].clone()]); k::UnV::create(b, 1u8, p, 2u32) },
        )
    } else if sym::bool() {
        forms!(T_UnV, k::UnV { a: 1, uv: Some(us()), b: 2 }, |b|
            k::UnV::create(b, 1u8, &u, 2u32),
            k::UnV::create(b, 1u8, us(), 2u32),
            k::UnV::create(b, 1u8, &u[..], 2u32),
            k::UnV::create(b, 1u8, Some(&u[..]), 2u32),
            k::UnV::create(b, 1u8, &Some(us()), 2u32),
            k::UnV::create(b, 1u8, u.iter().collect::<Vec<_>>(), 2u32),
            { let o = offs(b); k::UnV::create(b, 1u8, o, 2u32) },
            { let p = b.create_union_vector(&u); k::UnV::create(b, 1u8, p, 2u32) },
            { let p = b.create_union_vector(&u[..]); k::UnV::create(b, 1u8, Some(p), 2u32) },
            { let o = offs(b); let p = b.create_union_vector(&o); k::UnV::builder().a(1u8).uv(&p).b(2u32).finish(b) },
            k::UnV::builder().a(1u8).uv(&u).b(2u32).finish(b),
        )
    } else {
        forms!(T_UnV, k::UnV { a: 1, uv: None, b: 2 }, |b|
            k::UnV::create(b, 1u8, (), 2u32),
            k::UnV::create(b, 1u8, None::<Vec<k::U>>, 2u32),
            k::UnV::create(b, 1u8, &None::<Vec<k::U>>, 2u32),
            k::UnV::builder().a(1u8).uv_as_null().b(2u32).finish(b),
        )
    }
}

// ---- the builder itself

const MASKS: [usize; 6] = [0, 1, 3, 7, 15, 31];
struct Chunk {
    back: usize,
    mask: usize,
    data: Vec<u8>,
}
fn chunk(bl: &mut Builder, size: usize, mask: usize, before: &[Chunk]) -> Chunk {
    // before: all that was written so far
    let data = sym::bvec(size);
    let was = bl.len();
    let mut told = 0;
    unsafe {
        bl.write_with(size, mask, |o, s| {
            told = o;
            for i in 0..s.len() {
                s[i].write(data[i]);
            }
        })
    };
    let back = bl.len();
    sym::check(told as usize == back && true, 80);
    // the least padding that keeps every earlier promise
    let fits = |p: usize| before.iter().all(|c| (was + size + p - c.back) & c.mask.min(mask) == 0);
    let mut p = 0;
    while p <= 64 && !fits(p) {
        p += 1;
    }
    sym::check(back == was + size + p, 81);
    Chunk { back, mask, data }
}
/// params: 0 chunks, 1 largest size, 2 number of masks, 3 first mask (or 99), 4 largest capacity choice
fn alignment() {
    let cap = [0, 1, 16, 17, 40][sym::pick(sym::param(4) + 1)];
    let mut bl = if cap == 0 { Builder::new() } else { Builder::with_capacity(cap) };
    sym::check(bl.is_empty() && bl.len() == 0 && bl.as_slice().is_empty(), 80);
    let mut cs: Vec<Chunk> = vec![];
    for i in 0..sym::param(0) {
        let f = sym::param(3) as usize;
        let m = if i == 0 && f < 99 { f } else { sym::pick(sym::param(2)) };
        let size = sym::pick(sym::param(1) + 1);
        let c = chunk(&mut bl, size, MASKS[m], &cs);
        cs.push(c);
        let d = bl.as_slice();
        sym::check(d.len() == bl.len(), 80);
        for c in &cs {
            let p = d.len() - c.back;
            sym::check(same(&d[p..p + c.data.len()], &c.data), 82);
        }
    }
    let id = if sym::bool() { Some(sym::bytes::<4>()) } else { None };
    let at = bl.len();
    let root = bl.current_offset::<()>();
    let d = bl.finish(root, id).to_vec();
    sym::obs(&d);
    let al = cs.iter().map(|c| c.mask + 1).max().unwrap_or(1).max(4);
    let head = if id.is_some() { 8 } else { 4 };
    sym::check(d.len() >= at + head && d.len() - at - head < al, 83);
    let off = u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as usize;
    sym::check(off == d.len() - at, 84);
    if let Some(id) = id {
        sym::check(same(&d[4..8], &id), 85);
    }
    let mut used = vec![false; d.len()];
    used[..head].fill(true);
    for c in &cs {
        let p = d.len() - c.back;
        sym::check(p & c.mask == 0, 83);
        sym::check(same(&d[p..p + c.data.len()], &c.data), 82);
        for i in 0..c.data.len() {
            sym::check(!used[p + i], 82);
            used[p + i] = true;
        }
    }
    let mut z = 0;
    for i in 0..d.len() {
        if !used[i] {
            z |= d[i];
        }
    }
    sym::check(z == 0, 86);
}
/// A cleared builder writes what a new one writes.
/// params: 0 chunks before, 1 largest size, 2 number of masks
fn reuse() {
    let mut bl = Builder::with_capacity(sym::pick(2) * 24);
    let mut cs = vec![];
    for _ in 0..sym::param(0) {
        let c = chunk(&mut bl, sym::pick(sym::param(1) + 1), MASKS[sym::pick(sym::param(2))], &cs);
        cs.push(c);
    }
    let kind = sym::pick(3);
    let old = k::Nest { l: None, s: Some(Box::new(k::Str { s: Some(sym::string(1)), t: "xy".into() })), n: None, pad: sym::u8() };
    if kind == 1 {
        let r = bl.current_offset::<()>();
        bl.finish(r, None);
    } else if kind == 2 {
        bl.finish(&old, None);
    }
    bl.clear();
    sym::check(bl.is_empty() && bl.as_slice().is_empty(), 87);
    let mut fresh = Builder::new();
    let k0 = sym::pick(4);
    let v = k::Nest { l: Some(Box::new(k::Leaf { v: sym::u32() })), s: Some(Box::new(k::Str { s: Some("xy".into()), t: sym::string(1) })), n: None, pad: sym::u8() };
    prefix(&mut bl, k0);
    prefix(&mut fresh, k0);
    let a = bl.finish(&v, None);
    let b = fresh.finish(&v, None);
    sym::obs(b);
    sym::check(same(a, b), 87);
}

// ---- the builder's caches (feature caches)

/// params: 0 objects, 1 longest. Strings and byte vectors of any content: each
/// keeps its content, equal ones are written once.
fn cached() {
    let n = sym::param(0) as usize;
    let max = sym::param(1);
    let mut bl = Builder::new();
    prefix(&mut bl, sym::pick(2) * 3);
    let mut said: Vec<(usize, Vec<u8>, usize, Option<Offset<str>>)> = vec![];
    for i in 0..n {
        let kind = sym::pick(2);
        let len = sym::pick(max + 1);
        let was = bl.len();
        let (d, o) = if kind == 0 {
            let s = sym::string(len);
            let o = if i % 2 == 0 { bl.create_string(&s) } else { bl.create_string(s.as_str()) };
            (s.into_bytes(), Some(o))
        } else {
            let v = sym::bvec(len);
            let _: Offset<[u8]> = if i % 2 == 0 { bl.create_vector(&v) } else { bl.create_vector(&v[..]) };
            (v, None)
        };
        let old = said.iter().find(|x| x.0 == kind && same(&x.1, &d)).map(|x| x.2);
        if cfg!(feature = "caches") {
            sym::check((bl.len() == was) == old.is_some(), 90);
        }
        said.push((kind, d, old.unwrap_or(bl.len()), o));
        let b = bl.as_slice();
        for (k, d, back, _) in &said {
            let p = b.len() - back;
            sym::check(same(&b[p..p + 4], &(d.len() as u32).to_le_bytes()) && same(&b[p + 4..p + 4 + d.len()], d), 91);
            sym::check(*k == 1 || b[p + 4 + d.len()] == 0, 91);
        }
    }
    // what the offsets refer to
    let strs: Vec<Offset<str>> = said.iter().filter_map(|x| x.3).collect();
    let want: Vec<&Vec<u8>> = said.iter().filter(|x| x.0 == 0).map(|x| &x.1).collect();
    let r = k::VecT::create(&mut bl, (), &strs);
    let d = bl.finish(r, None).to_vec();
    sym::obs(&d);
    let v = <k::VecTRef as planus::ReadAsRoot>::read_as_root(&d).ok().and_then(|r| r.strs().ok().flatten());
    let Some(v) = v else { return sym::check(false, 92) };
    sym::check(v.len() == want.len(), 92);
    for (i, w) in want.iter().enumerate() {
        sym::check(matches!(v.get(i), Some(Ok(s)) if same(s.as_bytes(), w)), 92);
    }
    if let Some((_, w, _, _)) = said.iter().find(|x| x.0 == 1) {
        bl.clear();
        // after clear nothing may refer to what was there
        let r = k::VecB::create(&mut bl, w, (), ());
        let d = bl.finish(r, None).to_vec();
        let v = <k::VecBRef as planus::ReadAsRoot>::read_as_root(&d).ok().and_then(|r| r.bytes().ok().flatten());
        sym::check(matches!(v, Some(s) if same(s, w)), 93);
    }
}
/// Several tables with arbitrary presence patterns in one buffer share vtables;
/// each keeps its fields.
fn vtables() {
    let n = sym::param(0) as usize;
    let v: Vec<k::Sc2> = (0..n)
        .map(|_| k::Sc2 { a: if sym::bool() { sym::i8() } else { -5 }, f: if sym::bool() { Some(k::Color::Red) } else { None }, h: if sym::bool() { sym::u64() } else { u64::MAX }, ..Default::default() })
        .collect();
    let mut bl = Builder::new();
    prefix(&mut bl, sym::pick(4));
    let mut said = vec![];
    for x in &v {
        let o = WriteAsOffset::prepare(x, &mut bl);
        said.push((o, bl.len()));
    }
    for i in 0..n {
        let b = bl.as_slice();
        let at = b.len() - said[i].1;
        let mut c = Out::written();
        T_Sc2::canon(&v[i], &mut c);
        let rd = B::plain(b);
        let r = out(|o| T_Sc2::refr(&rd, at, o));
        sym::check(matches!(&r, Ok(o) if same(&o.0, &c.0)), 94);
    }
    let last = said[n - 1].0;
    let d = bl.finish(last, None).to_vec();
    sym::obs(&d);
    let mut c = Out::written();
    T_Sc2::canon(&v[n - 1], &mut c);
    let a = out(|o| T_Sc2::acc(&d, o));
    sym::check(matches!(&a, Ok(a) if same(&a.0, &c.0)), 94);
}

entries! {
    form_scalars = scalars, form_text = text, form_bytes = bytes, form_structs = structs, form_tables = tables, form_nested = nested, form_unions = unions, form_uvecs = uvecs,
    bld_alignment = alignment, bld_reuse = reuse,
    cache_objects = cached, cache_vtables = vtables,
}
