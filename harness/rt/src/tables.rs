//! Entries over one table type.
use crate::refr::*;
use crate::sym;
use planus::Builder;

/// Put `n` bytes of 0xA5 at the end of the buffer, so that what follows is written
/// at every alignment.
pub fn prefix(b: &mut Builder, n: usize) {
    if n > 0 {
        unsafe { b.write_with(n, 0, |_, s| s.iter_mut().for_each(|x| { x.write(0xA5); })) }
    }
}

/// params: 0 form, 1 largest prefix, 2.. generator, 6 file identifier
/// Write a value and read it back with the reference reader.
pub fn wire<T: Tbl>() {
    let form = sym::param(0) as usize;
    let k = sym::pick(sym::param(1) + 1);
    let v = T::gen(&mut Gen::from_params(2));
    let id = if sym::param(6) != 0 { Some(sym::bytes::<4>()) } else { None };
    let mut bl = Builder::new();
    prefix(&mut bl, k);
    T::finish(&mut bl, &v, form, id);
    let d = bl.as_slice();
    sym::obs(d);
    let mut b = B::strict(d);
    b.forced = form == 2 || form == 4;
    if k > 0 {
        b.mark(d.len() - k, k, 1);
    }
    let r = out(|o| {
        let p = b.off(0)?;
        T::refr(&b, p, o)
    });
    sym::check(r.is_ok(), 1);
    if let Ok(o) = r {
        let mut c = Out::written();
        T::canon(&v, &mut c);
        sym::check(same(&o.0, &c.0), 2);
        if let Some(id) = id {
            sym::check(d.len() >= 8 && same(&d[4..8], &id), 5);
            b.mark(4, 4, 1);
        }
        sym::check(b.is_ok(), 3);
        sym::check(b.padding_zero(), 4);
        sym::check(b.omit.get(), 6);
    }
}

/// Same parameters: write a value and read it back through planus.
pub fn trip<T: Tbl>() {
    let form = sym::param(0) as usize;
    let k = sym::pick(sym::param(1) + 1);
    let v = T::gen(&mut Gen::from_params(2));
    let id = if sym::param(6) != 0 { Some(sym::bytes::<4>()) } else { None };
    let mut bl = Builder::new();
    prefix(&mut bl, k);
    T::finish(&mut bl, &v, form, id);
    let d = bl.as_slice();
    sym::obs(d);
    let mut c = Out::written();
    T::canon(&v, &mut c);
    let a = out(|o| T::acc(d, o));
    sym::check(a.is_ok(), 10);
    if let Ok(a) = a {
        sym::check(same(&a.0, &c.0), 11);
    }
    let w = T::owned(d);
    sym::check(w.is_ok(), 12);
    if let Ok(w) = w {
        let mut o = Out::written();
        T::canon(&w, &mut o);
        sym::check(same(&o.0, &c.0), 13);
    }
}

/// The bytes to read: param 0 free bytes (param 2 zero), or a table whose vtable
/// is in place, with free field contents and param 0 free bytes behind it.
/// param 2: 1 every field present, 2 + i field i only; param 3: offsets in the
/// table point to the free bytes.
fn input<T: Tbl>() -> Vec<u8> {
    let n = sym::param(0) as usize;
    let shape = sym::param(2) as usize;
    if shape == 0 {
        return sym::bvec(n);
    }
    let pin = sym::param(3) != 0;
    let here = |f: usize| shape == 1 || shape == f + 2;
    let cells = T::SLOTS.iter().filter(|s| here(s.3)).map(|s| s.0 + 1).max().unwrap_or(0);
    let vl = 4 + 2 * cells;
    let t = (4 + vl + 3) / 4 * 4;
    let mut d = vec![0u8; t + 4];
    d[0] = t as u8;
    d[4] = vl as u8;
    d[t] = (t - 4) as u8;
    let mut offs = Vec::new();
    for s in T::SLOTS.iter().filter(|s| here(s.3)) {
        while (d.len() - t) % s.2 != 0 {
            d.push(0)
        }
        let p = d.len();
        d[8 + 2 * s.0] = (p - t) as u8;
        let mut b = vec![0; s.1];
        if pin && s.4 { offs.push(p) } else { sym::fill(&mut b) }
        d.extend_from_slice(&b);
    }
    while d.len() % 4 != 0 {
        d.push(0)
    }
    d[6] = (d.len() - t) as u8;
    let e = d.len();
    for (i, p) in offs.iter().enumerate() {
        // the two vectors of a union vector lie behind each other
        d[*p] = (e + 8 * i - p) as u8;
    }
    d.extend_from_slice(&sym::bvec(n));
    d
}

/// param 0: length. Arbitrary bytes: no panic, whatever is read.
pub fn any<T: Tbl>() {
    let d = input::<T>();
    let a = out(|o| T::acc(&d, o));
    sym::obs(&[a.is_ok() as u8]);
    if let Ok(a) = &a {
        sym::obs(&a.0);
    }
    if sym::param(1) != 0 {
        let _ = T::owned(&d);
    }
}

/// param 0: length. Arbitrary bytes: every field is what the reference says, and
/// an error exactly where the reference finds one.
pub fn agree<T: Tbl>() {
    let d = input::<T>();
    let r = T::fields(&d, sym::param(1), &mut |want, got, back| {
        if back && want.is_ok() {
            // known finding: such tables are refused
            sym::check(got.is_ok(), 23);
        } else {
            sym::check(want.is_ok() == got.is_ok(), 21);
        }
        if let (Ok(a), Ok(b)) = (want, got) {
            sym::obs(&b.0);
            sym::check(same(&a.0, &b.0), if back { 23 } else { 22 });
        }
    });
    sym::check(r, 20);
}

/// param 0: length. The owned conversion succeeds exactly when every accessor it
/// needs does, with the same content.
pub fn conv<T: Tbl>() {
    let d = input::<T>();
    let b = B::plain(&d);
    let a = out(|o| {
        let p = b.off(0)?;
        T::refr(&b, p, o)
    });
    let back = b.back.get();
    let w = T::owned(&d);
    // a failing vector element is a 0 mark in the dump, and fails the conversion
    match (a, w) {
        (Ok(a), Ok(w)) => {
            let mut o = Out::new();
            T::canon(&w, &mut o);
            sym::obs(&o.0);
            sym::check(same(&a.0, &o.0), 31);
        }
        (Ok(a), Err(())) => sym::check(a.1, if back { 34 } else { 32 }),
        (Err(()), w) => sym::check(w.is_err(), 33),
    }
}

/// params: 0 form, 1 largest prefix. A table left at its defaults.
pub fn dflt<T: Tbl>() {
    let form = sym::param(0) as usize;
    let k = sym::pick(sym::param(1) + 1);
    // the smallest table there is: an empty vtable
    let d0 = [8, 0, 0, 0, 4, 0, 4, 0, 4, 0, 0, 0];
    let b0 = B::plain(&d0);
    let want = out(|o| T::refr(&b0, 8, o)).unwrap_or(Out::new());
    let mut o = Out::new();
    T::canon(&T::dflt(), &mut o);
    sym::check(same(&o.0, &want.0), 50);
    let a = out(|o| T::acc(&d0, o));
    sym::check(matches!(&a, Ok(a) if same(&a.0, &want.0)), 51);
    let w = T::owned(&d0);
    sym::check(matches!(&w, Ok(w) if *w == T::dflt()), 51);
    let mut bl = Builder::new();
    prefix(&mut bl, k);
    T::dwrite(form, &mut bl);
    let d = bl.as_slice();
    sym::obs(d);
    let b = B::strict(d);
    if k > 0 {
        b.mark(d.len() - k, k, 1);
    }
    let r = b.off(0).and_then(|p| b.tab(0, p).map(|t| (p, t)));
    sym::check(matches!(&r, Ok((_, t)) if t.vtlen == 4 && t.tlen == 4), 52);
    let b = B::strict(d);
    if k > 0 {
        b.mark(d.len() - k, k, 1);
    }
    let r = out(|o| b.off(0).and_then(|p| T::refr(&b, p, o)));
    sym::check(matches!(&r, Ok(a) if same(&a.0, &want.0)), 53);
    sym::check(b.is_ok() && b.padding_zero(), 53);
}

/// Parameters as for `agree`: errors name the accessor, the place and the cause.
pub fn err<T: Tbl>() {
    let d = input::<T>();
    T::errs(&d, sym::param(1));
    sym::obs(&[1]);
}
