//! The interface between a harness and the symbolic executor. Under
//! `--features native` the same functions read a recorded input instead.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u64);
        pub fn sym_obs(p: *const u8, n: usize);
        pub fn sym_conc(x: u64) -> u64;
        pub fn sym_conc_bytes(p: *mut u8, n: usize);
        pub fn sym_cover(id: u64);
        pub fn sym_param(i: u64) -> u64;
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u8>,
        pub params: Vec<u64>,
        pub failed: Vec<u64>,
    }
    pub struct Assume;
    thread_local! { pub static RUN: RefCell<Run> = RefCell::new(Run::default()); }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            for i in 0..n {
                let b = r.input.get(r.pos).copied().unwrap_or(0);
                r.pos += 1;
                *p.add(i) = b;
            }
        })
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            std::panic::panic_any(Assume)
        }
    }
    pub unsafe fn sym_check(c: bool, id: u64) {
        if !c {
            RUN.with(|r| r.borrow_mut().failed.push(id))
        }
    }
    pub unsafe fn sym_obs(p: *const u8, n: usize) {
        let s = std::slice::from_raw_parts(p, n);
        RUN.with(|r| r.borrow_mut().obs.extend_from_slice(s))
    }
    pub unsafe fn sym_conc(x: u64) -> u64 {
        x
    }
    pub unsafe fn sym_conc_bytes(_: *mut u8, _: usize) {}
    pub unsafe fn sym_cover(_: u64) {}
    pub unsafe fn sym_param(i: u64) -> u64 {
        RUN.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
}
use imp::*;

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bvec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn i8() -> i8 {
    u8() as i8
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn i16() -> i16 {
    u16() as i16
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn i64() -> i64 {
    u64() as i64
}
pub fn f32() -> f32 {
    f32::from_bits(u32())
}
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// A value below n, one execution path per value.
pub fn pick(n: u64) -> usize {
    let b = u8();
    assume((b as u64) < n);
    conc(b as u64) as usize
}
pub fn conc(x: u64) -> u64 {
    unsafe { sym_conc(x) }
}
pub fn conc_bytes(b: &mut [u8]) {
    unsafe { sym_conc_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, id: u64) {
    unsafe { sym_check(c, id) }
}
pub fn cover(id: u64) {
    unsafe { sym_cover(id) }
}
pub fn obs(b: &[u8]) {
    unsafe { sym_obs(b.as_ptr(), b.len()) }
}
pub fn obs_u64(x: u64) {
    obs(&x.to_le_bytes())
}
pub fn param(i: u64) -> u64 {
    unsafe { sym_param(i) }
}
/// Valid UTF-8 of n bytes.
pub fn string(n: usize) -> String {
    let b = bvec(n);
    match std::str::from_utf8(&b) {
        Ok(s) => s.to_owned(),
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

/// Declares the harness entry points: exported functions for the executor, and
/// the dispatch table for native replay.
#[macro_export]
macro_rules! entries {
    ($($name:ident = $path:path),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod exported { use super::*; $(#[no_mangle] pub extern "C" fn $name() { $path() })* }
        #[cfg(not(feature = "native"))]
        pub fn keep() { $(std::hint::black_box(exported::$name as *const ());)* }
        #[cfg(feature = "native")]
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $path as fn())),*];
    };
}

/// `BIN ENTRY PARAMS FILE`: each line of FILE is an input in hex. Prints per line
/// `ok|assume|panic <failed checks> <observations> <message>`.
#[cfg(feature = "native")]
pub fn replay_main(entries: &[&[(&str, fn())]]) {
    let a: Vec<String> = std::env::args().collect();
    let f = entries.iter().flat_map(|e| e.iter()).find(|e| e.0 == a[1]).expect("entry").1;
    let params: Vec<u64> = a[2].split(',').filter_map(|x| x.parse().ok()).collect();
    let hx = |s: &str| -> Vec<u8> {
        if s == "-" {
            return vec![];
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let out = |b: &[u8]| if b.is_empty() { "-".to_string() } else { b.iter().map(|x| format!("{x:02x}")).collect::<String>() };
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<imp::Assume>().is_none() {
            eprintln!("{i}");
        }
    }));
    for line in std::fs::read_to_string(&a[3]).unwrap().lines() {
        let input = hx(line.split(' ').next().unwrap());
        imp::RUN.with(|r| *r.borrow_mut() = imp::Run { input, params: params.clone(), ..Default::default() });
        let res = std::panic::catch_unwind(f);
        let (obs, failed) = imp::RUN.with(|r| (r.borrow().obs.clone(), r.borrow().failed.clone()));
        let (st, msg) = match res {
            Ok(()) => ("ok", String::new()),
            Err(p) if p.downcast_ref::<imp::Assume>().is_some() => ("assume", String::new()),
            Err(p) => (
                "panic",
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
            ),
        };
        let fl = if failed.is_empty() { "-".to_string() } else { failed.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") };
        println!("{st} {fl} {} {}", out(&obs), msg.replace('\n', " "));
    }
}
