//! SMT back end: z3 through its C API, with constraint slicing and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(Rc<Vec<(u32, u8)>>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: Vec<Option<P>>,
    bl: Vec<Option<P>>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump_dir: Option<String>,
    pub dumped: u64,
    bl_: crate::blast::Blast,
    pub sample: u64,
    pub confirmed: u64,
    pub confirm_asked: u64,
    pub unconfirmed: u64,
    pub disagree: u64,
    pub z3_decided: u64,
    pub z3_time: f64,
}

fn cs(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let ctx = Z3_mk_context(cfg);
            let lg = Z3_mk_string_symbol(ctx, cs("QF_BV").as_ptr());
            let solver = Z3_mk_solver_for_logic(ctx, lg);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, cs("timeout").as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Solver {
                ctx,
                solver,
                bv: vec![],
                bl: vec![],
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump_dir: None,
                dumped: 0,
                bl_: crate::blast::Blast::new(),
                sample: 50,
                confirmed: 0,
                confirm_asked: 0,
                unconfirmed: 0,
                disagree: 0,
                z3_decided: 0,
                z3_time: 0.0,
            }
        }
    }
    pub fn conflicts(&self) -> u64 {
        self.bl_.sat.conflicts
    }
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    fn build(&mut self, ex: &Ex, e: E) {
        let n = ex.size();
        if self.bv.len() < n {
            self.bv.resize(n, None);
            self.bl.resize(n, None);
        }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.bv[x as usize].is_some() || self.bl[x as usize].is_some() {
                continue;
            }
            let nd = ex.node(x);
            let ar = arity(nd.op);
            if !done && ar > 0 {
                st.push((x, true));
                st.push((nd.a, false));
                if ar > 1 {
                    st.push((nd.b, false));
                }
                if ar > 2 {
                    st.push((nd.c, false));
                }
                continue;
            }
            let c = self.ctx;
            unsafe {
                let isb = nd.w == 1;
                match nd.op {
                    Op::Const => {
                        if isb {
                            self.bl[x as usize] = Some(if nd.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) });
                        } else {
                            self.bv[x as usize] = Some(self.num(nd.k, nd.w));
                        }
                    }
                    Op::Var => {
                        let s = Z3_mk_string_symbol(c, cs(&format!("v{}", nd.k)).as_ptr());
                        let t = Z3_mk_const(c, s, Z3_mk_bv_sort(c, nd.w));
                        if isb {
                            let one = self.num(1, 1);
                            self.bl[x as usize] = Some(Z3_mk_eq(c, t, one));
                        } else {
                            self.bv[x as usize] = Some(t);
                        }
                    }
                    Op::Undef => {
                        let s = Z3_mk_string_symbol(c, cs(&format!("undef{}", nd.w)).as_ptr());
                        let t = Z3_mk_const(c, s, Z3_mk_bv_sort(c, nd.w));
                        if isb {
                            let one = self.num(1, 1);
                            self.bl[x as usize] = Some(Z3_mk_eq(c, t, one));
                        } else {
                            self.bv[x as usize] = Some(t);
                        }
                    }
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let aw = ex.w(nd.a);
                        let r = if aw == 1 && nd.op == Op::Eq {
                            let (a, b) = (self.gb(nd.a), self.gb(nd.b));
                            Z3_mk_eq(c, a, b)
                        } else {
                            let (a, b) = (self.gv(ex, nd.a), self.gv(ex, nd.b));
                            match nd.op {
                                Op::Eq => Z3_mk_eq(c, a, b),
                                Op::Ult => Z3_mk_bvult(c, a, b),
                                Op::Ule => Z3_mk_bvule(c, a, b),
                                Op::Slt => Z3_mk_bvslt(c, a, b),
                                _ => Z3_mk_bvsle(c, a, b),
                            }
                        };
                        self.bl[x as usize] = Some(r);
                    }
                    Op::And | Op::Or | Op::Xor if isb => {
                        let (a, b) = (self.gb(nd.a), self.gb(nd.b));
                        let ab = [a, b];
                        self.bl[x as usize] = Some(match nd.op {
                            Op::And => Z3_mk_and(c, 2, ab.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, ab.as_ptr()),
                            _ => {
                                if nd.b == 1 {
                                    Z3_mk_not(c, a)
                                } else {
                                    Z3_mk_xor(c, a, b)
                                }
                            }
                        });
                    }
                    Op::Ite => {
                        let t = self.gb(nd.a);
                        if isb {
                            let (a, b) = (self.gb(nd.b), self.gb(nd.c));
                            self.bl[x as usize] = Some(Z3_mk_ite(c, t, a, b));
                        } else {
                            let (a, b) = (self.gv(ex, nd.b), self.gv(ex, nd.c));
                            self.bv[x as usize] = Some(Z3_mk_ite(c, t, a, b));
                        }
                    }
                    _ => {
                        let a = self.gv(ex, nd.a);
                        let b = if ar > 1 { self.gv(ex, nd.b) } else { a };
                        let r = match nd.op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            Op::ZExt => Z3_mk_zero_ext(c, nd.w - ex.w(nd.a), a),
                            Op::SExt => Z3_mk_sign_ext(c, nd.w - ex.w(nd.a), a),
                            Op::Extract => Z3_mk_extract(c, nd.k as u32 + nd.w - 1, nd.k as u32, a),
                            _ => unreachable!(),
                        };
                        if isb {
                            let one = self.num(1, 1);
                            self.bl[x as usize] = Some(Z3_mk_eq(c, r, one));
                        } else {
                            self.bv[x as usize] = Some(r);
                        }
                    }
                }
            }
        }
    }
    unsafe fn num(&self, k: u128, w: u32) -> P {
        let c = self.ctx;
        if w <= 64 {
            Z3_mk_unsigned_int64(c, k as u64, Z3_mk_bv_sort(c, w))
        } else {
            let lo = Z3_mk_unsigned_int64(c, k as u64, Z3_mk_bv_sort(c, 64));
            let hi = Z3_mk_unsigned_int64(c, (k >> 64) as u64, Z3_mk_bv_sort(c, w - 64));
            Z3_mk_concat(c, hi, lo)
        }
    }
    fn gb(&self, e: E) -> P {
        self.bl[e as usize].unwrap()
    }
    unsafe fn gv(&mut self, _ex: &Ex, e: E) -> P {
        if let Some(x) = self.bv[e as usize] {
            return x;
        }
        let b = self.bl[e as usize].unwrap();
        let c = self.ctx;
        let r = Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1));
        self.bv[e as usize] = Some(r);
        r
    }
    /// Check satisfiability of the conjunction of `cons` (already sliced). The
    /// incremental bit-vector SAT solver decides; with `confirm` (and on a sample of
    /// the rest) z3 has to reach the same verdict on the same formula.
    pub fn check(&mut self, ex: &mut Ex, cons: Vec<E>, confirm: bool) -> Res {
        let mut cons = cons;
        let newest = cons.last().copied();
        cons.sort_unstable();
        cons.dedup();
        if let Some(r) = self.cache.get(&cons) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let r = match self.bl_.check(ex, &cons, newest, 200_000) {
            Some(true) => {
                let mut vs: Vec<u32> = vec![];
                for &e in &cons {
                    vs.extend(ex.vars(e).iter());
                }
                vs.sort_unstable();
                vs.dedup();
                let mut out = vec![];
                for v in vs {
                    let ve = ex.var_by_id(v);
                    out.push((v, if self.bl_.has(ve) { self.bl_.byte(ve) } else { 0 }));
                }
                // the model is checked against the formula itself
                let mut m = vec![];
                for (v, b) in &out {
                    if m.len() <= *v as usize {
                        m.resize(*v as usize + 1, 0);
                    }
                    m[*v as usize] = *b;
                }
                ex.new_model();
                for &e in &cons {
                    if !ex.has_undef(e) && ex.eval(e, &m) != 1 {
                        self.disagree += 1;
                        eprintln!("llsym: internal error: SAT model does not satisfy the formula");
                    }
                }
                ex.new_model();
                Res::Sat(Rc::new(out))
            }
            Some(false) => {
                let due = if confirm {
                    self.confirm_asked += 1;
                    // every deciding query, as long as z3 keeps up, then one in a hundred
                    self.z3_time < 2.0 + 0.15 * self.time || self.confirm_asked % 100 == 0
                } else {
                    self.unsat % self.sample == 0 && self.z3_time < 1.0 + 0.1 * self.time
                };
                if due {
                    let z0 = Instant::now();
                    self.confirmed += 1;
                    match self.z3_check(ex, &cons) {
                        Res::Unsat => {}
                        Res::Unknown => self.unconfirmed += 1,
                        Res::Sat(_) => {
                            self.disagree += 1;
                            eprintln!("llsym: internal error: z3 disagrees with an unsat verdict");
                        }
                    }
                    self.z3_time += z0.elapsed().as_secs_f64();
                }
                Res::Unsat
            }
            None => {
                let z0 = Instant::now();
                self.z3_decided += 1;
                let r = self.z3_check(ex, &cons);
                self.z3_time += z0.elapsed().as_secs_f64();
                r
            }
        };
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.cache.insert(cons, r.clone());
        r
    }
    fn z3_check(&mut self, ex: &mut Ex, cons: &[E]) -> Res {
        for &e in cons {
            self.build(ex, e);
        }
        let c = self.ctx;
        unsafe {
            Z3_solver_reset(c, self.solver);
            for &e in cons {
                Z3_solver_assert(c, self.solver, self.gb(e));
            }
            if let Some(d) = &self.dump_dir {
                if self.dumped < 40 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.solver)).to_string_lossy().into_owned();
                    let _ = std::fs::write(format!("{}/q{}.smt2", d, self.dumped), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                    self.dumped += 1;
                }
            }
            match Z3_solver_check(c, self.solver) {
                1 => {
                    let m = Z3_solver_get_model(c, self.solver);
                    Z3_model_inc_ref(c, m);
                    let mut vs: Vec<u32> = vec![];
                    for &e in cons {
                        vs.extend(ex.vars(e).iter());
                    }
                    vs.sort_unstable();
                    vs.dedup();
                    let mut out = vec![];
                    for v in vs {
                        let ve = ex.var_by_id(v);
                        self.build(ex, ve);
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(c, m, self.gv(ex, ve), true, &mut o) {
                            Z3_get_numeral_uint64(c, o, &mut val);
                        }
                        out.push((v, val as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        }
    }
}
