//! Symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    blk: u32,
    pc: u32,
    regs: Vec<V>,
    allocas: Vec<u32>,
    ret: u32,
    next: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<(E, Rc<Vec<u32>>)>,
    facts: Fx<E, bool>,
    known: Fx<E, u128>,
    fixed: HashSet<u32>,
    model: Rc<Vec<u8>>,
    nin: u32,
    obs: Vec<V>, // byte values
    covers: BTreeSet<u64>,
    nins: u64,
    decisions: u32,
    /// the files the harness put in place, and open descriptors (file, position) from 3 on
    files: Rc<Vec<(Vec<u8>, Rc<Vec<(u8, E)>>)>>,
    fds: Vec<(usize, usize)>,
    errno: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub check: Option<u64>,
    pub input: Vec<u8>,
}

pub enum End {
    /// path finished
    Done,
    /// assumption failed / infeasible
    Killed,
    /// property violation
    Viol(String, String, Option<u64>, Option<Rc<Vec<u8>>>),
    /// engine limitation
    Unsup(String),
    /// solver gave up
    Unknown(String),
}
type R<T> = Result<T, End>;

pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub nins: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub max_in: u32,
    pub max_depth: u32,
    pub vals_enum: u64,
}

pub struct Exec {
    pub m: Module,
    pub ex: Ex,
    pub sv: Solver,
    pub work: Vec<State>,
    gcache: Vec<Option<Rc<Obj>>>,
    undef8: E,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub seen_viol: HashSet<String>,
    /// only failures of these checks end the exploration early
    pub stop_checks: Option<HashSet<u64>>,
    pub counted: usize,
    pub problems: BTreeMap<String, u64>,
    pub covers: BTreeSet<u64>,
    pub checks_reached: BTreeMap<u64, u64>,
    pub params: Vec<u64>,
    pub witnesses: Vec<(Vec<u8>, Vec<u8>)>,
    pub max_wit: usize,
    pub max_ins: u64,
    pub dbg_hit: HashSet<u32>,
    pub max_enum: u32,
    pub mux_limit: u64,
    pub trace: bool,
    pub profile: Option<Fx<u32, u64>>,
    cur_model: Option<Rc<Vec<u8>>>,
    rng: u64,
}

impl Exec {
    pub fn new(m: Module, qt: u32) -> Self {
        let mut ex = Ex::new();
        let undef8 = ex.undef(8);
        let ng = m.globals.len();
        Exec {
            m,
            ex,
            sv: Solver::new(qt),
            work: vec![],
            gcache: vec![None; ng],
            undef8,
            st: Stats { paths: 0, killed: 0, nins: 0, forks: 0, checks: 0, checks_solver: 0, max_in: 0, max_depth: 0, vals_enum: 0 },
            viols: vec![],
            seen_viol: HashSet::new(),
            stop_checks: None,
            counted: 0,
            problems: BTreeMap::new(),
            covers: BTreeSet::new(),
            checks_reached: BTreeMap::new(),
            params: vec![],
            witnesses: vec![],
            max_wit: 64,
            max_ins: 200_000_000,
            dbg_hit: HashSet::new(),
            max_enum: 4096,
            mux_limit: 1 << 16,
            trace: false,
            profile: None,
            cur_model: None,
            rng: 0x9E3779B97F4A7C15,
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let id = match self.m.gmap.get(entry) {
            Some(GRef::F(i)) => *i,
            _ => return Err(format!("entry function {} not found", entry)),
        };
        let f = self.m.func(id, &mut self.ex);
        let regs = vec![V::C(0); f.nregs as usize];
        let st = State {
            frames: vec![Frame { f, blk: 0, pc: 0, regs, allocas: vec![], ret: NOREG, next: NOREG }],
            mem: Mem::new(self.m.globals.len() as u32),
            pc: vec![],
            facts: Default::default(),
            known: Default::default(),
            fixed: Default::default(),
            model: Rc::new(vec![]),
            nin: 0,
            obs: vec![],
            covers: Default::default(),
            nins: 0,
            decisions: 0,
            files: Default::default(),
            fds: vec![],
            errno: 0,
        };
        self.work.push(st);
        Ok(())
    }

    // ---------- values ----------
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => {
                if w > 128 {
                    let lo = self.ex.c(*k, 128);
                    self.ex.zext(lo, w)
                } else {
                    self.ex.c(*k, w)
                }
            }
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.ex.is_c(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }

    // ---------- solver helpers ----------
    fn set_model(&mut self, st: &State) {
        let same = self.cur_model.as_ref().map_or(false, |m| Rc::ptr_eq(m, &st.model));
        if !same {
            // the Rc is kept alive here, so pointer equality is a sound cache key
            self.cur_model = Some(st.model.clone());
            self.ex.new_model();
        }
    }
    fn eval(&mut self, st: &State, e: E) -> u128 {
        // the model Rc may be freed and reallocated at the same address: always use a fresh stamp when it changed
        self.set_model(st);
        self.ex.eval(e, &st.model)
    }
    fn slice(&mut self, st: &State, extra: &[E]) -> Vec<E> {
        let mut vars: HashSet<u32> = HashSet::new();
        for e in extra {
            vars.extend(self.ex.vars(*e).iter());
        }
        let mut out: Vec<E> = extra.to_vec();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, (c, vs)) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(*c);
                    vars.extend(vs.iter());
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// Is pc && cond satisfiable? Returns a model on success.
    fn sat(&mut self, st: &State, cond: E) -> R<Option<Rc<Vec<u8>>>> {
        self.sat_c(st, cond, false)
    }
    fn sat_c(&mut self, st: &State, cond: E, confirm: bool) -> R<Option<Rc<Vec<u8>>>> {
        if cond == 0 {
            return Ok(None);
        }
        if cond == 1 {
            return Ok(Some(st.model.clone()));
        }
        let q = self.slice(st, &[cond]);
        self.cur_model = None;
        match self.sv.check(&mut self.ex, q, confirm) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut n = (*st.model).clone();
                for (v, b) in m.iter() {
                    if n.len() <= *v as usize {
                        n.resize(*v as usize + 1, 0);
                    }
                    n[*v as usize] = *b;
                }
                Ok(Some(Rc::new(n)))
            }
            Res::Unknown => Err(End::Unknown("solver returned unknown".into())),
        }
    }
    fn add(&mut self, st: &mut State, c: E) {
        if c == 1 || st.facts.get(&c) == Some(&true) {
            return;
        }
        let n = self.ex.node(c);
        if n.op == Op::And && n.w == 1 {
            st.facts.insert(c, true);
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Xor && n.b == 1 {
            let i = self.ex.node(n.a);
            if i.op == Op::Or {
                st.facts.insert(c, true);
                let p = self.ex.not(i.a);
                let q = self.ex.not(i.b);
                self.add(st, p);
                self.add(st, q);
                return;
            }
        }
        let nt = self.ex.not(c);
        st.facts.insert(c, true);
        st.facts.insert(nt, false);
        if n.op == Op::Eq {
            if let Some(k) = self.ex.is_c(n.b) {
                st.known.insert(n.a, k);
                let x = self.ex.node(n.a);
                if x.op == Op::Var {
                    st.fixed.insert(x.k as u32);
                }
            }
        }
        let vs = self.ex.vars(c);
        st.pc.push((c, vs));
    }
    /// Decide a width-1 term if it is already determined on this path without a query.
    fn quick(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(k) = self.ex.is_c(c) {
            return Some(k == 1);
        }
        if let Some(b) = st.facts.get(&c) {
            return Some(*b);
        }
        if !st.fixed.is_empty() && !self.ex.has_undef(c) {
            let vs = self.ex.vars(c);
            if vs.iter().all(|v| st.fixed.contains(v)) {
                return Some(self.eval(st, c) == 1);
            }
        }
        None
    }
    fn deundef(&mut self, st: &State, c: E) -> R<E> {
        if !self.ex.has_undef(c) {
            return Ok(c);
        }
        let mut memo = Default::default();
        let base = 1_000_000;
        let a = self.subst_undef(c, base, &mut memo);
        let mut memo2 = Default::default();
        let b = self.subst_undef(c, base + 1, &mut memo2);
        let d = self.ex.eq(a, b);
        let d = self.ex.not(d);
        if d != 0 {
            // variables 1000000 / 1000001 stand for the two readings of an undefined byte
            let q = self.slice(st, &[d]);
            self.cur_model = None;
            match self.sv.check(&mut self.ex, q, false) {
                Res::Unsat => {}
                Res::Sat(m) => {
                    let mut n = (*st.model).clone();
                    for (v, b) in m.iter() {
                        if *v >= 1_000_000 {
                            continue;
                        }
                        if n.len() <= *v as usize {
                            n.resize(*v as usize + 1, 0);
                        }
                        n[*v as usize] = *b;
                    }
                    return Err(End::Viol("uninit".into(), "control flow depends on uninitialised memory".into(), None, Some(Rc::new(n))));
                }
                Res::Unknown => return Err(End::Unknown("undef".into())),
            }
        }
        let mut memo3 = Default::default();
        Ok(self.subst_undef(c, u32::MAX, &mut memo3))
    }
    fn subst_undef(&mut self, e: E, var: u32, memo: &mut Fx<E, E>) -> E {
        if !self.ex.has_undef(e) {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.ex.node(e);
        let r = match n.op {
            Op::Undef => {
                if var == u32::MAX {
                    let z = self.ex.c(0, n.w.min(128));
                    if n.w > 128 {
                        self.ex.zext(z, n.w)
                    } else {
                        z
                    }
                } else {
                    let v = self.ex.var_by_id(var);
                    if n.w <= 8 {
                        self.ex.trunc(v, n.w)
                    } else {
                        let mut r = v;
                        while self.ex.w(r) < n.w {
                            let k = (n.w - self.ex.w(r)).min(8);
                            let t = self.ex.trunc(v, k);
                            r = self.ex.concat(t, r);
                        }
                        r
                    }
                }
            }
            _ => {
                let a = self.subst_undef(n.a, var, memo);
                let b = if arity(n.op) > 1 { self.subst_undef(n.b, var, memo) } else { 0 };
                match n.op {
                    Op::Ite => {
                        let c = self.subst_undef(n.c, var, memo);
                        self.ex.ite(a, b, c)
                    }
                    Op::ZExt => self.ex.zext(a, n.w),
                    Op::SExt => self.ex.sext(a, n.w),
                    Op::Extract => self.ex.extract(a, n.k as u32 + n.w - 1, n.k as u32),
                    Op::Concat => self.ex.concat(a, b),
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.ex.cmp(n.op, a, b),
                    op => self.ex.bin(op, a, b),
                }
            }
        };
        memo.insert(e, r);
        r
    }

    /// Decide a branch; forks when both directions are feasible. The forked state re-executes
    /// the current instruction with the negated condition on its path.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.quick(st, c) {
            return Ok(b);
        }
        let c = self.deundef(st, c)?;
        if let Some(b) = self.quick(st, c) {
            return Ok(b);
        }
        let side = self.eval(st, c) == 1;
        let nc = self.ex.not(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match self.sat(st, other)? {
            None => {
                // implied: remember without adding to the path condition
                st.facts.insert(mine, true);
                st.facts.insert(other, false);
                Ok(side)
            }
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                self.add(&mut o, other);
                o.decisions += 1;
                self.work.push(o);
                self.st.forks += 1;
                self.add(st, mine);
                st.decisions += 1;
                Ok(side)
            }
        }
    }
    /// Concretise a term, forking over all its feasible values.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::S(e) => *e,
            V::A(_) => panic!("conc aggregate"),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let e2 = self.deundef(st, e.min(e))?;
        let k = if !st.fixed.is_empty() && self.ex.vars(e2).iter().all(|v| st.fixed.contains(v)) {
            self.eval(st, e2)
        } else {
            let k = self.eval(st, e2);
            let kc = self.ex.c(k, w);
            let eq = self.ex.eq(e2, kc);
            let ne = self.ex.not(eq);
            match self.sat(st, ne)? {
                None => {}
                Some(m) => {
                    let mut o = st.clone();
                    o.model = m;
                    self.add(&mut o, ne);
                    o.decisions += 1;
                    self.work.push(o);
                    self.st.forks += 1;
                    self.st.vals_enum += 1;
                    self.add(st, eq);
                    st.decisions += 1;
                }
            }
            k
        };
        st.known.insert(e, k);
        Ok(k)
    }

    /// Floating-point arithmetic has no symbolic encoding here: try a few values of
    /// the operand, and report the exploration as incomplete.
    fn fconc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::S(e) => *e,
            V::A(_) => return Err(End::Unsup("vector floating-point arithmetic".into())),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let e2 = self.deundef(st, e)?;
        *self.problems.entry("floating-point operand or conversion tried with sample values only".into()).or_insert(0) += 1;
        let mine = self.eval(st, e2);
        let cands: Vec<u128> = if w == 32 { [1e-20f32, -1.5, 0.0, 16777217.0, f32::INFINITY].iter().map(|x| x.to_bits() as u128).collect() } else { [1e-20f64, -1.5, 0.0, 9007199254740993.0, f64::INFINITY].iter().map(|x| x.to_bits() as u128).collect() };
        if self.problems.values().sum::<u64>() < 200 {
            for k in cands {
                if k == mine {
                    continue;
                }
                let kc = self.ex.c(k, w);
                let eq = self.ex.eq(e2, kc);
                if let Some(m) = self.sat(st, eq)? {
                    let mut o = st.clone();
                    o.model = m;
                    self.add(&mut o, eq);
                    o.decisions += 1;
                    o.known.insert(e, k);
                    self.work.push(o);
                    self.st.forks += 1;
                }
            }
        }
        let kc = self.ex.c(mine, w);
        let eq = self.ex.eq(e2, kc);
        self.add(st, eq);
        st.known.insert(e, mine);
        Ok(mine)
    }

    // ---------- memory ----------
    fn obj<'a>(&mut self, st: &'a mut State, id: u32) -> Option<&'a Rc<Obj>> {
        if st.mem.get(id).is_none() && (id as usize) < self.gcache.len() {
            if self.gcache[id as usize].is_none() {
                let (c, ud) = self.m.global_bytes(id, &mut self.ex);
                assert!(c.len() <= 1 << GSHIFT, "global too large");
                let u8e = self.undef8;
                let s = ud.map(|u| u.iter().map(|b| if *b { u8e } else { 0 }).collect());
                self.gcache[id as usize] = Some(Rc::new(Obj { c, s, kind: Kind::Global }));
            }
            let o = self.gcache[id as usize].clone();
            st.mem.put(id, o);
        }
        st.mem.get(id)
    }
    /// Resolve an address to (object, concrete offset) or a symbolic in-bounds offset.
    fn resolve(&mut self, st: &mut State, a: &V, n: u64, what: &str) -> R<(u32, u64, Option<E>)> {
        let e = match a {
            V::C(k) => {
                let addr = *k as u64;
                let id = id_of(addr);
                let sz = id.and_then(|i| self.obj(st, i).map(|o| o.size()));
                match (id, sz) {
                    (Some(i), Some(sz)) => {
                        let off = addr - base_of(i);
                        if off.checked_add(n).map_or(true, |x| x > sz) {
                            return Err(End::Viol("oob".into(), format!("{} of {} bytes at offset {} of a {}-byte object", what, n, off, sz), None, None));
                        }
                        return Ok((i, off, None));
                    }
                    _ => return Err(End::Viol("oob".into(), format!("{} through invalid pointer {:#x}", what, addr), None, None)),
                }
            }
            V::S(e) => *e,
            V::A(_) => panic!("address aggregate"),
        };
        if let Some(k) = st.known.get(&e) {
            let k = *k;
            return self.resolve(st, &V::C(k), n, what);
        }
        let e = self.deundef(st, e)?;
        // pointer-valued ite: split on its condition
        let mut node = self.ex.node(e);
        let mut probe = e;
        loop {
            if node.op == Op::Ite {
                let c = node.a;
                let b = self.branch(st, c)?;
                let r = self.subst_ite(e, probe, b);
                let v = self.v(r);
                return self.resolve(st, &v, n, what);
            }
            if node.op == Op::Add {
                let na = self.ex.node(node.a);
                let nb = self.ex.node(node.b);
                if na.op == Op::Ite && self.ex.um(node.a) >= OBJ_BASE as u128 {
                    probe = node.a;
                    node = na;
                    continue;
                }
                if nb.op == Op::Ite && self.ex.um(node.b) >= OBJ_BASE as u128 {
                    probe = node.b;
                    node = nb;
                    continue;
                }
            }
            break;
        }
        let a0 = self.eval(st, e) as u64;
        let id = match id_of(a0) {
            Some(i) if self.obj(st, i).is_some() => i,
            _ => {
                let m = st.model.clone();
                return Err(End::Viol("oob".into(), format!("{} through wild pointer {:#x}", what, a0), None, Some(m)));
            }
        };
        let sz = self.obj(st, id).unwrap().size();
        if sz < n {
            return Err(End::Viol("oob".into(), format!("{} of {} bytes from a {}-byte object", what, n, sz), None, None));
        }
        let base = self.ex.c(base_of(id) as u128, 64);
        let off = self.ex.bin(Op::Sub, e, base);
        let lim = self.ex.c((sz - n) as u128, 64);
        let inb = self.ex.cmp(Op::Ule, off, lim);
        let oob = self.ex.not(inb);
        if self.quick(st, inb) != Some(true) {
            if let Some(m) = self.sat(st, oob)? {
                // report the out-of-bounds model; the in-bounds part continues as a fork
                let inside = self.eval(st, inb) == 1;
                if inside {
                    let mut o = st.clone();
                    self.add(&mut o, inb);
                    self.work.push(o);
                } else if let Some(m2) = self.sat(st, inb)? {
                    let mut o = st.clone();
                    o.model = m2;
                    self.add(&mut o, inb);
                    self.work.push(o);
                }
                return Err(End::Viol("oob".into(), format!("{} of {} bytes can fall outside a {}-byte object", what, n, sz), None, Some(m)));
            }
            st.facts.insert(inb, true);
        }
        if self.ex.is_c(off).is_some() {
            let k = self.ex.is_c(off).unwrap() as u64;
            return Ok((id, k, None));
        }
        Ok((id, 0, Some(off)))
    }
    fn subst_ite(&mut self, e: E, ite: E, take: bool) -> E {
        let n = self.ex.node(ite);
        let r = if take { n.b } else { n.c };
        if e == ite {
            return r;
        }
        let en = self.ex.node(e);
        let (a, b) = (self.subst_in(en.a, ite, r), self.subst_in(en.b, ite, r));
        self.ex.bin(en.op, a, b)
    }
    fn subst_in(&mut self, e: E, from: E, to: E) -> E {
        if e == from {
            return to;
        }
        let n = self.ex.node(e);
        if n.op == Op::Add {
            let a = self.subst_in(n.a, from, to);
            let b = self.subst_in(n.b, from, to);
            if a != n.a || b != n.b {
                return self.ex.bin(Op::Add, a, b);
            }
        }
        e
    }
    fn byte_e(&mut self, b: (u8, E)) -> E {
        if b.1 != 0 {
            b.1
        } else {
            self.ex.c(b.0 as u128, 8)
        }
    }
    fn mux(&mut self, off: E, bytes: &[E], bit: u32) -> E {
        // bytes indexed by the low `bit` bits of off
        if bytes.len() == 1 || bit == 0 {
            return bytes[0];
        }
        if bytes.iter().all(|b| *b == bytes[0]) {
            return bytes[0];
        }
        let half = 1usize << (bit - 1);
        if bytes.len() <= half {
            return self.mux(off, bytes, bit - 1);
        }
        let lo = self.mux(off, &bytes[..half], bit - 1);
        let hi = self.mux(off, &bytes[half..], bit - 1);
        let c = self.ex.extract(off, bit - 1, bit - 1);
        self.ex.ite(c, hi, lo)
    }
    /// Read n bytes; each as (concrete, expr).
    fn read(&mut self, st: &mut State, a: &V, n: u64) -> R<Vec<(u8, E)>> {
        let (id, off, so) = self.resolve(st, a, n, "read")?;
        let o = self.obj(st, id).unwrap().clone();
        match so {
            None => Ok((0..n).map(|i| o.get((off + i) as usize)).collect()),
            Some(so) => {
                let sz = o.size();
                if sz > self.mux_limit {
                    let k = self.conc(st, &V::S(so), 64)? as u64;
                    return Ok((0..n).map(|i| o.get((k + i) as usize)).collect());
                }
                // known alignment of the offset lets us mux over elements
                let mut tz = 0;
                while tz < 12 {
                    let b = self.ex.extract(so, tz, tz);
                    if b != 0 {
                        break;
                    }
                    tz += 1;
                }
                let stride = 1u64 << tz;
                // bound from the known maximum
                let um = self.ex.um(so).min((sz - n) as u128) as u64;
                let cnt = um / stride + 1;
                let w = self.ex.w(so);
                let idx = if tz > 0 { self.ex.extract(so, w - 1, tz) } else { so };
                let bits = 64 - (cnt - 1).leading_zeros();
                let mut r = vec![];
                for i in 0..n {
                    let mut t = vec![];
                    for k in 0..cnt {
                        let p = k * stride + i;
                        let b = o.get(p as usize);
                        t.push(self.byte_e(b));
                    }
                    let e = self.mux(idx, &t, bits);
                    match self.ex.is_c(e) {
                        Some(k) => r.push((k as u8, 0)),
                        None => r.push((0, e)),
                    }
                }
                Ok(r)
            }
        }
    }
    fn write(&mut self, st: &mut State, a: &V, bytes: &[(u8, E)]) -> R<()> {
        let n = bytes.len() as u64;
        if n == 0 {
            return Ok(());
        }
        let (id, off, so) = self.resolve(st, a, n, "write")?;
        let off = match so {
            None => off,
            Some(s) => self.conc(st, &V::S(s), 64)? as u64,
        };
        let o = st.mem.get_mut(id).unwrap();
        for (i, b) in bytes.iter().enumerate() {
            if b.1 == 0 {
                o.set_c(off as usize + i, b.0)
            } else {
                o.set_s(off as usize + i, b.1)
            }
        }
        Ok(())
    }
    fn bytes_to_scalar(&mut self, b: &[(u8, E)], w: u32) -> V {
        if b.iter().all(|x| x.1 == 0) && w <= 128 {
            let mut k = 0u128;
            for (i, x) in b.iter().enumerate() {
                k |= (x.0 as u128) << (8 * i);
            }
            return V::C(k & mask(w));
        }
        let mut r = self.byte_e(b[b.len() - 1]);
        for x in b[..b.len() - 1].iter().rev() {
            let l = self.byte_e(*x);
            r = self.ex.concat(r, l);
        }
        let r = self.ex.trunc(r, w);
        self.v(r)
    }
    fn scalar_to_bytes(&mut self, v: &V, w: u32) -> Vec<(u8, E)> {
        let n = (w + 7) / 8;
        match v {
            V::C(k) => (0..n).map(|i| (if i < 16 { (k >> (8 * i)) as u8 } else { 0 }, 0)).collect(),
            V::S(e) => {
                let x = self.ex.zext(*e, n * 8);
                (0..n)
                    .map(|i| {
                        let b = self.ex.extract(x, i * 8 + 7, i * 8);
                        match self.ex.is_c(b) {
                            Some(k) => (k as u8, 0),
                            None => (0, b),
                        }
                    })
                    .collect()
            }
            V::A(_) => panic!("scalar_to_bytes"),
        }
    }
    fn load_ty(&mut self, b: &[(u8, E)], t: Ty) -> V {
        match self.m.kind(t).clone() {
            TyK::Struct(f, _) => {
                let mut r = vec![];
                for i in 0..f.len() {
                    let (o, ft) = self.m.field_off(t, i);
                    let s = self.m.size(ft);
                    r.push(self.load_ty(&b[o as usize..(o + s) as usize], ft));
                }
                V::A(Rc::new(r))
            }
            TyK::Arr(n, et) | TyK::Vec(n, et) => {
                let s = self.m.size(et) as usize;
                let r = (0..n as usize).map(|i| self.load_ty(&b[i * s..i * s + s], et)).collect();
                V::A(Rc::new(r))
            }
            _ => {
                let w = self.m.bits(t);
                let n = ((w + 7) / 8) as usize;
                self.bytes_to_scalar(&b[..n], w)
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, a: &V, v: &V, t: Ty) -> R<()> {
        match self.m.kind(t).clone() {
            TyK::Struct(..) | TyK::Arr(..) | TyK::Vec(..) => {
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        let (o, ft) = self.m.field_off(t, i);
                        let p = self.addr_add(a, o as i64);
                        self.store_ty(st, &p, x, ft)?;
                    }
                    Ok(())
                } else {
                    panic!("store agg")
                }
            }
            _ => {
                let w = self.m.bits(t);
                let b = self.scalar_to_bytes(v, w);
                self.write(st, a, &b)
            }
        }
    }
    fn addr_add(&mut self, a: &V, k: i64) -> V {
        match a {
            V::C(x) => V::C((*x as u64).wrapping_add(k as u64) as u128),
            V::S(e) => {
                let c = self.ex.c(k as u64 as u128, 64);
                let r = self.ex.bin(Op::Add, *e, c);
                self.v(r)
            }
            _ => panic!(),
        }
    }

    // ---------- main loop ----------
    pub fn run(&mut self, max_paths: u64, deadline: Instant, max_viol: usize) {
        while let Some(st) = self.work.pop() {
            if self.st.paths >= max_paths {
                self.work.push(st);
                *self.problems.entry("path limit reached".into()).or_insert(0) += 1;
                return;
            }
            if Instant::now() > deadline {
                self.work.push(st);
                *self.problems.entry("time limit reached".into()).or_insert(0) += 1;
                return;
            }
            let mut st = st;
            let end = self.path(&mut st, deadline);
            self.st.nins += 0;
            self.st.max_in = self.st.max_in.max(st.nin);
            self.st.max_depth = self.st.max_depth.max(st.decisions);
            self.covers.extend(st.covers.iter());
            match end {
                End::Done => {
                    self.st.paths += 1;
                    self.witness(&st);
                }
                End::Killed => self.st.killed += 1,
                End::Viol(kind, msg, check, model) => {
                    self.st.paths += 1;
                    let loc = self.loc(&st);
                    let key = format!("{}|{}|{:?}", kind, loc, check);
                    let m = model.unwrap_or_else(|| st.model.clone());
                    let mut inp = (*m).clone();
                    inp.resize(st.nin as usize, 0);
                    if self.seen_viol.insert(key) {
                        if check.map_or(true, |c| self.stop_checks.as_ref().map_or(true, |s| s.contains(&c))) {
                            self.counted += 1;
                        }
                        self.viols.push(Violation { kind, msg, loc, check, input: inp });
                        if self.counted >= max_viol {
                            return;
                        }
                    }
                }
                End::Unsup(s) => {
                    self.st.paths += 1;
                    let loc = self.loc(&st);
                    *self.problems.entry(format!("unsupported: {} @ {}", s, loc)).or_insert(0) += 1;
                    if self.problems.len() > 20 {
                        return;
                    }
                }
                End::Unknown(s) => {
                    self.st.paths += 1;
                    *self.problems.entry(format!("solver: {}", s)).or_insert(0) += 1;
                    if self.problems.values().sum::<u64>() > 5 {
                        return;
                    }
                }
            }
        }
    }
    pub fn loc(&self, st: &State) -> String {
        let mut out = vec![];
        for f in st.frames.iter().rev().take(4) {
            let pc = (f.pc as usize).min(f.f.blocks[f.blk as usize].insts.len().saturating_sub(1));
            let d = f.f.blocks[f.blk as usize].dbg.get(pc).copied().unwrap_or(0);
            out.push(format!("{}:{}", f.f.name, self.m.dbg_loc(d)));
        }
        out.join(" <- ")
    }
    fn witness(&mut self, st: &State) {
        // reservoir sampling
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.witnesses.len() < self.max_wit {
            self.witnesses.len()
        } else {
            let k = (self.rng % self.st.paths) as usize;
            if k >= self.max_wit {
                return;
            }
            k
        };
        let mut inp = (*st.model).clone();
        inp.resize(st.nin as usize, 0);
        let mut obs = vec![];
        self.ex.new_model();
        self.cur_model = None;
        for v in &st.obs {
            obs.push(match v {
                V::C(k) => *k as u8,
                V::S(e) => self.ex.eval(*e, &inp) as u8,
                _ => 0,
            });
        }
        self.ex.new_model();
        if slot == self.witnesses.len() {
            self.witnesses.push((inp, obs));
        } else {
            self.witnesses[slot] = (inp, obs);
        }
    }

    fn get(&self, st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            O::C(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        if d != NOREG {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut tmp: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let (_, o) = p.ins.iter().find(|(pb, _)| *pb == from).expect("phi edge");
                let v = match o {
                    O::R(r) => fr.regs[*r as usize].clone(),
                    O::C(v) => v.clone(),
                };
                tmp.push((p.d, v));
            }
            for (d, v) in tmp {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.pc = 0;
    }

    fn path(&mut self, st: &mut State, deadline: Instant) -> End {
        let mut tick = 0u32;
        self.cur_model = None;
        self.ex.new_model();
        loop {
            tick += 1;
            if tick & 0xffff == 0 && Instant::now() > deadline {
                return End::Unknown("time limit inside a path".into());
            }
            st.nins += 1;
            self.st.nins += 1;
            if st.nins > self.max_ins {
                return End::Unsup("instruction limit on one path".into());
            }
            match self.step(st) {
                Ok(false) => {}
                Ok(true) => return End::Done,
                Err(e) => return e,
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<bool> {
        let (f, bi, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk as usize, fr.pc as usize)
        };
        let inst = &f.blocks[bi].insts[pc];
        let dbg = f.blocks[bi].dbg[pc];
        if dbg != 0 {
            self.dbg_hit.insert(dbg);
        }
        if let Some(p) = &mut self.profile {
            *p.entry(f.id).or_insert(0) += 1;
        }
        if self.trace {
            eprintln!("[{}] {}:{}.{} {:?}", st.frames.len(), f.name, f.blocks[bi].name, pc, inst);
        }
        match inst {
            Inst::Bin(op, t, a, b, d) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = self.binop(st, *op, *t, &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::ICmp(p, t, a, b, d) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match self.m.kind(*t) {
                    TyK::Vec(_, et) => {
                        let et = *et;
                        let w = self.m.bits(et);
                        let (xs, ys) = (agg(&x), agg(&y));
                        V::A(Rc::new(xs.iter().zip(ys.iter()).map(|(p1, q1)| self.icmp(*p, w, p1, q1)).collect()))
                    }
                    _ => {
                        let w = self.m.bits(*t);
                        self.icmp(*p, w, &x, &y)
                    }
                };
                self.set(st, *d, r);
            }
            Inst::FCmp(k, t, a, b, d) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let TyK::Vec(..) = self.m.kind(*t) {
                    return Err(End::Unsup("vector fcmp".into()));
                }
                let w = self.m.bits(*t);
                let r = self.fcmp(*k, w, &x, &y);
                self.set(st, *d, r);
            }
            Inst::FBin(c, t, a, b, d) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let w = match self.m.kind(*t) {
                    TyK::F32 => 32,
                    TyK::F64 => 64,
                    _ => return Err(End::Unsup("fp type".into())),
                };
                // symbolic floating-point arithmetic is concretised by enumeration only when tiny
                let (x, y) = match (&x, &y) {
                    (V::C(x), V::C(y)) => (*x, *y),
                    _ => (self.fconc(st, &x, w)?, self.fconc(st, &y, w)?),
                };
                let r = if w == 32 {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match c {
                        b'+' => p + q,
                        b'-' => p - q,
                        b'*' => p * q,
                        b'/' => p / q,
                        _ => p % q,
                    })
                    .to_bits() as u128
                } else {
                    let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match c {
                        b'+' => p + q,
                        b'-' => p - q,
                        b'*' => p * q,
                        b'/' => p / q,
                        _ => p % q,
                    })
                    .to_bits() as u128
                };
                self.set(st, *d, V::C(r));
            }
            Inst::FNeg(t, a, d) => {
                let x = self.get(st, a);
                let w = self.m.bits(*t);
                let e = self.e(&x, w);
                let k = self.ex.c(1u128 << (w - 1), w);
                let r = self.ex.bin(Op::Xor, e, k);
                let r = self.v(r);
                self.set(st, *d, r);
            }
            Inst::Cast(c, ft, tt, a, d) => {
                let x = self.get(st, a);
                let r = self.cast(st, *c, *ft, *tt, &x)?;
                self.set(st, *d, r);
            }
            Inst::Select(ct, c, t, a, b, d) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match (&cv, self.m.kind(*ct)) {
                    (V::C(k), _) => {
                        if *k & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    (V::S(e), _) => {
                        let e = *e;
                        match self.quick(st, e) {
                            Some(true) => x,
                            Some(false) => y,
                            None => self.select(st, e, *t, &x, &y)?,
                        }
                    }
                    (V::A(cs), _) => {
                        let et = match self.m.kind(*t) {
                            TyK::Vec(_, e) => *e,
                            _ => return Err(End::Unsup("vector select".into())),
                        };
                        let (xs, ys) = (agg(&x), agg(&y));
                        let mut r = vec![];
                        for (i, c) in cs.iter().enumerate() {
                            r.push(match c {
                                V::C(k) => {
                                    if *k & 1 == 1 {
                                        xs[i].clone()
                                    } else {
                                        ys[i].clone()
                                    }
                                }
                                V::S(e) => self.select(st, *e, et, &xs[i], &ys[i])?,
                                _ => panic!(),
                            })
                        }
                        V::A(Rc::new(r))
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Load(t, a, al, d) => {
                let p = self.get(st, a);
                if let V::C(k) = &p {
                    if *al > 1 && (*k as u64) % (*al as u64) != 0 {
                        return Err(End::Viol("misaligned".into(), format!("load with alignment {} from {:#x}", al, k), None, None));
                    }
                }
                let n = self.load_size(*t);
                let b = self.read(st, &p, n)?;
                let v = self.load_ty(&b, *t);
                self.set(st, *d, v);
            }
            Inst::Store(t, v, a, al) => {
                let p = self.get(st, a);
                if let V::C(k) = &p {
                    if *al > 1 && (*k as u64) % (*al as u64) != 0 {
                        return Err(End::Viol("misaligned".into(), format!("store with alignment {} to {:#x}", al, k), None, None));
                    }
                }
                let x = self.get(st, v);
                self.store_ty(st, &p, &x, *t)?;
            }
            Inst::Gep(b, off, idx, d) => {
                let base = self.get(st, b);
                let mut r = self.addr_add(&base, *off);
                for (o, w, scale) in idx {
                    let x = self.get(st, o);
                    r = match (&r, &x) {
                        (V::C(p), V::C(k)) => V::C((*p as u64).wrapping_add((sx(*k, *w) as i64).wrapping_mul(*scale) as u64) as u128),
                        _ => {
                            let pe = self.e(&r, 64);
                            let xe = self.e(&x, *w);
                            let xe = if *w < 64 { self.ex.sext(xe, 64) } else { self.ex.trunc(xe, 64) };
                            let k = self.ex.c(*scale as u64 as u128, 64);
                            let m = self.ex.bin(Op::Mul, xe, k);
                            let s = self.ex.bin(Op::Add, pe, m);
                            self.v(s)
                        }
                    };
                }
                self.set(st, *d, r);
            }
            Inst::Alloca(t, n, d) => {
                let n = self.get(st, n);
                let n = self.conc(st, &n, 64)? as u64;
                let sz = self.m.size(*t) * n;
                let u = self.undef8;
                let id = st.mem.alloc(sz, Kind::Stack, u, false);
                st.frames.last_mut().unwrap().allocas.push(id);
                self.set(st, *d, V::C(base_of(id) as u128));
            }
            Inst::Br(b) => {
                self.goto(st, *b);
                return Ok(false);
            }
            Inst::CondBr(c, a, b) => {
                let cv = self.get(st, c);
                let t = match cv {
                    V::C(k) => k & 1 == 1,
                    V::S(e) => self.branch(st, e)?,
                    _ => panic!(),
                };
                self.goto(st, if t { *a } else { *b });
                return Ok(false);
            }
            Inst::Switch(t, v, df, cs) => {
                let x = self.get(st, v);
                let w = self.m.bits(*t);
                let target = match x {
                    V::C(k) => cs.iter().find(|(c, _)| *c == k).map(|c| c.1).unwrap_or(*df),
                    V::S(e) => {
                        if let Some(k) = st.known.get(&e) {
                            cs.iter().find(|(c, _)| c == k).map(|c| c.1).unwrap_or(*df)
                        } else {
                            let e = self.deundef(st, e)?;
                            // group by target; test the group of the current model first
                            let cur = self.eval(st, e);
                            let tgt = cs.iter().find(|(c, _)| *c == cur).map(|c| c.1).unwrap_or(*df);
                            let mut cond = 0;
                            if tgt == *df {
                                // default: none of the cases going elsewhere
                                for (k, b) in cs {
                                    if *b != *df {
                                        let kc = self.ex.c(*k, w);
                                        let q = self.ex.eq(e, kc);
                                        cond = self.ex.bin(Op::Or, cond, q);
                                    }
                                }
                                cond = self.ex.not(cond);
                            } else {
                                for (k, b) in cs {
                                    if *b == tgt {
                                        let kc = self.ex.c(*k, w);
                                        let q = self.ex.eq(e, kc);
                                        cond = self.ex.bin(Op::Or, cond, q);
                                    }
                                }
                            }
                            // the model satisfies cond, so `true` is the direction we keep
                            let r = self.branch(st, cond)?;
                            if !r {
                                return Err(End::Unsup("switch model mismatch".into()));
                            }
                            tgt
                        }
                    }
                    _ => panic!(),
                };
                self.goto(st, target);
                return Ok(false);
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for id in fr.allocas.iter().rev() {
                    st.mem.put(*id, None);
                    st.mem.free_stack.push(*id);
                }
                if st.frames.is_empty() {
                    return Ok(true);
                }
                if let Some(r) = r {
                    self.set(st, fr.ret, r);
                }
                if fr.next != NOREG {
                    self.goto(st, fr.next);
                } else {
                    st.frames.last_mut().unwrap().pc += 1;
                }
                return Ok(false);
            }
            Inst::Unreachable => return Err(End::Viol("unreachable".into(), "reached code marked unreachable (undefined behaviour)".into(), None, None)),
            Inst::ExtractValue(a, ix, d) => {
                let mut v = self.get(st, a);
                for i in ix {
                    let n = agg(&v)[*i as usize].clone();
                    v = n;
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(a, _, v, ix, d) => {
                let base = self.get(st, a);
                let x = self.get(st, v);
                let r = insert(&base, &x, ix);
                self.set(st, *d, r);
            }
            Inst::ExtractElem(a, i, d) => {
                let v = self.get(st, a);
                let iv = self.get(st, i);
                let k = self.conc(st, &iv, 64)? as usize;
                let r = agg(&v)[k].clone();
                self.set(st, *d, r);
            }
            Inst::InsertElem(a, v, i, d) => {
                let base = self.get(st, a);
                let x = self.get(st, v);
                let iv = self.get(st, i);
                let k = self.conc(st, &iv, 64)? as u32;
                let r = insert(&base, &x, &[k]);
                self.set(st, *d, r);
            }
            Inst::Shuffle(a, b, mk, et, d) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (xs, ys) = (agg(&x), agg(&y));
                let mut r = vec![];
                for k in mk {
                    r.push(if *k < 0 {
                        self.m.undef(*et, &mut self.ex)
                    } else if (*k as usize) < xs.len() {
                        xs[*k as usize].clone()
                    } else {
                        ys[*k as usize - xs.len()].clone()
                    });
                }
                self.set(st, *d, V::A(Rc::new(r)));
            }
            Inst::Freeze(t, v, d) => {
                let x = self.get(st, v);
                let r = self.freeze(*t, &x);
                self.set(st, *d, r);
            }
            Inst::Rmw(k, t, p, v, d) => {
                let a = self.get(st, p);
                let x = self.get(st, v);
                let n = self.load_size(*t);
                let b = self.read(st, &a, n)?;
                let old = self.load_ty(&b, *t);
                let new = match k {
                    0 => x,
                    1 => self.binop(st, Op::Add, *t, &old, &x)?,
                    2 => self.binop(st, Op::Sub, *t, &old, &x)?,
                    3 => self.binop(st, Op::And, *t, &old, &x)?,
                    4 => self.binop(st, Op::Or, *t, &old, &x)?,
                    5 => self.binop(st, Op::Xor, *t, &old, &x)?,
                    _ => return Err(End::Unsup("atomicrmw op".into())),
                };
                self.store_ty(st, &a, &new, *t)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(t, p, c, n, d) => {
                let a = self.get(st, p);
                let (cv, nv) = (self.get(st, c), self.get(st, n));
                let sz = self.load_size(*t);
                let b = self.read(st, &a, sz)?;
                let old = self.load_ty(&b, *t);
                let w = self.m.bits(*t);
                let eq = self.icmp(Pred::Eq, w, &old, &cv);
                let ok = match eq {
                    V::C(k) => k == 1,
                    V::S(e) => self.branch(st, e)?,
                    _ => panic!(),
                };
                if ok {
                    self.store_ty(st, &a, &nv, *t)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
            }
            Inst::Fence | Inst::Asm => {}
            Inst::Bad(s) => return Err(End::Unsup(format!("instruction {}", s))),
            Inst::Call { callee, rty, args, d, next, name } => {
                let argv: Vec<V> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let fid = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => {
                        let v = self.get(st, o);
                        let mut a = self.conc(st, &v, 64)? as u64;
                        if a >= FN_BASE && a < EXT_BASE {
                            a = (a - FN_BASE) / 16;
                            if a as usize >= self.m.funcs.len() {
                                return Err(End::Viol("badcall".into(), "call through invalid function pointer".into(), None, None));
                            }
                            if let Some(i) = self.m.funcs[a as usize].over {
                                let r = self.intr(st, i, *rty, args, &argv, name)?;
                                self.set(st, *d, r);
                                return self.after_call(st, *next);
                            }
                            a as u32
                        } else if a >= EXT_BASE {
                            let k = a;
                            let nm = self.m.exts.iter().find(|(_, v)| **v == k).map(|(n, _)| n.clone()).unwrap_or_default();
                            let r = match intrinsic(&nm) {
                                Some(i) => self.intr(st, i, *rty, args, &argv, name)?,
                                None => self.ext(st, &nm, &argv)?,
                            };
                            self.set(st, *d, r);
                            return self.after_call(st, *next);
                        } else {
                            return Err(End::Viol("badcall".into(), format!("call through non-function pointer {:#x}", a), None, None));
                        }
                    }
                    Callee::Intr(i) => {
                        let r = self.intr(st, *i, *rty, args, &argv, name)?;
                        self.set(st, *d, r);
                        return self.after_call(st, *next);
                    }
                    Callee::Ext(n) => {
                        let r = self.ext(st, n, &argv)?;
                        self.set(st, *d, r);
                        return self.after_call(st, *next);
                    }
                };
                let cf = self.m.func(fid, &mut self.ex);
                if st.frames.len() > 4000 {
                    return Err(End::Viol("stack".into(), "recursion deeper than 4000 frames".into(), None, None));
                }
                let mut regs = vec![V::C(0); cf.nregs as usize];
                for (p, v) in cf.params.iter().zip(argv) {
                    regs[*p as usize] = v;
                }
                st.frames.push(Frame { f: cf, blk: 0, pc: 0, regs, allocas: vec![], ret: *d, next: *next });
                return Ok(false);
            }
        }
        st.frames.last_mut().unwrap().pc += 1;
        Ok(false)
    }
    fn after_call(&mut self, st: &mut State, next: u32) -> R<bool> {
        if next != NOREG {
            self.goto(st, next);
        } else {
            st.frames.last_mut().unwrap().pc += 1;
        }
        Ok(false)
    }
    fn load_size(&self, t: Ty) -> u64 {
        match self.m.kind(t) {
            TyK::Struct(..) | TyK::Arr(..) | TyK::Vec(..) => self.m.size(t),
            _ => ((self.m.bits(t) + 7) / 8) as u64,
        }
    }
    fn freeze(&mut self, t: Ty, x: &V) -> V {
        match x {
            V::S(e) if self.ex.has_undef(*e) => {
                let mut memo = Default::default();
                let r = self.subst_undef(*e, u32::MAX, &mut memo);
                self.v(r)
            }
            V::A(vs) => {
                let vs = vs.clone();
                V::A(Rc::new(vs.iter().map(|v| self.freeze(t, v)).collect()))
            }
            v => v.clone(),
        }
    }
    fn select(&mut self, st: &mut State, c: E, t: Ty, x: &V, y: &V) -> R<V> {
        match (x, y) {
            (V::A(p), V::A(q)) => {
                let tys: Vec<Ty> = match self.m.kind(t) {
                    TyK::Struct(f, _) => f.clone(),
                    TyK::Arr(n, e) | TyK::Vec(n, e) => vec![*e; *n as usize],
                    _ => panic!(),
                };
                let mut r = vec![];
                for (i, (a, b)) in p.iter().zip(q.iter()).enumerate() {
                    r.push(self.select(st, c, tys[i], a, b)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let w = self.m.bits(t);
                let a = self.e(x, w);
                let b = self.e(y, w);
                let r = self.ex.ite(c, a, b);
                Ok(self.v(r))
            }
        }
    }
    fn binop(&mut self, st: &mut State, op: Op, t: Ty, x: &V, y: &V) -> R<V> {
        if let TyK::Vec(_, et) = self.m.kind(t) {
            let et = *et;
            let (xs, ys) = (agg(x).clone(), agg(y).clone());
            let mut r = vec![];
            for (a, b) in xs.iter().zip(ys.iter()) {
                r.push(self.binop(st, op, et, a, b)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let w = self.m.bits(t);
        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            match y {
                V::C(0) => return Err(End::Viol("divzero".into(), "division by zero".into(), None, None)),
                V::S(e) => {
                    let z = self.ex.c(0, w);
                    let q = self.ex.eq(*e, z);
                    if self.branch(st, q)? {
                        return Err(End::Viol("divzero".into(), "division by zero".into(), None, None));
                    }
                }
                _ => {}
            }
        }
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 128 {
                if let Some(r) = Ex::fold(op, w, *a, *b) {
                    return Ok(V::C(r));
                }
            }
        }
        let a = self.e(x, w);
        let b = self.e(y, w);
        let r = self.ex.bin(op, a, b);
        if w > 128 {
            let n = self.ex.node(r);
            if !matches!(n.op, Op::Concat | Op::ZExt | Op::Extract | Op::Const) {
                return Err(End::Unsup(format!("{}-bit arithmetic {:?}", w, op)));
            }
        }
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, w), sx(b, w));
            return V::C(match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
            } as u128);
        }
        let a = self.e(x, w);
        let b = self.e(y, w);
        let r = match p {
            Pred::Eq => self.ex.eq(a, b),
            Pred::Ne => {
                let t = self.ex.eq(a, b);
                self.ex.not(t)
            }
            Pred::Ugt => self.ex.cmp(Op::Ult, b, a),
            Pred::Uge => self.ex.cmp(Op::Ule, b, a),
            Pred::Ult => self.ex.cmp(Op::Ult, a, b),
            Pred::Ule => self.ex.cmp(Op::Ule, a, b),
            Pred::Sgt => self.ex.cmp(Op::Slt, b, a),
            Pred::Sge => self.ex.cmp(Op::Sle, b, a),
            Pred::Slt => self.ex.cmp(Op::Slt, a, b),
            Pred::Sle => self.ex.cmp(Op::Sle, a, b),
        };
        self.v(r)
    }
    /// IEEE comparison in bit-vector logic. k: 1 eq, 2 gt, 4 lt, 8 unordered.
    fn fcmp(&mut self, k: u8, w: u32, x: &V, y: &V) -> V {
        let a = self.e(x, w);
        let b = self.e(y, w);
        let ex = &mut self.ex;
        let absm = ex.c(mask(w - 1), w);
        let inf = if w == 32 { ex.c(0x7f80_0000, 32) } else { ex.c(0x7ff0_0000_0000_0000, 64) };
        let aa = ex.bin(Op::And, a, absm);
        let ab = ex.bin(Op::And, b, absm);
        let na = ex.cmp(Op::Ult, inf, aa);
        let nb = ex.cmp(Op::Ult, inf, ab);
        let un = ex.bin(Op::Or, na, nb);
        let z = ex.c(0, w);
        let za = ex.eq(aa, z);
        let zb = ex.eq(ab, z);
        let bz = ex.bin(Op::And, za, zb);
        let same = ex.eq(a, b);
        let eq0 = ex.bin(Op::Or, same, bz);
        let ones = ex.c(mask(w), w);
        let sb = ex.c(1u128 << (w - 1), w);
        let mut key = |ex: &mut Ex, v: E| {
            let s = ex.extract(v, w - 1, w - 1);
            let n = ex.bin(Op::Xor, v, ones);
            let p = ex.bin(Op::Or, v, sb);
            ex.ite(s, n, p)
        };
        let ka = key(ex, a);
        let kb = key(ex, b);
        let lt0 = ex.cmp(Op::Ult, ka, kb);
        let neq = ex.not(eq0);
        let lt = ex.bin(Op::And, lt0, neq);
        let ge = ex.not(lt0);
        let gt = ex.bin(Op::And, ge, neq);
        let mut ordr = 0;
        if k & 1 != 0 {
            ordr = ex.bin(Op::Or, ordr, eq0);
        }
        if k & 2 != 0 {
            ordr = ex.bin(Op::Or, ordr, gt);
        }
        if k & 4 != 0 {
            ordr = ex.bin(Op::Or, ordr, lt);
        }
        let nun = ex.not(un);
        let mut r = ex.bin(Op::And, nun, ordr);
        if k & 8 != 0 {
            r = ex.bin(Op::Or, r, un);
        }
        self.v(r)
    }
    fn cast(&mut self, st: &mut State, c: Cast, ft: Ty, tt: Ty, x: &V) -> R<V> {
        if let (TyK::Vec(_, fe), TyK::Vec(_, te)) = (self.m.kind(ft).clone(), self.m.kind(tt).clone()) {
            if c == Cast::Bit && self.m.bits(fe) != self.m.bits(te) {
                return Err(End::Unsup("vector reinterpret".into()));
            }
            let xs = agg(x).clone();
            let mut r = vec![];
            for v in xs.iter() {
                r.push(self.cast(st, c, fe, te, v)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        if c == Cast::Bit {
            if let TyK::Vec(n, fe) = self.m.kind(ft).clone() {
                // vector to scalar: element 0 is least significant
                let w = self.m.bits(fe);
                let xs = agg(x).clone();
                let mut r = self.e(&xs[n as usize - 1], w);
                for v in xs[..n as usize - 1].iter().rev() {
                    let l = self.e(v, w);
                    r = self.ex.concat(r, l);
                }
                return Ok(self.v(r));
            }
            if let TyK::Vec(n, te) = self.m.kind(tt).clone() {
                let w = self.m.bits(te);
                let fw = self.m.bits(ft);
                let e = self.e(x, fw);
                let r = (0..n as u32)
                    .map(|i| {
                        let b = self.ex.extract(e, i * w + w - 1, i * w);
                        self.v(b)
                    })
                    .collect();
                return Ok(V::A(Rc::new(r)));
            }
            return Ok(x.clone());
        }
        let (fw, tw) = (self.m.bits(ft), self.m.bits(tt));
        match c {
            Cast::Trunc | Cast::ZExt | Cast::SExt | Cast::PtrInt => {
                if let V::C(k) = x {
                    if fw <= 128 && tw <= 128 {
                        return Ok(V::C(match c {
                            Cast::SExt => (sx(*k, fw) as u128) & mask(tw),
                            _ => k & mask(tw),
                        }));
                    }
                }
                let e = self.e(x, fw);
                let r = match c {
                    Cast::SExt => self.ex.sext(e, tw),
                    _ => {
                        if tw <= fw {
                            self.ex.trunc(e, tw)
                        } else {
                            self.ex.zext(e, tw)
                        }
                    }
                };
                Ok(self.v(r))
            }
            _ => {
                let k = match x {
                    V::C(k) => *k,
                    _ => self.fconc(st, x, fw)?,
                };
                let f = |k: u128, w: u32| if w == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
                let r = match c {
                    Cast::FpTrunc => (f(k, fw) as f32).to_bits() as u128,
                    Cast::FpExt => f(k, fw).to_bits() as u128,
                    Cast::FpToUi => (f(k, fw) as u128) & mask(tw),
                    Cast::FpToSi => (f(k, fw) as i128 as u128) & mask(tw),
                    Cast::UiToFp => {
                        if tw == 32 {
                            (k as f32).to_bits() as u128
                        } else {
                            (k as f64).to_bits() as u128
                        }
                    }
                    _ => {
                        let s = sx(k, fw);
                        if tw == 32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                };
                Ok(V::C(r))
            }
        }
    }

    fn cstr(&mut self, st: &mut State, a: &V) -> R<String> {
        let mut r = vec![];
        let mut p = a.clone();
        loop {
            let b = self.read(st, &p, 1)?;
            if b[0].0 == 0 || b[0].1 != 0 {
                break;
            }
            r.push(b[0].0);
            p = self.addr_add(&p, 1);
        }
        Ok(String::from_utf8_lossy(&r).into_owned())
    }

    fn ext(&mut self, st: &mut State, n: &str, a: &[V]) -> R<V> {
        match n {
            "getrandom" => {
                let len = self.conc(st, &a[1], 64)? as u64;
                let b: Vec<(u8, E)> = (0..len).map(|i| ((i * 37 + 11) as u8, 0)).collect();
                self.write(st, &a[0], &b)?;
                Ok(V::C(len as u128))
            }
            "pthread_key_create" => {
                self.write(st, &a[0], &[(1, 0), (0, 0), (0, 0), (0, 0)])?;
                Ok(V::C(0))
            }
            "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Ok(V::C(0)),
            "pthread_getspecific" => Ok(V::C(0)),
            "getenv" => {
                let _ = self.cstr(st, &a[0])?;
                Ok(V::C(0))
            }
            "sysconf" => Ok(V::C(4096)),
            "sched_yield" | "gettid" | "pthread_self" => Ok(V::C(1)),
            "write" => Ok(a[2].clone()),
            "vh_file" => {
                let nl = self.conc(st, &a[1], 64)? as u64;
                let dl = self.conc(st, &a[3], 64)? as u64;
                let name: Vec<u8> = if nl == 0 { vec![] } else { self.read(st, &a[0], nl)?.iter().map(|b| b.0).collect() };
                let data = if dl == 0 { vec![] } else { self.read(st, &a[2], dl)? };
                let fs = Rc::make_mut(&mut st.files);
                fs.retain(|f| f.0 != name);
                fs.push((name, Rc::new(data)));
                Ok(V::C(0))
            }
            "__errno_location" => {
                if st.errno == 0 {
                    st.errno = st.mem.alloc(4, Kind::Heap, self.undef8, true);
                }
                Ok(V::C(base_of(st.errno) as u128))
            }
            "open64" | "open" => {
                // a path with symbolic bytes is decided byte by byte
                let mut p = vec![];
                let mut at = a[0].clone();
                loop {
                    let b = self.read(st, &at, 1)?[0];
                    let e = self.byte_e(b);
                    let v = self.v(e);
                    let k = self.conc(st, &v, 8)? as u8;
                    if k == 0 {
                        break;
                    }
                    p.push(k);
                    at = self.addr_add(&at, 1);
                }
                match st.files.iter().position(|f| f.0 == p) {
                    Some(i) => {
                        st.fds.push((i, 0));
                        Ok(V::C(st.fds.len() as u128 + 2))
                    }
                    None => self.fail_errno(st, 2, 32),
                }
            }
            "__xpg_strerror_r" => {
                self.write(st, &a[1], &[(b'e', 0), (b'r', 0), (b'r', 0), (0, 0)])?;
                Ok(V::C(0))
            }
            "statx" | "fstat64" | "stat64" | "lseek64" => self.fail_errno(st, 38, if n == "lseek64" { 64 } else { 32 }),
            "close" | "isatty" => Ok(V::C(0)),
            "read" => {
                let fd = self.conc(st, &a[0], 32)? as usize;
                let want = self.conc(st, &a[2], 64)? as usize;
                let Some(&(f, pos)) = fd.checked_sub(3).and_then(|i| st.fds.get(i)) else {
                    return self.fail_errno(st, 9, 64);
                };
                let d = st.files[f].1.clone();
                let k = want.min(d.len() - pos);
                self.write(st, &a[1], &d[pos..pos + k])?;
                st.fds[fd - 3].1 = pos + k;
                Ok(V::C(k as u128))
            }
            _ => Err(End::Unsup(format!("external function {}", n))),
        }
    }

    fn fail_errno(&mut self, st: &mut State, code: u8, w: u32) -> R<V> {
        let p = self.ext(st, "__errno_location", &[])?;
        self.write(st, &p, &[(code, 0), (0, 0), (0, 0), (0, 0)])?;
        Ok(V::C(mask(w)))
    }

    fn intr(&mut self, st: &mut State, i: Intr, rty: Ty, args: &[(Ty, O)], a: &[V], name: &str) -> R<V> {
        use Intr::*;
        // element-wise on vectors for the arithmetic ones
        if let TyK::Vec(n, et) = self.m.kind(rty).clone() {
            if !matches!(i, Nop | Unsupported) && a.iter().all(|x| matches!(x, V::A(_)) || matches!(x, V::C(_))) {
                let mut r = vec![];
                for k in 0..n as usize {
                    let ai: Vec<V> = a.iter().map(|x| if let V::A(v) = x { v[k].clone() } else { x.clone() }).collect();
                    let ats: Vec<(Ty, O)> = args
                        .iter()
                        .map(|(t, o)| match self.m.kind(*t) {
                            TyK::Vec(_, e) => (*e, o.clone()),
                            _ => (*t, o.clone()),
                        })
                        .collect();
                    r.push(self.intr(st, i, et, &ats, &ai, name)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        let w = |s: &Self, k: usize| s.m.bits(args[k].0);
        let c0 = V::C(0);
        match i {
            Nop => Ok(c0),
            Memcpy => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n > 0 {
                    let b = self.read(st, &a[1], n)?;
                    self.write(st, &a[0], &b)?;
                }
                Ok(a[0].clone())
            }
            Memset => {
                let n = self.conc(st, &a[2], 64)? as u64;
                let wv = w(self, 1);
                let e = self.e(&a[1], wv);
                let e = self.ex.trunc(e, 8);
                let b = match self.ex.is_c(e) {
                    Some(k) => (k as u8, 0),
                    None => (0, e),
                };
                if n > 0 {
                    self.write(st, &a[0], &vec![b; n as usize])?;
                }
                Ok(a[0].clone())
            }
            Memcmp | Bcmp => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(c0);
                }
                let x = self.read(st, &a[0], n)?;
                let y = self.read(st, &a[1], n)?;
                if i == Bcmp {
                    let mut eq = 1;
                    for k in 0..n as usize {
                        let p = self.byte_e(x[k]);
                        let q = self.byte_e(y[k]);
                        let t = self.ex.eq(p, q);
                        if t == 0 {
                            eq = 0;
                            break;
                        }
                        eq = self.ex.bin(Op::And, eq, t);
                    }
                    let ne = self.ex.not(eq);
                    let r = self.ex.zext(ne, 32);
                    return Ok(self.v(r));
                }
                let mut r = self.ex.c(0, 32);
                for k in (0..n as usize).rev() {
                    let p = self.byte_e(x[k]);
                    let q = self.byte_e(y[k]);
                    let t = self.ex.eq(p, q);
                    if t == 1 {
                        continue;
                    }
                    let lt = self.ex.cmp(Op::Ult, p, q);
                    let m1 = self.ex.c(mask(32), 32);
                    let one = self.ex.c(1, 32);
                    let d = self.ex.ite(lt, m1, one);
                    r = self.ex.ite(t, r, d);
                }
                Ok(self.v(r))
            }
            Strlen => {
                let s = self.cstr(st, &a[0])?;
                Ok(V::C(s.len() as u128))
            }
            Malloc | Calloc => {
                let mut n = self.conc(st, &a[0], 64)? as u64;
                if i == Calloc {
                    n = n.wrapping_mul(self.conc(st, &a[1], 64)? as u64);
                }
                if n >= 1 << OBJ_SHIFT {
                    return Err(End::Unsup(format!("allocation of {} bytes", n)));
                }
                let u = self.undef8;
                let id = st.mem.alloc(n, Kind::Heap, u, i == Calloc);
                Ok(V::C(base_of(id) as u128))
            }
            PosixMemalign => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n >= 1 << OBJ_SHIFT {
                    return Err(End::Unsup(format!("allocation of {} bytes", n)));
                }
                let u = self.undef8;
                let id = st.mem.alloc(n, Kind::Heap, u, false);
                let b = self.scalar_to_bytes(&V::C(base_of(id) as u128), 64);
                self.write(st, &a[0], &b)?;
                Ok(c0)
            }
            Realloc => {
                let n = self.conc(st, &a[1], 64)? as u64;
                if n >= 1 << OBJ_SHIFT {
                    return Err(End::Unsup(format!("allocation of {} bytes", n)));
                }
                let p = self.conc(st, &a[0], 64)? as u64;
                let u = self.undef8;
                let id = st.mem.alloc(n, Kind::Heap, u, false);
                if p != 0 {
                    let oid = self.heap_obj(st, p)?;
                    let old = st.mem.get(oid).unwrap().clone();
                    let k = old.size().min(n) as usize;
                    let no = st.mem.get_mut(id).unwrap();
                    for j in 0..k {
                        let (c, s) = old.get(j);
                        if s == 0 {
                            no.set_c(j, c)
                        } else {
                            no.set_s(j, s)
                        }
                    }
                    st.mem.put(oid, None);
                }
                Ok(V::C(base_of(id) as u128))
            }
            Free => {
                let p = self.conc(st, &a[0], 64)? as u64;
                if p != 0 {
                    let id = self.heap_obj(st, p)?;
                    st.mem.put(id, None);
                }
                Ok(c0)
            }
            AddO(s) | SubO(s) | MulO(s) => {
                let wd = w(self, 0);
                let (x, y) = (self.e(&a[0], wd), self.e(&a[1], wd));
                let op = match i {
                    AddO(_) => Op::Add,
                    SubO(_) => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.ex.bin(op, x, y);
                let ov = if !s && op == Op::Sub {
                    self.ex.cmp(Op::Ult, x, y)
                } else if !s && op == Op::Add {
                    // carry: r < x
                    if self.ex.um(x).checked_add(self.ex.um(y)).map_or(false, |k| k <= mask(wd)) {
                        0
                    } else {
                        self.ex.cmp(Op::Ult, r, x)
                    }
                } else {
                    let dw = if op == Op::Mul { wd * 2 } else { wd + 1 };
                    if dw > 128 && !(self.ex.is_c(x).is_some() && self.ex.is_c(y).is_some()) {
                        if op == Op::Mul && !s && wd <= 64 {
                            unreachable!()
                        }
                        if op != Op::Mul {
                            return Err(End::Unsup("128-bit signed overflow arithmetic".into()));
                        }
                    }
                    if let (Some(p), Some(q)) = (self.ex.is_c(x), self.ex.is_c(y)) {
                        let o = if s {
                            let (p, q) = (sx(p, wd), sx(q, wd));
                            let r = match op {
                                Op::Add => p.checked_add(q),
                                Op::Sub => p.checked_sub(q),
                                _ => p.checked_mul(q),
                            };
                            r.map_or(true, |r| wd < 128 && (r < -(1i128 << (wd - 1)) || r > (1i128 << (wd - 1)) - 1))
                        } else {
                            p.checked_mul(q).map_or(true, |r| r > mask(wd))
                        };
                        o as E
                    } else if dw > 128 {
                        // unsigned 128-bit multiplication by a constant: compare against max / k
                        if s || self.ex.is_c(y).map_or(true, |k| k == 0) {
                            return Err(End::Unsup("128-bit overflow multiplication".into()));
                        }
                        let k = self.ex.is_c(y).unwrap();
                        let lim = self.ex.c(mask(wd) / k, wd);
                        self.ex.cmp(Op::Ult, lim, x)
                    } else if op == Op::Mul && !s && self.ex.is_c(y).map_or(false, |k| k != 0) {
                        let k = self.ex.is_c(y).unwrap();
                        let lim = self.ex.c(mask(wd) / k, wd);
                        self.ex.cmp(Op::Ult, lim, x)
                    } else {
                        let (x2, y2) = if s { (self.ex.sext(x, dw), self.ex.sext(y, dw)) } else { (self.ex.zext(x, dw), self.ex.zext(y, dw)) };
                        let r2 = self.ex.bin(op, x2, y2);
                        let r3 = if s { self.ex.sext(r, dw) } else { self.ex.zext(r, dw) };
                        let eq = self.ex.eq(r2, r3);
                        self.ex.not(eq)
                    }
                };
                let (rv, ov) = (self.v(r), self.v(ov));
                Ok(V::A(Rc::new(vec![rv, ov])))
            }
            AddSat(false) | SubSat(false) => {
                let wd = w(self, 0);
                let (x, y) = (self.e(&a[0], wd), self.e(&a[1], wd));
                let r = if i == AddSat(false) {
                    let s = self.ex.bin(Op::Add, x, y);
                    let o = self.ex.cmp(Op::Ult, s, x);
                    let m = self.ex.c(mask(wd), wd);
                    self.ex.ite(o, m, s)
                } else {
                    let s = self.ex.bin(Op::Sub, x, y);
                    let o = self.ex.cmp(Op::Ult, x, y);
                    let z = self.ex.c(0, wd);
                    self.ex.ite(o, z, s)
                };
                Ok(self.v(r))
            }
            UMax | UMin | SMax | SMin => {
                let wd = w(self, 0);
                let (x, y) = (self.e(&a[0], wd), self.e(&a[1], wd));
                let lt = self.ex.cmp(if matches!(i, UMax | UMin) { Op::Ult } else { Op::Slt }, x, y);
                let r = if matches!(i, UMax | SMax) { self.ex.ite(lt, y, x) } else { self.ex.ite(lt, x, y) };
                Ok(self.v(r))
            }
            Abs => {
                let wd = w(self, 0);
                let x = self.e(&a[0], wd);
                let s = self.ex.extract(x, wd - 1, wd - 1);
                let z = self.ex.c(0, wd);
                let n = self.ex.bin(Op::Sub, z, x);
                let r = self.ex.ite(s, n, x);
                Ok(self.v(r))
            }
            Ctlz | Cttz | Ctpop => {
                let wd = w(self, 0);
                if let V::C(k) = &a[0] {
                    let r = match i {
                        Ctlz => {
                            if *k == 0 {
                                wd
                            } else {
                                k.leading_zeros() - (128 - wd)
                            }
                        }
                        Cttz => {
                            if *k == 0 {
                                wd
                            } else {
                                k.trailing_zeros()
                            }
                        }
                        _ => k.count_ones(),
                    };
                    return Ok(V::C(r as u128));
                }
                let x = self.e(&a[0], wd);
                let mut r;
                match i {
                    Ctlz => {
                        r = self.ex.c(wd as u128, wd);
                        for b in 0..wd {
                            let t = self.ex.extract(x, b, b);
                            let k = self.ex.c((wd - 1 - b) as u128, wd);
                            r = self.ex.ite(t, k, r);
                        }
                    }
                    Cttz => {
                        r = self.ex.c(wd as u128, wd);
                        for b in (0..wd).rev() {
                            let t = self.ex.extract(x, b, b);
                            let k = self.ex.c(b as u128, wd);
                            r = self.ex.ite(t, k, r);
                        }
                    }
                    _ => {
                        r = self.ex.c(0, wd);
                        for b in 0..wd {
                            let t = self.ex.extract(x, b, b);
                            let z = self.ex.zext(t, wd);
                            r = self.ex.bin(Op::Add, r, z);
                        }
                    }
                }
                Ok(self.v(r))
            }
            Bswap => {
                let wd = w(self, 0);
                let b = self.scalar_to_bytes(&a[0], wd);
                let r: Vec<_> = b.into_iter().rev().collect();
                Ok(self.bytes_to_scalar(&r, wd))
            }
            Bitrev => {
                let wd = w(self, 0);
                match &a[0] {
                    V::C(k) => Ok(V::C(k.reverse_bits() >> (128 - wd))),
                    _ => Err(End::Unsup("symbolic bitreverse".into())),
                }
            }
            Fshl | Fshr => {
                let wd = w(self, 0);
                let s = self.conc(st, &a[2], wd)? as u32 % wd;
                let (x, y) = (self.e(&a[0], wd), self.e(&a[1], wd));
                if s == 0 {
                    return Ok(if i == Fshl { a[0].clone() } else { a[1].clone() });
                }
                let sh = if i == Fshl { s } else { wd - s };
                // (x:y) << sh, take high word
                let h = self.ex.extract(x, wd - sh - 1, 0);
                let l = self.ex.extract(y, wd - 1, wd - sh);
                let r = self.ex.concat(h, l);
                Ok(self.v(r))
            }
            Ucmp | Scmp => {
                let wd = w(self, 0);
                let rw = self.m.bits(rty);
                let (x, y) = (self.e(&a[0], wd), self.e(&a[1], wd));
                let lt = self.ex.cmp(if i == Ucmp { Op::Ult } else { Op::Slt }, x, y);
                let eq = self.ex.eq(x, y);
                let m1 = self.ex.c(mask(rw), rw);
                let z = self.ex.c(0, rw);
                let o = self.ex.c(1, rw);
                let t = self.ex.ite(eq, z, o);
                let r = self.ex.ite(lt, m1, t);
                Ok(self.v(r))
            }
            Expect => Ok(a[0].clone()),
            IsConst => Ok(c0),
            ThreadLocal => Ok(a[0].clone()),
            Trap => Err(End::Viol("trap".into(), "llvm.trap reached".into(), None, None)),
            Panic => Err(End::Viol("panic".into(), "panic".into(), None, None)),
            Abort => Err(End::Viol("abort".into(), "abort".into(), None, None)),
            LoadRelative => {
                let off = self.e(&a[1], w(self, 1));
                let p = self.e(&a[0], 64);
                let q = self.ex.bin(Op::Add, p, off);
                let qv = self.v(q);
                let b = self.read(st, &qv, 4)?;
                let k = self.bytes_to_scalar(&b, 32);
                let ke = self.e(&k, 32);
                let ke = self.ex.sext(ke, 64);
                let r = self.ex.bin(Op::Add, p, ke);
                Ok(self.v(r))
            }
            Fabs => {
                let wd = w(self, 0);
                let x = self.e(&a[0], wd);
                let k = self.ex.c(mask(wd - 1), wd);
                let r = self.ex.bin(Op::And, x, k);
                Ok(self.v(r))
            }
            Copysign => {
                let wd = w(self, 0);
                let (x, y) = (self.e(&a[0], wd), self.e(&a[1], wd));
                let l = self.ex.extract(x, wd - 2, 0);
                let h = self.ex.extract(y, wd - 1, wd - 1);
                let r = self.ex.concat(h, l);
                Ok(self.v(r))
            }
            FRound(m) => {
                let wd = w(self, 0);
                match &a[0] {
                    V::C(k) => {
                        let f = if wd == 32 { f32::from_bits(*k as u32) as f64 } else { f64::from_bits(*k as u64) };
                        let r = match m {
                            0 => f.floor(),
                            1 => f.ceil(),
                            2 => f.trunc(),
                            3 => f.round(),
                            _ => f.round_ties_even(),
                        };
                        Ok(V::C(if wd == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
                    }
                    _ => Err(End::Unsup("symbolic float rounding".into())),
                }
            }
            PtrMask => {
                let (x, y) = (self.e(&a[0], 64), self.e(&a[1], 64));
                let r = self.ex.bin(Op::And, x, y);
                Ok(self.v(r))
            }
            VecReduceOr | VecReduceAnd | VecReduceAdd => {
                let et = match self.m.kind(args[0].0) {
                    TyK::Vec(_, e) => *e,
                    _ => panic!(),
                };
                let xs = agg(&a[0]).clone();
                let mut r = xs[0].clone();
                for x in &xs[1..] {
                    r = self.binop(
                        st,
                        match i {
                            VecReduceOr => Op::Or,
                            VecReduceAnd => Op::And,
                            _ => Op::Add,
                        },
                        et,
                        &r,
                        x,
                    )?;
                }
                Ok(r)
            }
            Pmovmskb => {
                let xs = agg(&a[0]).clone();
                let mut r: Option<E> = None;
                for x in xs.iter() {
                    let e = self.e(x, 8);
                    let b = self.ex.extract(e, 7, 7);
                    r = Some(match r {
                        None => b,
                        Some(l) => self.ex.concat(b, l),
                    });
                }
                let r = self.ex.zext(r.unwrap(), self.m.bits(rty));
                Ok(self.v(r))
            }
            // ---- harness interface ----
            SymBytes => {
                let n = self.conc(st, &a[1], 64)? as u64;
                let mut b = vec![];
                for k in 0..n {
                    let e = self.ex.var_by_id(st.nin + k as u32);
                    b.push((0, e));
                }
                st.nin += n as u32;
                self.write(st, &a[0], &b)?;
                Ok(c0)
            }
            SymAssume => {
                let wd = w(self, 0);
                let e = self.e(&a[0], wd);
                let z = self.ex.c(0, wd);
                let q = self.ex.eq(e, z);
                let c = self.ex.not(q);
                match self.quick(st, c) {
                    Some(true) => return Ok(c0),
                    Some(false) => return Err(End::Killed),
                    None => {}
                }
                let c = self.deundef(st, c)?;
                if self.eval(st, c) != 1 {
                    match self.sat(st, c)? {
                        None => return Err(End::Killed),
                        Some(m) => st.model = m,
                    }
                }
                self.add(st, c);
                Ok(c0)
            }
            SymCheck => {
                let wd = w(self, 0);
                let e = self.e(&a[0], wd);
                let z = self.ex.c(0, wd);
                let bad = self.ex.eq(e, z);
                let id = self.conc(st, &a[1], 64)? as u64;
                self.st.checks += 1;
                *self.checks_reached.entry(id).or_insert(0) += 1;
                match self.quick(st, bad) {
                    Some(false) => return Ok(c0),
                    Some(true) => return Err(End::Viol("check".into(), format!("assertion {} fails", id), Some(id), None)),
                    None => {}
                }
                let bad = self.deundef(st, bad)?;
                self.st.checks_solver += 1;
                if let Some(m) = self.sat_c(st, bad, true)? {
                    // continue on the part where it holds
                    let good = self.ex.not(bad);
                    if let Some(m2) = self.sat(st, good)? {
                        let mut o = st.clone();
                        o.model = m2;
                        self.add(&mut o, good);
                        self.work.push(o);
                    }
                    return Err(End::Viol("check".into(), format!("assertion {} fails", id), Some(id), Some(m)));
                }
                let good = self.ex.not(bad);
                st.facts.insert(good, true);
                st.facts.insert(bad, false);
                Ok(c0)
            }
            SymObs => {
                let n = self.conc(st, &a[1], 64)? as u64;
                if n > 0 {
                    let b = self.read(st, &a[0], n)?;
                    for x in b {
                        if x.1 != 0 && self.ex.has_undef(x.1) {
                            let y = self.deundef(st, x.1);
                            match y {
                                Ok(y) => {
                                    let v = self.v(y);
                                    st.obs.push(v)
                                }
                                Err(End::Viol(_, _, c, m)) => {
                                    return Err(End::Viol("uninit".into(), "output contains uninitialised memory".into(), c, m));
                                }
                                Err(e) => return Err(e),
                            }
                        } else {
                            st.obs.push(if x.1 == 0 { V::C(x.0 as u128) } else { V::S(x.1) });
                        }
                    }
                }
                Ok(c0)
            }
            SymConc => {
                let k = self.conc(st, &a[0], 64)?;
                Ok(V::C(k))
            }
            SymConcBytes => {
                let n = self.conc(st, &a[1], 64)? as u64;
                for k in 0..n {
                    let p = self.addr_add(&a[0], k as i64);
                    let b = self.read(st, &p, 1)?;
                    if b[0].1 != 0 {
                        let c = self.conc(st, &V::S(b[0].1), 8)?;
                        self.write(st, &p, &[(c as u8, 0)])?;
                    }
                }
                Ok(c0)
            }
            SymCover => {
                let k = self.conc(st, &a[0], 64)? as u64;
                st.covers.insert(k);
                Ok(c0)
            }
            SymParam => {
                let k = self.conc(st, &a[0], 64)? as usize;
                Ok(V::C(self.params.get(k).copied().unwrap_or(0) as u128))
            }
            Syscall => {
                let n = self.conc(st, &a[0], 64)? as u64;
                match n {
                    318 => {
                        let len = self.conc(st, &a[2], 64)? as u64;
                        let b: Vec<(u8, E)> = (0..len).map(|i| ((i * 37 + 11) as u8, 0)).collect();
                        self.write(st, &a[1], &b)?;
                        Ok(V::C(len as u128))
                    }
                    202 => Ok(c0),
                    332 => self.fail_errno(st, 38, 64),
                    _ => Err(End::Unsup(format!("syscall {}", n))),
                }
            }
            FMin | FMax | FToIntSat(_) => {
                let k = match (&a[0], a.get(1)) {
                    (V::C(k), None) => (*k, 0),
                    (V::C(k), Some(V::C(q))) => (*k, *q),
                    _ => return Err(End::Unsup("symbolic float op".into())),
                };
                let wd = w(self, 0);
                let f = |k: u128| if wd == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
                match i {
                    FToIntSat(s) => {
                        let rw = self.m.bits(rty);
                        let x = f(k.0);
                        let r = if s {
                            let v = x as i128;
                            let (lo, hi) = (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1);
                            (v.max(lo).min(hi) as u128) & mask(rw)
                        } else {
                            (x as u128).min(mask(rw))
                        };
                        Ok(V::C(r))
                    }
                    _ => {
                        let r = if i == FMin { f(k.0).min(f(k.1)) } else { f(k.0).max(f(k.1)) };
                        Ok(V::C(if wd == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
                    }
                }
            }
            AddSat(true) | SubSat(true) | VtblTypeTest | Unsupported => Err(End::Unsup(format!("intrinsic {}", name))),
        }
    }
    fn heap_obj(&mut self, st: &mut State, p: u64) -> R<u32> {
        match id_of(p) {
            Some(id) if base_of(id) == p && st.mem.get(id).map_or(false, |o| o.kind == Kind::Heap) => Ok(id),
            _ => Err(End::Viol("badfree".into(), format!("free/realloc of invalid pointer {:#x}", p), None, None)),
        }
    }
}

fn agg(v: &V) -> &Vec<V> {
    match v {
        V::A(a) => a,
        _ => panic!("not an aggregate"),
    }
}
fn insert(a: &V, x: &V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return x.clone();
    }
    let mut v = agg(a).clone();
    v[ix[0] as usize] = insert(&v[ix[0] as usize], x, &ix[1..]);
    V::A(Rc::new(v))
}
