//! Bit-blasting of the expression DAG into the incremental SAT solver.
//! Every node is translated once; gates are structurally hashed.
use crate::expr::*;
use crate::sat::*;
use std::rc::Rc;

pub struct Blast {
    pub sat: Sat,
    bits: Vec<Option<Rc<[Lit]>>>,
    gates: Fx<(u8, Lit, Lit, Lit), Lit>,
    // inputs of the gate variables, for the cone of a query
    fanin: Vec<[Lit; 3]>,
    mark: Vec<u32>,
    stamp: u32,
}

impl Blast {
    pub fn new() -> Self {
        Blast { sat: Sat::new(), bits: vec![], gates: Default::default(), fanin: vec![[T; 3]], mark: vec![0], stamp: 0 }
    }
    fn var(&mut self, f: [Lit; 3]) -> Lit {
        let v = self.sat.new_var();
        self.fanin.push(f);
        self.mark.push(0);
        v << 1
    }
    fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == T || a == b {
            return b;
        }
        if a == F || a == b ^ 1 {
            return F;
        }
        if let Some(r) = self.gates.get(&(0, a, b, 0)) {
            return *r;
        }
        let r = self.var([a, b, T]);
        self.sat.add(&[r ^ 1, a]);
        self.sat.add(&[r ^ 1, b]);
        self.sat.add(&[r, a ^ 1, b ^ 1]);
        self.gates.insert((0, a, b, 0), r);
        r
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let neg = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let r = if a == T {
            b ^ 1
        } else if a == b {
            F
        } else if let Some(r) = self.gates.get(&(1, a, b, 0)) {
            *r
        } else {
            let r = self.var([a, b, T]);
            self.sat.add(&[r ^ 1, a, b]);
            self.sat.add(&[r ^ 1, a ^ 1, b ^ 1]);
            self.sat.add(&[r, a ^ 1, b]);
            self.sat.add(&[r, a, b ^ 1]);
            self.gates.insert((1, a, b, 0), r);
            r
        };
        r ^ neg
    }
    fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == b ^ 1 {
            return self.xor(c, b);
        }
        if a == T || a == c {
            return self.or(c, b);
        }
        if a == F || a == c ^ 1 {
            return self.and(c ^ 1, b);
        }
        if b == T || b == c ^ 1 {
            return self.or(c ^ 1, a);
        }
        if b == F || b == c {
            return self.and(c, a);
        }
        let (c, a, b) = if c & 1 == 1 { (c ^ 1, b, a) } else { (c, a, b) };
        if let Some(r) = self.gates.get(&(2, c, a, b)) {
            return *r;
        }
        let r = self.var([c, a, b]);
        self.sat.add(&[c ^ 1, r ^ 1, a]);
        self.sat.add(&[c ^ 1, r, a ^ 1]);
        self.sat.add(&[c, r ^ 1, b]);
        self.sat.add(&[c, r, b ^ 1]);
        self.sat.add(&[r ^ 1, a, b]);
        self.sat.add(&[r, a ^ 1, b ^ 1]);
        self.gates.insert((2, c, a, b), r);
        r
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        let ab = self.and(a, b);
        let o = self.or(a, b);
        let oc = self.and(o, c);
        self.or(ab, oc)
    }
    fn adder(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            c = self.maj(a[i], b[i], c);
        }
        (r, c)
    }
    fn neg(&mut self, a: &[Lit]) -> Vec<Lit> {
        let n: Vec<Lit> = a.iter().map(|l| l ^ 1).collect();
        let z = vec![F; a.len()];
        self.adder(&n, &z, T).0
    }
    fn muxv(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.mux(c, a[i], b[i])).collect()
    }
    fn ult(&mut self, a: &[Lit], b: &[Lit], eq: bool) -> Lit {
        // from the least significant bit: lt = (!a & b) | (!(a^b) & lt)
        let mut lt = if eq { T } else { F };
        for i in 0..a.len() {
            let d = self.xor(a[i], b[i]);
            lt = self.mux(d, b[i], lt);
        }
        lt
    }
    fn mul(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        // multiply by the operand with more constant bits
        let consts = |x: &[Lit]| x.iter().filter(|l| **l <= 1).count();
        let (a, b) = if consts(a) > consts(b) { (b, a) } else { (a, b) };
        let mut acc = vec![F; w];
        for i in 0..w {
            if b[i] == F {
                continue;
            }
            let mut row = vec![F; w];
            for j in 0..w - i {
                row[i + j] = self.and(a[j], b[i]);
            }
            acc = self.adder(&acc, &row, F).0;
        }
        acc
    }
    fn udivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        // restoring division; b == 0 gives quotient all ones and remainder a (SMT-LIB)
        let w = a.len();
        let mut r = vec![F; w + 1];
        let mut q = vec![F; w];
        let mut bx: Vec<Lit> = b.to_vec();
        bx.push(F);
        for i in (0..w).rev() {
            r.rotate_right(1);
            r[0] = a[i];
            let nb: Vec<Lit> = bx.iter().map(|l| l ^ 1).collect();
            let (d, ge) = self.adder(&r, &nb, T);
            q[i] = ge;
            r = self.muxv(ge, &d, &r);
        }
        r.truncate(w);
        (q, r)
    }
    fn shift(&mut self, op: Op, a: &[Lit], s: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        let fill = if op == Op::AShr { a[w - 1] } else { F };
        let mut r = a.to_vec();
        let mut big = F;
        for (k, &sb) in s.iter().enumerate() {
            if k >= 32 || (1u64 << k) >= w as u64 {
                big = self.or(big, sb);
                continue;
            }
            let d = 1usize << k;
            let mut n = vec![fill; w];
            for i in 0..w {
                let src = if op == Op::Shl { i.checked_sub(d) } else { Some(i + d).filter(|x| *x < w) };
                if let Some(j) = src {
                    n[i] = r[j];
                }
            }
            r = self.muxv(sb, &n, &r);
        }
        let z = vec![fill; w];
        self.muxv(big, &z, &r)
    }

    pub fn blast(&mut self, ex: &Ex, e: E) {
        if self.bits.len() < ex.size() {
            self.bits.resize(ex.size(), None);
        }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.bits[x as usize].is_some() {
                continue;
            }
            let n = ex.node(x);
            let ar = arity(n.op);
            if !done && ar > 0 {
                st.push((x, true));
                st.push((n.a, false));
                if ar > 1 {
                    st.push((n.b, false));
                }
                if ar > 2 {
                    st.push((n.c, false));
                }
                continue;
            }
            let g = |s: &Self, e: E| s.bits[e as usize].clone().unwrap();
            let w = n.w as usize;
            let r: Vec<Lit> = match n.op {
                Op::Const => (0..w).map(|i| if i < 128 && n.k >> i & 1 == 1 { T } else { F }).collect(),
                Op::Var | Op::Undef => (0..w).map(|_| self.var([T; 3])).collect(),
                Op::Add => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    self.adder(&a, &b, F).0
                }
                Op::Sub => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    let nb: Vec<Lit> = b.iter().map(|l| l ^ 1).collect();
                    self.adder(&a, &nb, T).0
                }
                Op::Mul => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    self.mul(&a, &b)
                }
                Op::UDiv | Op::URem => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    let (q, r) = self.udivrem(&a, &b);
                    if n.op == Op::UDiv {
                        q
                    } else {
                        r
                    }
                }
                Op::SDiv | Op::SRem => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    let (sa, sb) = (a[w - 1], b[w - 1]);
                    let (na, nb) = (self.neg(&a), self.neg(&b));
                    let ua = self.muxv(sa, &na, &a);
                    let ub = self.muxv(sb, &nb, &b);
                    let (q, r) = self.udivrem(&ua, &ub);
                    if n.op == Op::SDiv {
                        let s = self.xor(sa, sb);
                        let nq = self.neg(&q);
                        self.muxv(s, &nq, &q)
                    } else {
                        let nr = self.neg(&r);
                        self.muxv(sa, &nr, &r)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    (0..w)
                        .map(|i| match n.op {
                            Op::And => self.and(a[i], b[i]),
                            Op::Or => self.or(a[i], b[i]),
                            _ => self.xor(a[i], b[i]),
                        })
                        .collect()
                }
                Op::Shl | Op::LShr | Op::AShr => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    self.shift(n.op, &a, &b)
                }
                Op::Eq => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    let mut r = T;
                    for i in 0..a.len() {
                        let d = self.xor(a[i], b[i]);
                        r = self.and(r, d ^ 1);
                    }
                    vec![r]
                }
                Op::Ult | Op::Ule => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    vec![self.ult(&a, &b, n.op == Op::Ule)]
                }
                Op::Slt | Op::Sle => {
                    let (a, b) = (g(self, n.a), g(self, n.b));
                    let (mut a, mut b) = (a.to_vec(), b.to_vec());
                    let k = a.len() - 1;
                    a[k] ^= 1;
                    b[k] ^= 1;
                    vec![self.ult(&a, &b, n.op == Op::Sle)]
                }
                Op::Ite => {
                    let (c, a, b) = (g(self, n.a), g(self, n.b), g(self, n.c));
                    self.muxv(c[0], &a, &b)
                }
                Op::ZExt => {
                    let mut a = g(self, n.a).to_vec();
                    a.resize(w, F);
                    a
                }
                Op::SExt => {
                    let mut a = g(self, n.a).to_vec();
                    let s = a[a.len() - 1];
                    a.resize(w, s);
                    a
                }
                Op::Extract => {
                    let a = g(self, n.a);
                    a[n.k as usize..n.k as usize + w].to_vec()
                }
                Op::Concat => {
                    let (h, l) = (g(self, n.a), g(self, n.b));
                    let mut r = l.to_vec();
                    r.extend_from_slice(&h);
                    r
                }
            };
            debug_assert_eq!(r.len(), w);
            self.bits[x as usize] = Some(r.into());
        }
    }

    /// Decide the conjunction of width-1 terms.
    pub fn check(&mut self, ex: &Ex, cons: &[E], newest: Option<E>, budget: u64) -> Option<bool> {
        for &e in cons {
            self.blast(ex, e);
        }
        let mut assumps = vec![];
        // the newest conjunct last, so that consecutive queries share a prefix
        for e in cons.iter().copied().filter(|e| Some(*e) != newest).chain(newest) {
            let l = self.bits[e as usize].as_ref().unwrap()[0];
            if l == F {
                return Some(false);
            }
            if l != T {
                assumps.push(l);
            }
        }
        self.stamp += 1;
        let mut cone = vec![];
        let mut st: Vec<u32> = assumps.iter().map(|l| l >> 1).collect();
        while let Some(v) = st.pop() {
            if v == 0 || self.mark[v as usize] == self.stamp {
                continue;
            }
            self.mark[v as usize] = self.stamp;
            cone.push(v);
            for l in self.fanin[v as usize] {
                if l > 1 {
                    st.push(l >> 1);
                }
            }
        }
        self.sat.solve(&assumps, &cone, budget)
    }
    /// Value of an 8-bit variable after a satisfiable check.
    pub fn byte(&self, e: E) -> u8 {
        let b = self.bits[e as usize].as_ref().unwrap();
        let mut r = 0;
        for (i, l) in b.iter().enumerate() {
            if self.sat.value(l >> 1) != (l & 1 == 1) {
                r |= 1 << i;
            }
        }
        r
    }
    pub fn has(&self, e: E) -> bool {
        self.bits.get(e as usize).map_or(false, |b| b.is_some())
    }
}
