//! A small incremental CDCL SAT solver (two watched literals, first-UIP learning,
//! VSIDS, phase saving, Luby restarts). Queries are solved under assumptions over
//! one growing CNF; decisions are restricted to the cone of the query.
pub type Lit = u32; // var << 1 | negated

pub const T: Lit = 0; // variable 0 is fixed true
pub const F: Lit = 1;

#[derive(Clone, Copy)]
struct Watch {
    c: u32,
    blocker: Lit,
}
struct Clause {
    lits: Vec<Lit>,
    learnt: bool,
    act: f32,
    lbd: u32,
    dead: bool,
}

pub struct Sat {
    clauses: Vec<Clause>,
    watches: Vec<Vec<Watch>>,
    val: Vec<i8>, // per literal: 1 true, -1 false, 0 unset
    level: Vec<u32>,
    reason: Vec<u32>,
    phase: Vec<bool>,
    act: Vec<f64>,
    inc: f64,
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    heap: Vec<u32>,
    hpos: Vec<i32>,
    in_cone: Vec<u32>,
    stamp: u32,
    seen: Vec<bool>,
    assumed: Vec<Lit>,
    pub ok: bool,
    pub conflicts: u64,
    pub nlearnt: usize,
    max_learnt: usize,
}

const NONE: u32 = u32::MAX;

impl Sat {
    pub fn new() -> Self {
        let mut s = Sat {
            clauses: vec![],
            watches: vec![],
            val: vec![],
            level: vec![],
            reason: vec![],
            phase: vec![],
            act: vec![],
            inc: 1.0,
            trail: vec![],
            lim: vec![],
            qhead: 0,
            heap: vec![],
            hpos: vec![],
            in_cone: vec![],
            stamp: 0,
            seen: vec![],
            assumed: vec![],
            ok: true,
            conflicts: 0,
            nlearnt: 0,
            max_learnt: 20_000,
        };
        let v = s.new_var();
        debug_assert!(v == 0);
        s.enqueue(T, NONE);
        s
    }
    pub fn nvars(&self) -> usize {
        self.level.len()
    }
    pub fn new_var(&mut self) -> u32 {
        let v = self.level.len() as u32;
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        self.val.push(0);
        self.val.push(0);
        self.level.push(0);
        self.reason.push(NONE);
        self.phase.push(false);
        self.act.push(0.0);
        self.hpos.push(-1);
        self.in_cone.push(0);
        self.seen.push(false);
        v
    }
    pub fn fixed(&self, l: Lit) -> Option<bool> {
        if self.val[l as usize] != 0 && self.level[(l >> 1) as usize] == 0 {
            Some(self.val[l as usize] == 1)
        } else {
            None
        }
    }
    pub fn value(&self, v: u32) -> bool {
        self.val[(v << 1) as usize] == 1
    }
    fn enqueue(&mut self, l: Lit, r: u32) {
        self.val[l as usize] = 1;
        self.val[(l ^ 1) as usize] = -1;
        let v = (l >> 1) as usize;
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    /// Add a clause, at any level: the trail of the previous query is kept.
    pub fn add(&mut self, ls: &[Lit]) {
        let mut c: Vec<Lit> = Vec::with_capacity(ls.len());
        for &l in ls {
            let zero = self.level[(l >> 1) as usize] == 0;
            if (zero && self.val[l as usize] == 1) || c.contains(&(l ^ 1)) {
                return;
            }
            if (zero && self.val[l as usize] == -1) || c.contains(&l) {
                continue;
            }
            c.push(l);
        }
        match c.len() {
            0 => self.ok = false,
            1 => {
                self.cancel(0);
                if self.val[c[0] as usize] == 0 {
                    self.enqueue(c[0], NONE);
                }
                if self.propagate() != NONE {
                    self.ok = false;
                }
            }
            _ => {
                // watch literals that are not false, or else the last falsified ones
                let key = |s: &Self, l: Lit| if s.val[l as usize] == -1 { s.level[(l >> 1) as usize] } else { NONE };
                for k in 0..2 {
                    let mut m = k;
                    for i in k + 1..c.len() {
                        if key(self, c[i]) > key(self, c[m]) {
                            m = i;
                        }
                    }
                    c.swap(k, m);
                }
                if self.val[c[0] as usize] == -1 {
                    self.cancel(0);
                }
                let unit = self.val[c[0] as usize] == 0 && self.val[c[1] as usize] == -1;
                let f = c[0];
                let id = self.attach(c, false, 0);
                if unit {
                    self.enqueue(f, id);
                }
            }
        }
    }
    fn attach(&mut self, c: Vec<Lit>, learnt: bool, lbd: u32) -> u32 {
        let id = self.clauses.len() as u32;
        self.watches[(c[0] ^ 1) as usize].push(Watch { c: id, blocker: c[1] });
        self.watches[(c[1] ^ 1) as usize].push(Watch { c: id, blocker: c[0] });
        self.clauses.push(Clause { lits: c, learnt, act: 0.0, lbd, dead: false });
        if learnt {
            self.nlearnt += 1;
        }
        id
    }
    fn propagate(&mut self) -> u32 {
        let mut confl = NONE;
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let (mut i, mut j) = (0, 0);
            'next: while i < ws.len() {
                let w = ws[i];
                i += 1;
                if self.val[w.blocker as usize] == 1 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let c = &mut self.clauses[w.c as usize];
                if c.dead {
                    continue;
                }
                let np = p ^ 1;
                if c.lits[0] == np {
                    c.lits.swap(0, 1);
                }
                let first = c.lits[0];
                if first != w.blocker && self.val[first as usize] == 1 {
                    ws[j] = Watch { c: w.c, blocker: first };
                    j += 1;
                    continue;
                }
                for k in 2..c.lits.len() {
                    let l = c.lits[k];
                    if self.val[l as usize] != -1 {
                        c.lits.swap(1, k);
                        self.watches[(l ^ 1) as usize].push(Watch { c: w.c, blocker: first });
                        continue 'next;
                    }
                }
                ws[j] = Watch { c: w.c, blocker: first };
                j += 1;
                if self.val[first as usize] == -1 {
                    confl = w.c;
                    self.qhead = self.trail.len();
                    while i < ws.len() {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                } else {
                    self.enqueue(first, w.c);
                }
            }
            ws.truncate(j);
            // clauses may have been added to this list meanwhile (never for p itself)
            debug_assert!(self.watches[p as usize].is_empty());
            self.watches[p as usize] = ws;
            if confl != NONE {
                break;
            }
        }
        confl
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let to = self.lim[lvl];
        for k in (to..self.trail.len()).rev() {
            let l = self.trail[k];
            let v = l >> 1;
            self.phase[v as usize] = l & 1 == 0;
            self.val[l as usize] = 0;
            self.val[(l ^ 1) as usize] = 0;
            if self.in_cone[v as usize] == self.stamp && self.hpos[v as usize] < 0 {
                self.hinsert(v);
            }
        }
        self.trail.truncate(to);
        self.lim.truncate(lvl);
        self.qhead = to;
    }

    // ---- heap ----
    fn hup(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) / 2;
            let y = self.heap[p];
            if self.act[y as usize] >= self.act[x as usize] {
                break;
            }
            self.heap[i] = y;
            self.hpos[y as usize] = i as i32;
            i = p;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hdown(&mut self, mut i: usize) {
        let x = self.heap[i];
        loop {
            let mut c = 2 * i + 1;
            if c >= self.heap.len() {
                break;
            }
            if c + 1 < self.heap.len() && self.act[self.heap[c + 1] as usize] > self.act[self.heap[c] as usize] {
                c += 1;
            }
            let y = self.heap[c];
            if self.act[y as usize] <= self.act[x as usize] {
                break;
            }
            self.heap[i] = y;
            self.hpos[y as usize] = i as i32;
            i = c;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hinsert(&mut self, v: u32) {
        self.heap.push(v);
        let i = self.heap.len() - 1;
        self.hpos[v as usize] = i as i32;
        self.hup(i);
    }
    fn hpop(&mut self) -> Option<u32> {
        if self.heap.is_empty() {
            return None;
        }
        let x = self.heap[0];
        self.hpos[x as usize] = -1;
        let last = self.heap.pop().unwrap();
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.hpos[last as usize] = 0;
            self.hdown(0);
        }
        Some(x)
    }
    fn bump(&mut self, v: u32) {
        self.act[v as usize] += self.inc;
        if self.act[v as usize] > 1e100 {
            for a in &mut self.act {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.hpos[v as usize] >= 0 {
            self.hup(self.hpos[v as usize] as usize);
        }
    }

    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize, u32) {
        let mut out: Vec<Lit> = vec![0];
        let mut cnt = 0;
        let mut p: Lit = NONE;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut clear: Vec<u32> = vec![];
        loop {
            let n = self.clauses[confl as usize].lits.len();
            if self.clauses[confl as usize].learnt {
                self.clauses[confl as usize].act += 1.0;
            }
            for k in 0..n {
                let q = self.clauses[confl as usize].lits[k];
                if q == p {
                    continue;
                }
                let v = q >> 1;
                if !self.seen[v as usize] && self.level[v as usize] > 0 {
                    self.seen[v as usize] = true;
                    clear.push(v);
                    self.bump(v);
                    if self.level[v as usize] >= cur {
                        cnt += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[(self.trail[idx] >> 1) as usize] {
                    break;
                }
            }
            p = self.trail[idx];
            let v = (p >> 1) as usize;
            self.seen[v] = false;
            cnt -= 1;
            if cnt == 0 {
                break;
            }
            confl = self.reason[v];
        }
        out[0] = p ^ 1;
        // basic minimisation
        let mut k = 1;
        while k < out.len() {
            let v = (out[k] >> 1) as usize;
            let r = self.reason[v];
            let red = r != NONE
                && self.clauses[r as usize].lits.iter().all(|&l| {
                    let u = (l >> 1) as usize;
                    u == v || self.level[u] == 0 || self.seen[u]
                });
            if red {
                out.swap_remove(k);
            } else {
                k += 1;
            }
        }
        for v in clear {
            self.seen[v as usize] = false;
        }
        let mut bl = 0;
        if out.len() > 1 {
            let mut m = 1;
            for k in 2..out.len() {
                if self.level[(out[k] >> 1) as usize] > self.level[(out[m] >> 1) as usize] {
                    m = k;
                }
            }
            out.swap(1, m);
            bl = self.level[(out[1] >> 1) as usize] as usize;
        }
        let mut lv: Vec<u32> = out.iter().map(|l| self.level[(l >> 1) as usize]).collect();
        lv.sort_unstable();
        lv.dedup();
        (out, bl, lv.len() as u32)
    }
    fn reduce(&mut self) {
        let mut ids: Vec<u32> = (0..self.clauses.len() as u32)
            .filter(|&i| {
                let c = &self.clauses[i as usize];
                c.learnt && !c.dead && c.lits.len() > 2 && c.lbd > 2 && {
                    let v = (c.lits[0] >> 1) as usize;
                    !(self.val[c.lits[0] as usize] == 1 && self.reason[v] == i)
                }
            })
            .collect();
        ids.sort_by(|a, b| {
            let (x, y) = (&self.clauses[*a as usize], &self.clauses[*b as usize]);
            y.lbd.cmp(&x.lbd).then(x.act.partial_cmp(&y.act).unwrap())
        });
        for i in &ids[..ids.len() / 2] {
            let c = &mut self.clauses[*i as usize];
            c.dead = true;
            c.lits = vec![];
            self.nlearnt -= 1;
        }
        for w in &mut self.watches {
            let cl = &self.clauses;
            w.retain(|x| !cl[x.c as usize].dead);
        }
        for c in &mut self.clauses {
            c.act *= 0.5;
        }
        self.max_learnt += self.max_learnt / 10;
    }

    /// Some(true) sat (assignment readable until reset), Some(false) unsat, None budget exhausted.
    pub fn solve(&mut self, assumps: &[Lit], cone: &[u32], budget: u64) -> Option<bool> {
        if !self.ok {
            return Some(false);
        }
        // keep the levels of the assumptions shared with the previous query
        let k = self.assumed.iter().zip(assumps).take_while(|(a, b)| a == b).count();
        self.cancel(k);
        self.assumed.clear();
        self.assumed.extend_from_slice(assumps);
        self.stamp += 1;
        for k in 0..self.heap.len() {
            self.hpos[self.heap[k] as usize] = -1;
        }
        self.heap.clear();
        for &v in cone {
            self.in_cone[v as usize] = self.stamp;
            if self.hpos[v as usize] < 0 {
                self.hinsert(v);
            }
        }
        let start = self.conflicts;
        let mut restart = 0u64;
        let mut next_restart = 100;
        loop {
            let confl = self.propagate();
            if confl != NONE {
                self.conflicts += 1;
                if self.lim.is_empty() {
                    self.ok = false;
                    return Some(false);
                }
                let (c, bl, lbd) = self.analyze(confl);
                self.cancel(bl);
                if c.len() == 1 {
                    self.enqueue(c[0], NONE);
                } else {
                    let f = c[0];
                    let id = self.attach(c, true, lbd);
                    self.enqueue(f, id);
                }
                self.inc /= 0.95;
                if self.nlearnt > self.max_learnt {
                    self.reduce();
                }
                if self.conflicts - start > budget {
                    self.cancel(0);
                    return None;
                }
                continue;
            }
            if self.conflicts - start > next_restart {
                restart += 1;
                next_restart = (self.conflicts - start) + 100 * luby(restart);
                self.cancel(assumps.len());
                continue;
            }
            // assumptions first
            let mut dec = NONE;
            while self.lim.len() < assumps.len() {
                let a = assumps[self.lim.len()];
                match self.val[a as usize] {
                    1 => self.lim.push(self.trail.len()),
                    -1 => return Some(false),
                    _ => {
                        dec = a;
                        break;
                    }
                }
            }
            if dec == NONE {
                loop {
                    match self.hpop() {
                        None => return Some(true),
                        Some(v) => {
                            if self.val[(v << 1) as usize] == 0 {
                                dec = (v << 1) | (!self.phase[v as usize]) as u32;
                                break;
                            }
                        }
                    }
                }
            }
            self.lim.push(self.trail.len());
            self.enqueue(dec, NONE);
        }
    }
}

fn luby(mut i: u64) -> u64 {
    let mut k = 1u32;
    while (1u64 << k) - 1 < i + 1 {
        k += 1;
    }
    loop {
        if (1u64 << k) - 1 == i + 1 {
            return 1 << (k - 1);
        }
        i -= (1u64 << (k - 1)) - 1;
        k = 1;
        while (1u64 << k) - 1 < i + 1 {
            k += 1;
        }
    }
}
