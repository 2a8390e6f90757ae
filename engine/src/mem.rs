use crate::expr::*;
use crate::ir::{OBJ_BASE, OBJ_SHIFT};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Stack,
    Heap,
}

/// A memory object. `s[i] == 0` means byte i is the concrete `c[i]`.
#[derive(Clone)]
pub struct Obj {
    pub c: Vec<u8>,
    pub s: Option<Vec<E>>,
    pub kind: Kind,
}

impl Obj {
    pub fn size(&self) -> u64 {
        self.c.len() as u64
    }
    pub fn get(&self, i: usize) -> (u8, E) {
        match &self.s {
            None => (self.c[i], 0),
            Some(s) => (self.c[i], s[i]),
        }
    }
    pub fn set_c(&mut self, i: usize, v: u8) {
        self.c[i] = v;
        if let Some(s) = &mut self.s {
            s[i] = 0;
        }
    }
    pub fn set_s(&mut self, i: usize, e: E) {
        let n = self.c.len();
        let s = self.s.get_or_insert_with(|| vec![0; n]);
        s[i] = e;
    }
}

const CH: usize = 64;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u32,
    pub free_stack: Vec<u32>,
    ng: u32,
}

/// Globals lie close together, so that differences of their addresses fit 32 bits
/// (relative tables); every other object has a region of its own.
pub const GLOBALS: u32 = 8192;
pub const GSHIFT: u32 = 18;

pub fn id_of(addr: u64) -> Option<u32> {
    if addr < OBJ_BASE {
        return None;
    }
    let d = addr - OBJ_BASE;
    if d < (GLOBALS as u64) << GSHIFT {
        return Some((d >> GSHIFT) as u32);
    }
    let k = d >> OBJ_SHIFT;
    if k > u32::MAX as u64 || k < GLOBALS as u64 {
        None
    } else {
        Some(k as u32)
    }
}
pub fn base_of(id: u32) -> u64 {
    OBJ_BASE + ((id as u64) << if id < GLOBALS { GSHIFT } else { OBJ_SHIFT })
}

impl Mem {
    pub fn new(ng: u32) -> Self {
        assert!(ng <= GLOBALS, "too many globals");
        Mem { chunks: vec![], next: GLOBALS, free_stack: vec![], ng }
    }
    fn slot(&self, id: u32) -> Option<u32> {
        if id >= GLOBALS {
            Some(id - GLOBALS + self.ng)
        } else if id < self.ng {
            Some(id)
        } else {
            None
        }
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let id = self.slot(id)?;
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let id = self.slot(id)?;
        let ch = Rc::make_mut(self.chunks.get_mut(id as usize / CH)?);
        ch[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let id = self.slot(id).unwrap();
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = o;
    }
    pub fn alloc(&mut self, size: u64, kind: Kind, undef8: E, zero: bool) -> u32 {
        let id = if kind == Kind::Stack {
            match self.free_stack.pop() {
                Some(i) => i,
                None => {
                    self.next += 1;
                    self.next - 1
                }
            }
        } else {
            self.next += 1;
            self.next - 1
        };
        let n = size as usize;
        self.put(id, Some(Rc::new(Obj { c: vec![0; n], s: if zero || n == 0 { None } else { Some(vec![undef8; n]) }, kind })));
        id
    }
}
