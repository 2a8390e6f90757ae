//! The part of hashbrown planus uses, with the weakest hash a table may have:
//! keys of equal length collide, so that every comparison the real table might
//! make in some run is made here. Every insertion rehashes all entries, as a
//! growing table does.
#![no_std]
extern crate alloc;
use alloc::vec::Vec;

pub struct HashTable<T>(Vec<(u64, T)>);
impl<T> Default for HashTable<T> {
    fn default() -> Self {
        HashTable(Vec::new())
    }
}
impl<T> HashTable<T> {
    pub const fn new() -> Self {
        HashTable(Vec::new())
    }
    pub fn find(&self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<&T> {
        self.0.iter().find(|e| e.0 == hash && eq(&e.1)).map(|e| &e.1)
    }
    pub fn find_mut(&mut self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<&mut T> {
        self.0.iter_mut().find(|e| e.0 == hash && eq(&e.1)).map(|e| &mut e.1)
    }
    pub fn insert_unique(&mut self, hash: u64, value: T, hasher: impl Fn(&T) -> u64) {
        for e in &mut self.0 {
            e.0 = hasher(&e.1);
        }
        self.0.push((hash, value));
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = &T> {
        self.0.iter().map(|e| &e.1)
    }
    pub fn retain(&mut self, mut f: impl FnMut(&mut T) -> bool) {
        self.0.retain_mut(|e| f(&mut e.1))
    }
}

#[derive(Clone, Default, Debug)]
pub struct DefaultHashBuilder;
pub struct Len(u64);
impl core::hash::Hasher for Len {
    fn write(&mut self, b: &[u8]) {
        self.0 += b.len() as u64;
    }
    fn write_usize(&mut self, n: usize) {
        self.0 += 1;
        let _ = n;
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
impl core::hash::BuildHasher for DefaultHashBuilder {
    type Hasher = Len;
    fn build_hasher(&self) -> Len {
        Len(0)
    }
}
