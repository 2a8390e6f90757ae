// The part of hashbrown that indexmap and string-interner use, as a list that is
// searched by equality alone: what a hash table does, whatever the hashes are.
// Keys may so stay symbolic.
extern crate alloc;
use alloc::vec::Vec;

pub enum TryReserveError {
    CapacityOverflow,
    AllocError { layout: core::alloc::Layout },
}

pub mod hash_table {
    use super::*;
    #[derive(Clone)]
    pub struct HashTable<T>(pub(crate) Vec<T>);
    impl<T> Default for HashTable<T> {
        fn default() -> Self {
            HashTable(Vec::new())
        }
    }
    impl<T> HashTable<T> {
        pub const fn new() -> Self {
            HashTable(Vec::new())
        }
        pub fn with_capacity(n: usize) -> Self {
            HashTable(Vec::with_capacity(n))
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn capacity(&self) -> usize {
            self.0.capacity()
        }
        pub fn clear(&mut self) {
            self.0.clear()
        }
        pub fn reserve(&mut self, n: usize, _: impl Fn(&T) -> u64) {
            self.0.reserve(n)
        }
        pub fn try_reserve(&mut self, n: usize, _: impl Fn(&T) -> u64) -> Result<(), TryReserveError> {
            self.0.reserve(n);
            Ok(())
        }
        pub fn shrink_to(&mut self, n: usize, _: impl Fn(&T) -> u64) {
            self.0.shrink_to(n)
        }
        pub fn find(&self, _: u64, mut eq: impl FnMut(&T) -> bool) -> Option<&T> {
            self.0.iter().find(|e| eq(e))
        }
        pub fn find_mut(&mut self, _: u64, mut eq: impl FnMut(&T) -> bool) -> Option<&mut T> {
            self.0.iter_mut().find(|e| eq(e))
        }
        pub fn find_bucket_index(&self, _: u64, mut eq: impl FnMut(&T) -> bool) -> Option<usize> {
            self.0.iter().position(|e| eq(e))
        }
        pub fn get_bucket(&self, i: usize) -> Option<&T> {
            self.0.get(i)
        }
        pub fn get_bucket_mut(&mut self, i: usize) -> Option<&mut T> {
            self.0.get_mut(i)
        }
        pub fn find_entry(&mut self, h: u64, eq: impl FnMut(&T) -> bool) -> Result<OccupiedEntry<'_, T>, AbsentEntry<'_, T>> {
            match self.find_bucket_index(h, eq) {
                Some(at) => Ok(OccupiedEntry { table: self, at }),
                None => Err(AbsentEntry { table: self }),
            }
        }
        pub fn get_bucket_entry(&mut self, at: usize) -> Result<OccupiedEntry<'_, T>, AbsentEntry<'_, T>> {
            if at < self.0.len() {
                Ok(OccupiedEntry { table: self, at })
            } else {
                Err(AbsentEntry { table: self })
            }
        }
        pub fn entry(&mut self, h: u64, eq: impl FnMut(&T) -> bool, _: impl Fn(&T) -> u64) -> Entry<'_, T> {
            match self.find_bucket_index(h, eq) {
                Some(at) => Entry::Occupied(OccupiedEntry { table: self, at }),
                None => Entry::Vacant(VacantEntry { table: self }),
            }
        }
        pub fn insert_unique(&mut self, _: u64, value: T, _: impl Fn(&T) -> u64) -> OccupiedEntry<'_, T> {
            self.0.push(value);
            let at = self.0.len() - 1;
            OccupiedEntry { table: self, at }
        }
        pub fn iter(&self) -> core::slice::Iter<'_, T> {
            self.0.iter()
        }
        pub fn retain(&mut self, mut f: impl FnMut(&mut T) -> bool) {
            self.0.retain_mut(|e| f(e))
        }
        pub fn get_disjoint_mut<const N: usize>(&mut self, _: [u64; N], mut eq: impl FnMut(usize, &T) -> bool) -> [Option<&'_ mut T>; N] {
            let p = self.0.as_mut_ptr();
            core::array::from_fn(|k| {
                let i = (0..self.0.len()).find(|&i| eq(k, &self.0[i]))?;
                // each key is searched once and the found entries differ
                Some(unsafe { &mut *p.add(i) })
            })
        }
    }
    impl<'a, T> IntoIterator for &'a mut HashTable<T> {
        type Item = &'a mut T;
        type IntoIter = core::slice::IterMut<'a, T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter_mut()
        }
    }
    pub enum Entry<'a, T> {
        Occupied(OccupiedEntry<'a, T>),
        Vacant(VacantEntry<'a, T>),
    }
    pub struct OccupiedEntry<'a, T> {
        pub(crate) table: &'a mut HashTable<T>,
        pub(crate) at: usize,
    }
    pub struct VacantEntry<'a, T> {
        pub(crate) table: &'a mut HashTable<T>,
    }
    pub struct AbsentEntry<'a, T> {
        pub table: &'a mut HashTable<T>,
    }
    impl<T> core::fmt::Debug for AbsentEntry<'_, T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("AbsentEntry")
        }
    }
    impl<'a, T> OccupiedEntry<'a, T> {
        pub fn get(&self) -> &T {
            &self.table.0[self.at]
        }
        pub fn get_mut(&mut self) -> &mut T {
            &mut self.table.0[self.at]
        }
        pub fn into_mut(self) -> &'a mut T {
            &mut self.table.0[self.at]
        }
        pub fn bucket_index(&self) -> usize {
            self.at
        }
        pub fn remove(self) -> (T, VacantEntry<'a, T>) {
            let x = self.table.0.swap_remove(self.at);
            (x, VacantEntry { table: self.table })
        }
    }
    impl<'a, T> VacantEntry<'a, T> {
        pub fn insert(self, value: T) -> OccupiedEntry<'a, T> {
            self.table.0.push(value);
            let at = self.table.0.len() - 1;
            OccupiedEntry { table: self.table, at }
        }
    }
}
pub use hash_table::HashTable;

pub mod hash_map {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct HashMap<K, V, S = ()>(Vec<(K, V)>, S);
    impl<K, V, S: Default> Default for HashMap<K, V, S> {
        fn default() -> Self {
            HashMap(Vec::new(), S::default())
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
            HashMap(Vec::with_capacity(n), s)
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn raw_entry(&self) -> RawEntryBuilder<'_, K, V> {
            RawEntryBuilder(&self.0)
        }
        pub fn raw_entry_mut(&mut self) -> RawEntryBuilderMut<'_, K, V> {
            RawEntryBuilderMut(&mut self.0)
        }
    }
    pub struct RawEntryBuilder<'a, K, V>(&'a Vec<(K, V)>);
    impl<'a, K, V> RawEntryBuilder<'a, K, V> {
        pub fn from_hash(self, _: u64, mut eq: impl FnMut(&K) -> bool) -> Option<(&'a K, &'a V)> {
            self.0.iter().find(|e| eq(&e.0)).map(|e| (&e.0, &e.1))
        }
    }
    pub struct RawEntryBuilderMut<'a, K, V>(&'a mut Vec<(K, V)>);
    pub enum RawEntryMut<'a, K, V> {
        Occupied(RawOccupied<'a, K, V>),
        Vacant(RawVacant<'a, K, V>),
    }
    pub struct RawOccupied<'a, K, V>(&'a mut Vec<(K, V)>, usize);
    pub struct RawVacant<'a, K, V>(&'a mut Vec<(K, V)>);
    impl<'a, K, V> RawEntryBuilderMut<'a, K, V> {
        pub fn from_hash(self, _: u64, mut eq: impl FnMut(&K) -> bool) -> RawEntryMut<'a, K, V> {
            match self.0.iter().position(|e| eq(&e.0)) {
                Some(i) => RawEntryMut::Occupied(RawOccupied(self.0, i)),
                None => RawEntryMut::Vacant(RawVacant(self.0)),
            }
        }
    }
    impl<'a, K, V> RawOccupied<'a, K, V> {
        pub fn into_key_value(self) -> (&'a mut K, &'a mut V) {
            let e = &mut self.0[self.1];
            (&mut e.0, &mut e.1)
        }
    }
    impl<'a, K, V> RawVacant<'a, K, V> {
        pub fn insert_with_hasher(self, _: u64, k: K, v: V, _: impl Fn(&K) -> u64) -> (&'a mut K, &'a mut V) {
            self.0.push((k, v));
            let e = self.0.last_mut().unwrap();
            (&mut e.0, &mut e.1)
        }
    }
}
pub use hash_map::HashMap;

#[derive(Clone, Default, Debug)]
pub struct DefaultHashBuilder;
pub struct NoHash;
impl core::hash::Hasher for NoHash {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 {
        0
    }
}
impl core::hash::BuildHasher for DefaultHashBuilder {
    type Hasher = NoHash;
    fn build_hasher(&self) -> NoHash {
        NoHash
    }
}
