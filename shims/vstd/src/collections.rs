//! Array-backed maps and sets with the std interface.
pub use ::std::collections::{TryReserveError, LinkedList};
pub use self::vec_deque::VecDeque;
pub use self::{
    btree_map::BTreeMap, btree_set::BTreeSet, heap::BinaryHeap, hash_map::HashMap, hash_set::HashSet,
};
use crate::/*MAPVEC*/std_vec::{IntoIter as VecIter, Vec};
use ::std::{
    borrow::Borrow,
    fmt,
    marker::PhantomData,
    ops::{Bound, Index, RangeBounds},
};

/// Room reserved by a map on its first insert; more entries than this reallocate.
pub const CAP: usize = /*MAPCAP*/8;

/// Take elements out one move at a time, not by a copy of memory.
const MOVES: bool = /*MOVES*/false;
pub(crate) fn take_at<T>(v: &mut Vec<T>, i: usize) -> T {
    if !MOVES {
        return v.remove(i);
    }
    let mut x = v.pop().unwrap();
    let mut k = v.len();
    while k > i {
        k -= 1;
        x = ::std::mem::replace(&mut v[k], x);
    }
    x
}
static mut ANY_ORDER: bool = false;
/// Let hash maps and sets iterate in an arbitrary order (a symbolic rotation, possibly reversed).
pub fn arbitrary_order(b: bool) {
    unsafe { ANY_ORDER = b }
}
fn shuffle<T>(v: &mut Vec<T>) {
    if unsafe { ANY_ORDER } && v.len() > 1 {
        // One arbitrary swap of an arbitrary pair, then maybe a reversal: reaches all orders of up
        // to 3 elements and breaks every order-dependence between 2 neighbours for more.
        let i = vk::below(v.len());
        let j = vk::below(v.len());
        v.swap(i, j);
        if vk::bool() {
            let n = v.len();
            v.swap(0, n - 1);
        }
    }
}

pub struct RandomState;
impl Default for RandomState {
    fn default() -> Self {
        RandomState
    }
}
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
}

/// The entries, in insertion order (hash) or key order (sorted).
struct Raw<K, V> {
    v: Vec<(K, V)>,
}
impl<K, V> Raw<K, V> {
    /*MAPCONST*/const fn new() -> Self {
        Raw { v: Vec::new() }
    }
    fn room(&mut self) {
        if self.v.capacity() == 0 {
            self.v.reserve_exact(CAP);
        }
    }
    #[inline]
    fn find<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.v.len() {
            if self.v[i].0.borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    /// Index of the first key not less than `k`.
    #[inline]
    fn lower<Q: Ord + ?Sized>(&self, k: &Q) -> usize
    where
        K: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.v.len() {
            if self.v[i].0.borrow() >= k {
                return i;
            }
            i += 1;
        }
        i
    }
}

macro_rules! iters {
    () => {
        #[derive(Clone)]
        pub struct Iter<'a, K, V> {
            pub(super) v: Vec<&'a (K, V)>,
            pub(super) a: usize,
            pub(super) b: usize,
        }
        impl<'a, K, V> Iterator for Iter<'a, K, V> {
            type Item = (&'a K, &'a V);
            fn next(&mut self) -> Option<Self::Item> {
                if self.a < self.b {
                    let e = self.v[self.a];
                    self.a += 1;
                    Some((&e.0, &e.1))
                } else {
                    None
                }
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.b - self.a, Some(self.b - self.a))
            }
        }
        impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
            fn next_back(&mut self) -> Option<Self::Item> {
                if self.a < self.b {
                    self.b -= 1;
                    let e = self.v[self.b];
                    Some((&e.0, &e.1))
                } else {
                    None
                }
            }
        }
        impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
        impl<K, V> ::std::iter::FusedIterator for Iter<'_, K, V> {}
        impl<K, V> ::std::fmt::Debug for Iter<'_, K, V> {
            fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) }
        }
        #[derive(Clone)]
        pub struct Keys<'a, K, V>(pub(super) Iter<'a, K, V>);
        impl<'a, K, V> Iterator for Keys<'a, K, V> {
            type Item = &'a K;
            fn next(&mut self) -> Option<&'a K> { self.0.next().map(|e| e.0) }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
        }
        impl<'a, K, V> DoubleEndedIterator for Keys<'a, K, V> {
            fn next_back(&mut self) -> Option<&'a K> { self.0.next_back().map(|e| e.0) }
        }
        impl<K, V> ExactSizeIterator for Keys<'_, K, V> {}
        #[derive(Clone)]
        pub struct Values<'a, K, V>(pub(super) Iter<'a, K, V>);
        impl<'a, K, V> Iterator for Values<'a, K, V> {
            type Item = &'a V;
            fn next(&mut self) -> Option<&'a V> { self.0.next().map(|e| e.1) }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
        }
        impl<'a, K, V> DoubleEndedIterator for Values<'a, K, V> {
            fn next_back(&mut self) -> Option<&'a V> { self.0.next_back().map(|e| e.1) }
        }
        impl<K, V> ExactSizeIterator for Values<'_, K, V> {}
        pub struct IterMut<'a, K, V>(pub(super) VecIter<&'a mut (K, V)>);
        impl<'a, K, V> Iterator for IterMut<'a, K, V> {
            type Item = (&'a K, &'a mut V);
            fn next(&mut self) -> Option<Self::Item> {
                self.0.next().map(|e| (&e.0, &mut e.1))
            }
        }
        impl<'a, K, V> DoubleEndedIterator for IterMut<'a, K, V> {
            fn next_back(&mut self) -> Option<Self::Item> {
                self.0.next_back().map(|e| (&e.0, &mut e.1))
            }
        }
        pub struct ValuesMut<'a, K, V>(pub(super) IterMut<'a, K, V>);
        impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
            type Item = &'a mut V;
            fn next(&mut self) -> Option<&'a mut V> { self.0.next().map(|e| e.1) }
        }
        pub type IntoIter<K, V> = VecIter<(K, V)>;
        pub struct IntoKeys<K, V>(pub(super) VecIter<(K, V)>);
        impl<K, V> Iterator for IntoKeys<K, V> {
            type Item = K;
            fn next(&mut self) -> Option<K> { self.0.next().map(|e| e.0) }
        }
        pub struct IntoValues<K, V>(pub(super) VecIter<(K, V)>);
        impl<K, V> Iterator for IntoValues<K, V> {
            type Item = V;
            fn next(&mut self) -> Option<V> { self.0.next().map(|e| e.1) }
        }
        pub struct Drain<'a, K, V>(
            pub(super) VecIter<(K, V)>,
            pub(super) ::std::marker::PhantomData<&'a ()>,
        );
        impl<K, V> Iterator for Drain<'_, K, V> {
            type Item = (K, V);
            fn next(&mut self) -> Option<(K, V)> { self.0.next() }
        }
    };
}
macro_rules! entries {
    ($map:ident, $bound:ident) => {
        pub enum Entry<'a, K, V> {
            Occupied(OccupiedEntry<'a, K, V>),
            Vacant(VacantEntry<'a, K, V>),
        }
        pub struct OccupiedEntry<'a, K, V> {
            pub(super) raw: &'a mut super::Raw<K, V>,
            pub(super) i: usize,
        }
        pub struct VacantEntry<'a, K, V> {
            pub(super) raw: &'a mut super::Raw<K, V>,
            pub(super) i: usize,
            pub(super) k: K,
        }
        impl<'a, K, V> OccupiedEntry<'a, K, V> {
            pub fn get(&self) -> &V { &self.raw.v[self.i].1 }
            pub fn get_mut(&mut self) -> &mut V { &mut self.raw.v[self.i].1 }
            pub fn into_mut(self) -> &'a mut V { &mut self.raw.v[self.i].1 }
            pub fn key(&self) -> &K { &self.raw.v[self.i].0 }
            pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(&mut self.raw.v[self.i].1, v) }
            pub fn remove(self) -> V { crate::collections::take_at(&mut self.raw.v, self.i).1 }
            pub fn remove_entry(self) -> (K, V) { crate::collections::take_at(&mut self.raw.v, self.i) }
        }
        impl<'a, K, V> VacantEntry<'a, K, V> {
            pub fn key(&self) -> &K { &self.k }
            pub fn into_key(self) -> K { self.k }
            pub fn insert(self, v: V) -> &'a mut V {
                self.raw.room();
                self.raw.v.insert(self.i, (self.k, v));
                &mut self.raw.v[self.i].1
            }
        }
        impl<'a, K, V> Entry<'a, K, V> {
            pub fn or_insert(self, v: V) -> &'a mut V {
                match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) }
            }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
                match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) }
            }
            pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
                match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => { let v = f(e.key()); e.insert(v) } }
            }
            pub fn or_default(self) -> &'a mut V where V: Default {
                self.or_insert_with(V::default)
            }
            pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
                if let Entry::Occupied(o) = &mut self { f(o.get_mut()) }
                self
            }
            pub fn key(&self) -> &K {
                match self { Entry::Occupied(o) => o.key(), Entry::Vacant(e) => e.key() }
            }
        }
    };
}
macro_rules! map_common {
    ($iter:expr) => {
        pub fn len(&self) -> usize { self.raw.v.len() }
        pub fn is_empty(&self) -> bool { self.raw.v.is_empty() }
        pub fn clear(&mut self) { self.raw.v.clear() }
        pub fn iter(&self) -> Iter<'_, K, V> {
            let mut v: Vec<&(K, V)> = Vec::with_capacity(super::CAP);
            let mut i = 0;
            while i < self.raw.v.len() { v.push(&self.raw.v[i]); i += 1; }
            $iter(&mut v);
            let b = v.len();
            Iter { v, a: 0, b }
        }
        pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
        pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            let mut v: Vec<&mut (K, V)> = Vec::with_capacity(super::CAP);
            for e in self.raw.v.iter_mut() { v.push(e); }
            $iter(&mut v);
            IterMut(v.into_iter())
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut(self.iter_mut()) }
        pub fn into_keys(self) -> IntoKeys<K, V> { let mut v = self.raw.v; $iter(&mut v); IntoKeys(v.into_iter()) }
        pub fn into_values(self) -> IntoValues<K, V> { let mut v = self.raw.v; $iter(&mut v); IntoValues(v.into_iter()) }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            let mut i = 0;
            while i < self.raw.v.len() {
                let keep = { let e = &mut self.raw.v[i]; f(&e.0, &mut e.1) };
                if keep { i += 1; } else { crate::collections::take_at(&mut self.raw.v, i); }
            }
        }
    };
}

pub mod hash_map {
    use super::*;
    use ::std::hash::Hash;
    pub use super::RandomState;
    /// A hash of few operations.
    #[derive(Clone, Debug, Default)]
    pub struct DefaultHasher(u64);
    impl DefaultHasher {
        pub const fn new() -> Self { DefaultHasher(0) }
    }
    impl ::std::hash::Hasher for DefaultHasher {
        fn write(&mut self, b: &[u8]) {
            let mut i = 0;
            while i < b.len() {
                self.0 = self.0.rotate_left(8) ^ b[i] as u64;
                i += 1;
            }
        }
        fn finish(&self) -> u64 { self.0 }
    }
    iters!();
    entries!(HashMap, Hash);
    pub struct HashMap<K, V, S = RandomState> {
        pub(super) raw: Raw<K, V>,
        s: PhantomData<S>,
    }
    impl<K, V> HashMap<K, V, RandomState> {
        pub fn new() -> Self { HashMap { raw: Raw::new(), s: PhantomData } }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_hasher(_: S) -> Self { HashMap { raw: Raw::new(), s: PhantomData } }
        pub fn with_capacity_and_hasher(_: usize, _: S) -> Self { HashMap { raw: Raw::new(), s: PhantomData } }
        map_common!(shuffle);
        pub fn drain(&mut self) -> Drain<'_, K, V> {
            let mut v = ::std::mem::take(&mut self.raw.v);
            shuffle(&mut v);
            Drain(v.into_iter(), PhantomData)
        }
        pub fn capacity(&self) -> usize { self.raw.v.capacity() }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn shrink_to(&mut self, _: usize) {}
        pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> VecIter<(K, V)> {
            let mut out = Vec::with_capacity(super::CAP);
            let mut i = 0;
            while i < self.raw.v.len() {
                let take = { let e = &mut self.raw.v[i]; f(&e.0, &mut e.1) };
                if take { out.push(crate::collections::take_at(&mut self.raw.v, i)); } else { i += 1; }
            }
            out.into_iter()
        }
    }
    impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.raw.find(&k) {
                Some(i) => Some(::std::mem::replace(&mut self.raw.v[i].1, v)),
                None => { self.raw.room(); self.raw.v.push((k, v)); None }
            }
        }
        pub fn get<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
            match self.raw.find(k) { Some(i) => Some(&self.raw.v[i].1), None => None }
        }
        pub fn get_key_value<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
            match self.raw.find(k) { Some(i) => Some((&self.raw.v[i].0, &self.raw.v[i].1)), None => None }
        }
        pub fn get_mut<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
            match self.raw.find(k) { Some(i) => Some(&mut self.raw.v[i].1), None => None }
        }
        pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> {
            self.raw.find(k).is_some()
        }
        pub fn remove<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
            match self.raw.find(k) { Some(i) => Some(crate::collections::take_at(&mut self.raw.v, i).1), None => None }
        }
        pub fn remove_entry<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
            match self.raw.find(k) { Some(i) => Some(crate::collections::take_at(&mut self.raw.v, i)), None => None }
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            match self.raw.find(&k) {
                Some(i) => Entry::Occupied(OccupiedEntry { raw: &mut self.raw, i }),
                None => { let i = self.raw.v.len(); Entry::Vacant(VacantEntry { raw: &mut self.raw, i, k }) }
            }
        }
    }
    impl<K, V, S> Default for HashMap<K, V, S> {
        fn default() -> Self { HashMap { raw: Raw::new(), s: PhantomData } }
    }
    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            let mut raw = Raw::new();
            if !self.raw.v.is_empty() { raw.room(); }
            let mut i = 0;
            while i < self.raw.v.len() { raw.v.push(self.raw.v[i].clone()); i += 1; }
            HashMap { raw, s: PhantomData }
        }
    }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("{..}") }
    }
    impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool {
            if self.len() != o.len() { return false; }
            let mut i = 0;
            while i < self.raw.v.len() {
                match o.raw.find(&self.raw.v[i].0) {
                    Some(j) => if self.raw.v[i].1 != o.raw.v[j].1 { return false },
                    None => return false,
                }
                i += 1;
            }
            true
        }
    }
    impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = Self::default();
            for (k, v) in it { m.insert(k, v); }
            m
        }
    }
    impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
    }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> { let mut v = self.raw.v; shuffle(&mut v); v.into_iter() }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> { self.iter() }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() }
    }
    impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S> Index<&Q> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
    }
}

pub mod btree_map {
    use super::*;
    iters!();
    entries!(BTreeMap, Ord);
    pub type Range<'a, K, V> = Iter<'a, K, V>;
    fn same<T>(_: &mut Vec<T>) {}
    pub struct BTreeMap<K, V> {
        pub(super) raw: Raw<K, V>,
    }
    impl<K, V> BTreeMap<K, V> {
        pub /*MAPCONST*/const fn new() -> Self { BTreeMap { raw: Raw::new() } }
        map_common!(same);
    }
    impl<K: Ord, V> BTreeMap<K, V> {
        #[inline]
        fn find<Q: Ord + ?Sized>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < self.raw.v.len() {
                if self.raw.v[i].0.borrow() == k { return Some(i); }
                i += 1;
            }
            None
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) {
                Some(i) => Some(::std::mem::replace(&mut self.raw.v[i].1, v)),
                None => {
                    let i = self.raw.lower(&k);
                    self.raw.room();
                    self.raw.v.insert(i, (k, v));
                    None
                }
            }
        }
        pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
            match self.find(k) { Some(i) => Some(&self.raw.v[i].1), None => None }
        }
        pub fn get_key_value<Q: Ord + ?Sized>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
            match self.find(k) { Some(i) => Some((&self.raw.v[i].0, &self.raw.v[i].1)), None => None }
        }
        pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
            match self.find(k) { Some(i) => Some(&mut self.raw.v[i].1), None => None }
        }
        pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
        pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
            match self.find(k) { Some(i) => Some(crate::collections::take_at(&mut self.raw.v, i).1), None => None }
        }
        pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
            match self.find(k) { Some(i) => Some(crate::collections::take_at(&mut self.raw.v, i)), None => None }
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            match self.find(&k) {
                Some(i) => Entry::Occupied(OccupiedEntry { raw: &mut self.raw, i }),
                None => {
                    let i = self.raw.lower(&k);
                    Entry::Vacant(VacantEntry { raw: &mut self.raw, i, k })
                }
            }
        }
        pub fn first_key_value(&self) -> Option<(&K, &V)> { self.raw.v.first().map(|e| (&e.0, &e.1)) }
        pub fn last_key_value(&self) -> Option<(&K, &V)> { self.raw.v.last().map(|e| (&e.0, &e.1)) }
        pub fn first_entry(&mut self) -> Option<OccupiedEntry<'_, K, V>> {
            if self.raw.v.is_empty() { None } else { Some(OccupiedEntry { raw: &mut self.raw, i: 0 }) }
        }
        pub fn last_entry(&mut self) -> Option<OccupiedEntry<'_, K, V>> {
            let n = self.raw.v.len();
            if n == 0 { None } else { Some(OccupiedEntry { raw: &mut self.raw, i: n - 1 }) }
        }
        pub fn pop_first(&mut self) -> Option<(K, V)> { if self.raw.v.is_empty() { None } else { Some(crate::collections::take_at(&mut self.raw.v, 0)) } }
        pub fn pop_last(&mut self) -> Option<(K, V)> { self.raw.v.pop() }
        fn bounds<Q: Ord + ?Sized, R: RangeBounds<Q>>(&self, r: &R) -> (usize, usize) where K: Borrow<Q> {
            let n = self.raw.v.len();
            let mut a = 0;
            while a < n {
                let k: &Q = self.raw.v[a].0.borrow();
                let inside = match r.start_bound() {
                    Bound::Included(s) => k >= s,
                    Bound::Excluded(s) => k > s,
                    Bound::Unbounded => true,
                };
                if inside { break; }
                a += 1;
            }
            let mut b = a;
            while b < n {
                let k: &Q = self.raw.v[b].0.borrow();
                let inside = match r.end_bound() {
                    Bound::Included(s) => k <= s,
                    Bound::Excluded(s) => k < s,
                    Bound::Unbounded => true,
                };
                if !inside { break; }
                b += 1;
            }
            (a, b)
        }
        pub fn range<Q: Ord + ?Sized, R: RangeBounds<Q>>(&self, r: R) -> Range<'_, K, V> where K: Borrow<Q> {
            let (a, b) = self.bounds(&r);
            let mut it = self.iter();
            it.a = a;
            it.b = b;
            it
        }
        pub fn range_mut<Q: Ord + ?Sized, R: RangeBounds<Q>>(&mut self, r: R) -> IterMut<'_, K, V> where K: Borrow<Q> {
            let (a, b) = self.bounds(&r);
            let mut v: Vec<&mut (K, V)> = Vec::with_capacity(super::CAP);
            let mut i = 0;
            for e in self.raw.v.iter_mut() { if i >= a && i < b { v.push(e); } i += 1; }
            IterMut(v.into_iter())
        }
        pub fn split_off<Q: Ord + ?Sized>(&mut self, k: &Q) -> Self where K: Borrow<Q> {
            let i = self.raw.lower(k);
            let mut raw = Raw::new();
            raw.room();
            while self.raw.v.len() > i { let e = crate::collections::take_at(&mut self.raw.v, i); raw.v.push(e); }
            BTreeMap { raw }
        }
        pub fn append(&mut self, o: &mut Self) {
            for (k, v) in ::std::mem::take(&mut o.raw.v) { self.insert(k, v); }
        }
    }
    impl<K, V> Default for BTreeMap<K, V> {
        fn default() -> Self { BTreeMap { raw: Raw::new() } }
    }
    impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
        fn clone(&self) -> Self {
            let mut raw = Raw::new();
            if !self.raw.v.is_empty() { raw.room(); }
            let mut i = 0;
            while i < self.raw.v.len() { raw.v.push(self.raw.v[i].clone()); i += 1; }
            BTreeMap { raw }
        }
    }
    impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for BTreeMap<K, V> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("{..}") }
    }
    impl<K: PartialEq, V: PartialEq> PartialEq for BTreeMap<K, V> {
        fn eq(&self, o: &Self) -> bool { self.raw.v == o.raw.v }
    }
    impl<K: Eq, V: Eq> Eq for BTreeMap<K, V> {}
    impl<K: PartialOrd, V: PartialOrd> PartialOrd for BTreeMap<K, V> {
        fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> { self.raw.v.partial_cmp(&o.raw.v) }
    }
    impl<K: Ord, V: Ord> Ord for BTreeMap<K, V> {
        fn cmp(&self, o: &Self) -> ::std::cmp::Ordering { self.raw.v.cmp(&o.raw.v) }
    }
    impl<K: ::std::hash::Hash, V: ::std::hash::Hash> ::std::hash::Hash for BTreeMap<K, V> {
        fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) { self.raw.v.hash(h) }
    }
    impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = Self::default();
            for (k, v) in it { m.insert(k, v); }
            m
        }
    }
    impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
    }
    impl<K: Ord, V, const N: usize> From<[(K, V); N]> for BTreeMap<K, V> {
        fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
    }
    impl<K, V> IntoIterator for BTreeMap<K, V> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> { self.raw.v.into_iter() }
    }
    impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> { self.iter() }
    }
    impl<'a, K, V> IntoIterator for &'a mut BTreeMap<K, V> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() }
    }
    impl<K: Ord + Borrow<Q>, Q: Ord + ?Sized, V> Index<&Q> for BTreeMap<K, V> {
        type Output = V;
        fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
    }
}

macro_rules! sets {
    ($map:ty, $($b:tt)+) => {
        pub type IntoIter<K> = VecIter<K>;
        impl<K: $($b)+> FromIterator<K> for Set<K> {
            fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
                let mut m = Self::default();
                for k in it { m.insert(k); }
                m
            }
        }
        impl<K: $($b)+> Extend<K> for Set<K> {
            fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } }
        }
        impl<'a, K: $($b)+ + Copy + 'a> Extend<&'a K> for Set<K> {
            fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) { for k in it { self.insert(*k); } }
        }
        impl<K: $($b)+, const N: usize> From<[K; N]> for Set<K> {
            fn from(a: [K; N]) -> Self { a.into_iter().collect() }
        }
        impl<K> IntoIterator for Set<K> {
            type Item = K;
            type IntoIter = IntoIter<K>;
            fn into_iter(self) -> IntoIter<K> {
                let mut v = Vec::with_capacity(super::CAP);
                for (k, _) in self.0 { v.push(k); }
                v.into_iter()
            }
        }
        impl<'a, K> IntoIterator for &'a Set<K> {
            type Item = &'a K;
            type IntoIter = Iter<'a, K>;
            fn into_iter(self) -> Iter<'a, K> { self.iter() }
        }
        impl<K> Set<K> {
            pub fn len(&self) -> usize { self.0.len() }
            pub fn is_empty(&self) -> bool { self.0.is_empty() }
            pub fn clear(&mut self) { self.0.clear() }
            pub fn iter(&self) -> Iter<'_, K> { self.0.keys() }
            pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) { self.0.retain(|k, _| f(k)) }
        }
        impl<K: $($b)+> Set<K> {
            pub fn insert(&mut self, k: K) -> bool {
                if self.0.contains_key(&k) { return false; }
                self.0.insert(k, ());
                true
            }
            pub fn replace(&mut self, k: K) -> Option<K> {
                let old = self.0.remove_entry(&k).map(|e| e.0);
                self.0.insert(k, ());
                old
            }
            pub fn contains<Q: $($b)+ + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { self.0.contains_key(k) }
            pub fn get<Q: $($b)+ + ?Sized>(&self, k: &Q) -> Option<&K> where K: Borrow<Q> { self.0.get_key_value(k).map(|e| e.0) }
            pub fn remove<Q: $($b)+ + ?Sized>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.0.remove(k).is_some() }
            pub fn take<Q: $($b)+ + ?Sized>(&mut self, k: &Q) -> Option<K> where K: Borrow<Q> { self.0.remove_entry(k).map(|e| e.0) }
            pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|k| o.contains(k)) }
            pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
            pub fn is_disjoint(&self, o: &Self) -> bool { !self.iter().any(|k| o.contains(k)) }
            pub fn difference<'a>(&'a self, o: &'a Self) -> VecIter<&'a K> {
                let mut v = Vec::with_capacity(super::CAP);
                for k in self.iter() { if !o.contains(k) { v.push(k); } }
                v.into_iter()
            }
            pub fn intersection<'a>(&'a self, o: &'a Self) -> VecIter<&'a K> {
                let mut v = Vec::with_capacity(super::CAP);
                for k in self.iter() { if o.contains(k) { v.push(k); } }
                v.into_iter()
            }
            pub fn union<'a>(&'a self, o: &'a Self) -> VecIter<&'a K> {
                let mut v = Vec::with_capacity(super::CAP);
                for k in self.iter() { v.push(k); }
                for k in o.iter() { if !self.contains(k) { v.push(k); } }
                v.into_iter()
            }
        }
        impl<K> Default for Set<K> {
            fn default() -> Self { Set(Default::default()) }
        }
        impl<K: Clone> Clone for Set<K> {
            fn clone(&self) -> Self { Set(self.0.clone()) }
        }
        impl<K: fmt::Debug> fmt::Debug for Set<K> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("{..}") }
        }
        impl<K: $($b)+> PartialEq for Set<K> {
            fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
        }
        impl<K: $($b)+> Eq for Set<K> {}
    };
}
pub mod hash_set {
    use super::{*, hash_map::HashMap};
    use ::std::hash::Hash;
    pub struct HashSet<K, S = RandomState>(HashMap<K, ()>, PhantomData<S>);
    pub type Iter<'a, K> = hash_map::Keys<'a, K, ()>;
    #[allow(non_snake_case)]
    fn Set<K>(m: HashMap<K, ()>) -> HashSet<K> { HashSet(m, PhantomData) }
    type Set<K> = HashSet<K>;
    impl<K> HashSet<K> {
        pub fn new() -> Self { HashSet(HashMap::new(), PhantomData) }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn drain(&mut self) -> IntoIter<K> { ::std::mem::take(self).into_iter() }
    }
    sets!(HashMap<K, ()>, Eq + Hash);
}
pub mod btree_set {
    use super::{*, btree_map::BTreeMap};
    pub struct BTreeSet<K>(BTreeMap<K, ()>);
    pub type Iter<'a, K> = btree_map::Keys<'a, K, ()>;
    #[allow(non_snake_case)]
    fn Set<K>(m: BTreeMap<K, ()>) -> BTreeSet<K> { BTreeSet(m) }
    type Set<K> = BTreeSet<K>;
    impl<K> BTreeSet<K> {
        pub /*MAPCONST*/const fn new() -> Self { BTreeSet(BTreeMap::new()) }
    }
    impl<K: Ord> BTreeSet<K> {
        pub fn first(&self) -> Option<&K> { self.0.first_key_value().map(|e| e.0) }
        pub fn last(&self) -> Option<&K> { self.0.last_key_value().map(|e| e.0) }
        pub fn pop_first(&mut self) -> Option<K> { self.0.pop_first().map(|e| e.0) }
        pub fn pop_last(&mut self) -> Option<K> { self.0.pop_last().map(|e| e.0) }
        pub fn range<Q: Ord + ?Sized, R: RangeBounds<Q>>(&self, r: R) -> Iter<'_, K> where K: Borrow<Q> {
            btree_map::Keys(self.0.range(r))
        }
        pub fn split_off<Q: Ord + ?Sized>(&mut self, k: &Q) -> Self where K: Borrow<Q> { BTreeSet(self.0.split_off(k)) }
        pub fn append(&mut self, o: &mut Self) { self.0.append(&mut o.0) }
    }
    impl<K: Ord> PartialOrd for BTreeSet<K> {
        fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> { Some(self.cmp(o)) }
    }
    impl<K: Ord> Ord for BTreeSet<K> {
        fn cmp(&self, o: &Self) -> ::std::cmp::Ordering { self.iter().cmp(o.iter()) }
    }
    impl<K: ::std::hash::Hash> ::std::hash::Hash for BTreeSet<K> {
        fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) { for k in self.iter() { k.hash(h) } }
    }
    sets!(BTreeMap<K, ()>, Ord);
}
pub mod vec_deque {
    use super::*;
    /// A queue in a plain vector.
    pub struct VecDeque<T>(Vec<T>);
    pub type IntoIter<T> = VecIter<T>;
    impl<T> VecDeque<T> {
        pub /*MAPCONST*/const fn new() -> Self { VecDeque(Vec::new()) }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
        fn room(&mut self) {
            if self.0.capacity() == 0 {
                self.0.reserve_exact(CAP);
            }
        }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn capacity(&self) -> usize { self.0.capacity() }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn clear(&mut self) { self.0.clear() }
        pub fn push_back(&mut self, t: T) { self.room(); self.0.push(t) }
        pub fn push_front(&mut self, t: T) { self.room(); self.0.insert(0, t) }
        pub fn pop_back(&mut self) -> Option<T> { self.0.pop() }
        pub fn pop_front(&mut self) -> Option<T> { if self.0.is_empty() { None } else { Some(crate::collections::take_at(&mut self.0, 0)) } }
        pub fn front(&self) -> Option<&T> { self.0.first() }
        pub fn front_mut(&mut self) -> Option<&mut T> { self.0.first_mut() }
        pub fn back(&self) -> Option<&T> { self.0.last() }
        pub fn back_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
        pub fn get(&self, i: usize) -> Option<&T> { self.0.get(i) }
        pub fn get_mut(&mut self, i: usize) -> Option<&mut T> { self.0.get_mut(i) }
        pub fn iter(&self) -> ::std::slice::Iter<'_, T> { self.0.iter() }
        pub fn iter_mut(&mut self) -> ::std::slice::IterMut<'_, T> { self.0.iter_mut() }
        pub fn remove(&mut self, i: usize) -> Option<T> { if i < self.0.len() { Some(crate::collections::take_at(&mut self.0, i)) } else { None } }
        pub fn insert(&mut self, i: usize, t: T) { self.room(); self.0.insert(i, t) }
        pub fn swap(&mut self, i: usize, j: usize) { self.0.swap(i, j) }
        pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
        pub fn contains(&self, t: &T) -> bool where T: PartialEq { self.iter().any(|x| x == t) }
        pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> VecIter<T> {
            let v: Vec<T> = self.0.drain(r).collect();
            v.into_iter()
        }
        pub fn append(&mut self, o: &mut Self) {
            while let Some(t) = o.pop_front() { self.push_back(t); }
        }
        pub fn make_contiguous(&mut self) -> &mut [T] { &mut self.0[..] }
    }
    impl<T> Default for VecDeque<T> {
        fn default() -> Self { Self::new() }
    }
    impl<T: Clone> Clone for VecDeque<T> {
        fn clone(&self) -> Self { VecDeque(self.0.clone()) }
    }
    impl<T> fmt::Debug for VecDeque<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("[..]") }
    }
    impl<T: PartialEq> PartialEq for VecDeque<T> {
        fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
    }
    impl<T: Eq> Eq for VecDeque<T> {}
    impl<T> Index<usize> for VecDeque<T> {
        type Output = T;
        fn index(&self, i: usize) -> &T { &self.0[i] }
    }
    impl<T> ::std::ops::IndexMut<usize> for VecDeque<T> {
        fn index_mut(&mut self, i: usize) -> &mut T { &mut self.0[i] }
    }
    impl<T> Extend<T> for VecDeque<T> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for t in it { self.push_back(t); } }
    }
    impl<T> FromIterator<T> for VecDeque<T> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut d = Self::new(); d.extend(it); d }
    }
    impl<T> IntoIterator for VecDeque<T> {
        type Item = T;
        type IntoIter = VecIter<T>;
        fn into_iter(self) -> VecIter<T> { self.0.into_iter() }
    }
    impl<'a, T> IntoIterator for &'a VecDeque<T> {
        type Item = &'a T;
        type IntoIter = ::std::slice::Iter<'a, T>;
        fn into_iter(self) -> Self::IntoIter { self.0.iter() }
    }
}
pub mod heap {
    /// A max-heap by linear scan.
    #[derive(Clone, Debug)]
    pub struct BinaryHeap<T>(Vec<T>);
    impl<T> Default for BinaryHeap<T> {
        fn default() -> Self { BinaryHeap(Vec::new()) }
    }
    impl<T: Ord> BinaryHeap<T> {
        pub fn new() -> Self { BinaryHeap(Vec::new()) }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
        fn top(&self) -> Option<usize> {
            let mut b = None;
            let mut i = 0;
            while i < self.0.len() {
                match b { None => b = Some(i), Some(j) => if self.0[i] > self.0[j] { b = Some(i) } }
                i += 1;
            }
            b
        }
        pub fn push(&mut self, t: T) { self.0.push(t) }
        pub fn pop(&mut self) -> Option<T> { self.top().map(|i| self.0.remove(i)) }
        pub fn peek(&self) -> Option<&T> { self.top().map(|i| &self.0[i]) }
        pub fn into_sorted_vec(mut self) -> Vec<T> { self.0.sort(); self.0 }
    }
    impl<T> BinaryHeap<T> {
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn clear(&mut self) { self.0.clear() }
        pub fn iter(&self) -> ::std::slice::Iter<'_, T> { self.0.iter() }
    }
}

mod ser {
    use super::*;
    use serde::{de::{MapAccess, SeqAccess, Visitor}, ser::{SerializeMap as _, SerializeSeq as _}, Deserialize, Deserializer, Serialize, Serializer};
    macro_rules! map_serde {
        ($m:ident, $($b:tt)+) => {
            impl<K: Serialize, V: Serialize> Serialize for $m<K, V> {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    let mut m = s.serialize_map(Some(self.len()))?;
                    for (k, v) in self.iter() { m.serialize_entry(k, v)?; }
                    m.end()
                }
            }
            impl<'de, K: Deserialize<'de> + $($b)+, V: Deserialize<'de>> Deserialize<'de> for $m<K, V> {
                fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    struct Vis<K, V>(PhantomData<(K, V)>);
                    impl<'de, K: Deserialize<'de> + $($b)+, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
                        type Value = $m<K, V>;
                        fn expecting(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
                        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                            let mut m = $m::new();
                            while let Some((k, v)) = a.next_entry()? { m.insert(k, v); }
                            Ok(m)
                        }
                    }
                    d.deserialize_map(Vis(PhantomData))
                }
            }
        };
    }
    map_serde!(BTreeMap, Ord);
    map_serde!(HashMap, Eq + ::std::hash::Hash);
    macro_rules! set_serde {
        ($m:ident, $($b:tt)+) => {
            impl<K: Serialize> Serialize for $m<K> {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    let mut m = s.serialize_seq(Some(self.len()))?;
                    for k in self.iter() { m.serialize_element(k)?; }
                    m.end()
                }
            }
            impl<'de, K: Deserialize<'de> + $($b)+> Deserialize<'de> for $m<K> {
                fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    struct Vis<K>(PhantomData<K>);
                    impl<'de, K: Deserialize<'de> + $($b)+> Visitor<'de> for Vis<K> {
                        type Value = $m<K>;
                        fn expecting(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
                        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                            let mut m = $m::new();
                            while let Some(k) = a.next_element()? { m.insert(k); }
                            Ok(m)
                        }
                    }
                    d.deserialize_seq(Vis(PhantomData))
                }
            }
        };
    }
    set_serde!(BTreeSet, Ord);
    set_serde!(HashSet, Eq + ::std::hash::Hash);
}
