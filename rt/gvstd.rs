//! Stand-in for `std` used only when the code under test is compiled for
//! symbolic execution.  Everything is the real `std` except the hash-based
//! containers, which are replaced by executable models with the same contract
//! (finite maps/sets whose iteration order is unspecified).
//!
//! The models are association lists: a lookup compares keys one by one, so the
//! solver case-splits on key equality instead of on hash values.  `set_order`
//! selects one of two iteration orders (insertion order or its reverse).
#![allow(static_mut_refs, dead_code)]
pub use ::std::*;

pub mod model {
    pub static mut ORDER: u8 = 0;
    #[inline(never)]
    pub fn set_order(o: u8) { unsafe { ORDER = o } }
    #[inline(always)]
    pub(crate) fn front() -> bool { unsafe { ORDER != 0 } }
}

pub mod hash {
    pub use super::collections::hash_map::{DefaultHasher, RandomState};
    pub use ::std::hash::*;
}

pub mod collections {
    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;
    pub use ::std::collections::*;

    pub mod hash_map {
        use ::std::borrow::Borrow;
        use ::std::fmt;
        use ::std::hash::{BuildHasher, Hash};
        use ::std::iter::FusedIterator;
        use ::std::ops::Index;

        pub use ::std::collections::hash_map::DefaultHasher;
        #[derive(Clone, Default, Debug)]
        pub struct RandomState;
        impl RandomState { pub fn new() -> Self { RandomState } }
        impl BuildHasher for RandomState { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher::new() } }

        pub struct HashMap<K, V, S = RandomState> { pub(crate) e: Vec<(K, V)>, s: S }

        impl<K, V> HashMap<K, V, RandomState> {
            pub fn new() -> Self { HashMap { e: Vec::new(), s: RandomState } }
            pub fn with_capacity(n: usize) -> Self { HashMap { e: if n > 64 { Vec::with_capacity(n) } else { Vec::new() }, s: RandomState } }
        }
        impl<K, V, S> HashMap<K, V, S> {
            pub fn with_hasher(s: S) -> Self { HashMap { e: Vec::new(), s } }
            pub fn with_capacity_and_hasher(n: usize, s: S) -> Self { HashMap { e: if n > 64 { Vec::with_capacity(n) } else { Vec::new() }, s } }
            pub fn capacity(&self) -> usize { self.e.capacity() }
            pub fn hasher(&self) -> &S { &self.s }
            pub fn len(&self) -> usize { self.e.len() }
            pub fn is_empty(&self) -> bool { self.e.is_empty() }
            pub fn clear(&mut self) { self.e.clear() }
            pub fn iter(&self) -> Iter<'_, K, V> { Iter { i: self.e.iter() } }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { i: self.e.iter_mut() } }
            pub fn keys(&self) -> Keys<'_, K, V> { Keys { i: self.iter() } }
            pub fn values(&self) -> Values<'_, K, V> { Values { i: self.iter() } }
            pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { i: self.iter_mut() } }
            pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys { i: self.into_iter() } }
            pub fn into_values(self) -> IntoValues<K, V> { IntoValues { i: self.into_iter() } }
            pub fn drain(&mut self) -> Drain<'_, K, V> { Drain { i: self.e.drain(..) } }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.e.retain_mut(|(k, v)| f(k, v)) }
        }
        impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
            pub fn reserve(&mut self, n: usize) { if n > 64 { self.e.reserve(n) } }
            pub fn try_reserve(&mut self, n: usize) -> Result<(), ::std::collections::TryReserveError> { if n > 64 { self.e.try_reserve(n) } else { Ok(()) } }
            pub fn shrink_to_fit(&mut self) {}
            pub fn shrink_to(&mut self, _: usize) {}
            #[inline(always)]
            fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
                let mut i = 0;
                let n = self.e.len();
                while i < n {
                    if self.e[i].0.borrow() == k { return Some(i); }
                    i += 1;
                }
                None
            }
            fn add(&mut self, k: K, v: V) -> usize {
                if super::super::model::front() { self.e.insert(0, (k, v)); 0 } else { self.e.push((k, v)); self.e.len() - 1 }
            }
            pub fn entry(&mut self, key: K) -> Entry<'_, K, V, S> {
                match self.pos(&key) {
                    Some(i) => Entry::Occupied(OccupiedEntry { m: self, i }),
                    None => Entry::Vacant(VacantEntry { m: self, k: key }),
                }
            }
            pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&self.e[i].1), None => None } }
            pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => { let e = &self.e[i]; Some((&e.0, &e.1)) } None => None } }
            pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.e[i].1), None => None } }
            pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { let (mut r, mut i) = (false, 0); let n = self.e.len(); while i < n { r |= self.e[i].0.borrow() == k; i += 1; } r }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.pos(&k) { Some(i) => Some(::std::mem::replace(&mut self.e[i].1, v)), None => { self.add(k, v); None } }
            }
            pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.e.remove(i).1), None => None } }
            pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.e.remove(i)), None => None } }
        }
        impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { e: self.e.clone(), s: self.s.clone() } } }
        impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { e: Vec::new(), s: S::default() } } }
        impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
        impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w)) } }
        impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
        impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
        impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> { fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) { for (k, v) in it { self.insert(k, v); } } }
        impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: T) { for (k, v) in it { self.insert(*k, *v); } } }
        impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self { let mut m = HashMap::with_hasher(S::default()); m.extend(it); m } }
        impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }

        pub struct Iter<'a, K, V> { i: ::std::slice::Iter<'a, (K, V)> }
        impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); #[inline] fn next(&mut self) -> Option<Self::Item> { match self.i.next() { Some(e) => Some((&e.0, &e.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
        impl<K, V> FusedIterator for Iter<'_, K, V> {}
        impl<K, V> Clone for Iter<'_, K, V> { fn clone(&self) -> Self { Iter { i: self.i.clone() } } }
        impl<K, V> Default for Iter<'_, K, V> { fn default() -> Self { Iter { i: Default::default() } } }
        impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Iter<'_, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.clone()).finish() } }
        pub struct IterMut<'a, K, V> { i: ::std::slice::IterMut<'a, (K, V)> }
        impl<'a, K, V> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); #[inline] fn next(&mut self) -> Option<Self::Item> { match self.i.next() { Some(e) => Some((&e.0, &mut e.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for IterMut<'_, K, V> {}
        impl<K, V> FusedIterator for IterMut<'_, K, V> {}
        pub struct IntoIter<K, V> { i: ::std::vec::IntoIter<(K, V)> }
        impl<K, V> Iterator for IntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { self.i.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
        impl<K, V> FusedIterator for IntoIter<K, V> {}
        pub struct Drain<'a, K, V> { i: ::std::vec::Drain<'a, (K, V)> }
        impl<K, V> Iterator for Drain<'_, K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { self.i.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for Drain<'_, K, V> {}
        pub struct Keys<'a, K, V> { i: Iter<'a, K, V> }
        impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { match self.i.next() { Some(e) => Some(e.0), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for Keys<'_, K, V> {}
        impl<K, V> FusedIterator for Keys<'_, K, V> {}
        impl<K, V> Clone for Keys<'_, K, V> { fn clone(&self) -> Self { Keys { i: self.i.clone() } } }
        pub struct Values<'a, K, V> { i: Iter<'a, K, V> }
        impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { match self.i.next() { Some(e) => Some(e.1), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for Values<'_, K, V> {}
        impl<K, V> FusedIterator for Values<'_, K, V> {}
        impl<K, V> Clone for Values<'_, K, V> { fn clone(&self) -> Self { Values { i: self.i.clone() } } }
        pub struct ValuesMut<'a, K, V> { i: IterMut<'a, K, V> }
        impl<'a, K, V> Iterator for ValuesMut<'a, K, V> { type Item = &'a mut V; fn next(&mut self) -> Option<&'a mut V> { match self.i.next() { Some(e) => Some(e.1), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for ValuesMut<'_, K, V> {}
        pub struct IntoKeys<K, V> { i: IntoIter<K, V> }
        impl<K, V> Iterator for IntoKeys<K, V> { type Item = K; fn next(&mut self) -> Option<K> { self.i.next().map(|e| e.0) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for IntoKeys<K, V> {}
        pub struct IntoValues<K, V> { i: IntoIter<K, V> }
        impl<K, V> Iterator for IntoValues<K, V> { type Item = V; fn next(&mut self) -> Option<V> { self.i.next().map(|e| e.1) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<K, V> ExactSizeIterator for IntoValues<K, V> {}
        impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
        impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
        impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter { i: self.e.into_iter() } } }

        pub enum Entry<'a, K: 'a, V: 'a, S: 'a = RandomState> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
        pub struct OccupiedEntry<'a, K: 'a, V: 'a, S: 'a = RandomState> { m: &'a mut HashMap<K, V, S>, i: usize }
        pub struct VacantEntry<'a, K: 'a, V: 'a, S: 'a = RandomState> { m: &'a mut HashMap<K, V, S>, k: K }
        impl<'a, K: Eq + Hash, V, S: BuildHasher> Entry<'a, K, V, S> {
            pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) } }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
            pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => { let v = f(e.key()); e.insert(v) } } }
            pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
            pub fn key(&self) -> &K { match self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() } }
            pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(e) = &mut self { f(e.get_mut()); } self }
            pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V, S> { match self { Entry::Occupied(mut e) => { e.insert(v); e } Entry::Vacant(e) => e.insert_entry(v) } }
        }
        impl<'a, K: Eq + Hash, V, S: BuildHasher> OccupiedEntry<'a, K, V, S> {
            pub fn key(&self) -> &K { &self.m.e[self.i].0 }
            pub fn get(&self) -> &V { &self.m.e[self.i].1 }
            pub fn get_mut(&mut self) -> &mut V { &mut self.m.e[self.i].1 }
            pub fn into_mut(self) -> &'a mut V { &mut self.m.e[self.i].1 }
            pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(self.get_mut(), v) }
            pub fn remove(self) -> V { self.m.e.remove(self.i).1 }
            pub fn remove_entry(self) -> (K, V) { self.m.e.remove(self.i) }
        }
        impl<'a, K: Eq + Hash, V, S: BuildHasher> VacantEntry<'a, K, V, S> {
            pub fn key(&self) -> &K { &self.k }
            pub fn into_key(self) -> K { self.k }
            pub fn insert(self, v: V) -> &'a mut V { let i = self.m.add(self.k, v); &mut self.m.e[i].1 }
            pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V, S> { let i = self.m.add(self.k, v); OccupiedEntry { m: self.m, i } }
        }
    }

    pub mod hash_set {
        use super::hash_map::{self, HashMap, RandomState};
        use ::std::borrow::Borrow;
        use ::std::fmt;
        use ::std::hash::{BuildHasher, Hash};
        use ::std::iter::FusedIterator;

        pub struct HashSet<T, S = RandomState> { m: HashMap<T, (), S> }
        impl<T> HashSet<T, RandomState> {
            pub fn new() -> Self { HashSet { m: HashMap::new() } }
            pub fn with_capacity(n: usize) -> Self { HashSet { m: HashMap::with_capacity(n) } }
        }
        impl<T, S> HashSet<T, S> {
            pub fn with_hasher(s: S) -> Self { HashSet { m: HashMap::with_hasher(s) } }
            pub fn with_capacity_and_hasher(n: usize, s: S) -> Self { HashSet { m: HashMap::with_capacity_and_hasher(n, s) } }
            pub fn capacity(&self) -> usize { self.m.capacity() }
            pub fn hasher(&self) -> &S { self.m.hasher() }
            pub fn len(&self) -> usize { self.m.len() }
            pub fn is_empty(&self) -> bool { self.m.is_empty() }
            pub fn clear(&mut self) { self.m.clear() }
            pub fn iter(&self) -> Iter<'_, T> { Iter { i: self.m.iter() } }
            pub fn drain(&mut self) -> Drain<'_, T> { Drain { i: self.m.drain() } }
            pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.m.retain(|k, _| f(k)) }
        }
        impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
            pub fn reserve(&mut self, n: usize) { self.m.reserve(n) }
            pub fn try_reserve(&mut self, n: usize) -> Result<(), ::std::collections::TryReserveError> { self.m.try_reserve(n) }
            pub fn shrink_to_fit(&mut self) {}
            pub fn shrink_to(&mut self, _: usize) {}
            pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(k) }
            pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T> where T: Borrow<Q> { self.m.get_key_value(k).map(|e| e.0) }
            pub fn insert(&mut self, v: T) -> bool { self.m.insert(v, ()).is_none() }
            pub fn replace(&mut self, v: T) -> Option<T> { let o = self.m.remove_entry(&v).map(|e| e.0); self.m.insert(v, ()); o }
            pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool where T: Borrow<Q> { self.m.remove(k).is_some() }
            pub fn take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<T> where T: Borrow<Q> { self.m.remove_entry(k).map(|e| e.0) }
            pub fn is_subset(&self, o: &HashSet<T, S>) -> bool { self.len() <= o.len() && self.iter().all(|v| o.contains(v)) }
            pub fn is_superset(&self, o: &HashSet<T, S>) -> bool { o.is_subset(self) }
            pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool { self.iter().all(|v| !o.contains(v)) }
            pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { let mut v: Vec<&'a T> = self.iter().collect(); v.extend(o.iter().filter(|x| !self.contains(*x))); v.into_iter() }
            pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { self.iter().filter(|x| o.contains(*x)).collect::<Vec<_>>().into_iter() }
            pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { self.iter().filter(|x| !o.contains(*x)).collect::<Vec<_>>().into_iter() }
            pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { let mut v: Vec<&'a T> = self.difference(o).collect(); v.extend(o.difference(self)); v.into_iter() }
        }
        impl<T: Clone, S: Clone> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet { m: self.m.clone() } } }
        impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { HashSet { m: HashMap::default() } } }
        impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
        impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|k| o.contains(k)) } }
        impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
        impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for k in it { self.insert(k); } } }
        impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for k in it { self.insert(*k); } } }
        impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = HashSet::with_hasher(S::default()); m.extend(it); m } }
        impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
        macro_rules! setop { ($t:ident, $f:ident, $m:ident) => { impl<T: Eq + Hash + Clone, S: BuildHasher + Default> ::std::ops::$t<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.$m(o).cloned().collect() } } } }
        setop!(BitOr, bitor, union);
        setop!(BitAnd, bitand, intersection);
        setop!(Sub, sub, difference);
        setop!(BitXor, bitxor, symmetric_difference);

        pub struct Iter<'a, T> { i: hash_map::Iter<'a, T, ()> }
        impl<'a, T> Iterator for Iter<'a, T> { type Item = &'a T; #[inline] fn next(&mut self) -> Option<&'a T> { match self.i.next() { Some(e) => Some(e.0), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<T> ExactSizeIterator for Iter<'_, T> {}
        impl<T> FusedIterator for Iter<'_, T> {}
        impl<T> Clone for Iter<'_, T> { fn clone(&self) -> Self { Iter { i: self.i.clone() } } }
        impl<T> Default for Iter<'_, T> { fn default() -> Self { Iter { i: Default::default() } } }
        impl<T: fmt::Debug> fmt::Debug for Iter<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.clone()).finish() } }
        pub struct IntoIter<T> { i: hash_map::IntoIter<T, ()> }
        impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.i.next().map(|e| e.0) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<T> ExactSizeIterator for IntoIter<T> {}
        impl<T> FusedIterator for IntoIter<T> {}
        pub struct Drain<'a, T> { i: hash_map::Drain<'a, T, ()> }
        impl<T> Iterator for Drain<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.i.next().map(|e| e.0) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<T> ExactSizeIterator for Drain<'_, T> {}
        impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
        impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { i: self.m.into_iter() } } }
    }
}
