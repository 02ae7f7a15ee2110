use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::marker::PhantomData;

pub struct HashSet<T, S = RandomState> {
    v: Vec<T>,
    s: PhantomData<S>,
}
pub type Iter<'a, T> = std::slice::Iter<'a, T>;
pub type IntoIter<T> = std::vec::IntoIter<T>;
pub type Drain<'a, T> = std::vec::Drain<'a, T>;

impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self { HashSet { v: Vec::new(), s: PhantomData } }
    pub fn with_capacity(n: usize) -> Self { HashSet { v: Vec::with_capacity(n), s: PhantomData } }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(_: S) -> Self { HashSet { v: Vec::new(), s: PhantomData } }
    pub fn with_capacity_and_hasher(n: usize, _: S) -> Self { HashSet { v: Vec::with_capacity(n), s: PhantomData } }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn capacity(&self) -> usize { self.v.capacity() }
    pub fn iter(&self) -> std::slice::Iter<'_, T> { self.v.iter() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn drain(&mut self) -> std::vec::Drain<'_, T> { self.v.drain(..) }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.v.retain(f) }
}
impl<T: Eq, S> HashSet<T, S> {
    fn pos<Q: ?Sized + Eq>(&self, t: &Q) -> usize
    where
        T: Borrow<Q>,
    {
        let mut at = usize::MAX;
        let mut i = 0;
        while i < self.v.len() {
            if self.v[i].borrow() == t { at = i; }
            i += 1;
        }
        at
    }
    pub fn contains<Q: ?Sized + Eq>(&self, t: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.pos(t) != usize::MAX
    }
    pub fn get<Q: ?Sized + Eq>(&self, t: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        let p = self.pos(t);
        if p == usize::MAX { None } else { Some(&self.v[p]) }
    }
    pub fn insert(&mut self, t: T) -> bool {
        let mut found = false;
        let mut i = 0;
        while i < self.v.len() {
            found |= self.v[i] == t;
            i += 1;
        }
        if found { return false; }
        self.v.push(t);
        true
    }
    pub fn replace(&mut self, t: T) -> Option<T> {
        let p = self.pos::<T>(&t);
        if p == usize::MAX { self.v.push(t); None } else { Some(std::mem::replace(&mut self.v[p], t)) }
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, t: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.take(t).is_some()
    }
    pub fn take<Q: ?Sized + Eq>(&mut self, t: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        let p = self.pos(t);
        if p == usize::MAX { None } else { Some(self.v.swap_remove(p)) }
    }
    pub fn reserve(&mut self, n: usize) { self.v.reserve(n) }
    pub fn shrink_to_fit(&mut self) { self.v.shrink_to_fit() }
    pub fn is_subset<S2>(&self, o: &HashSet<T, S2>) -> bool { self.v.iter().all(|x| o.contains(x)) }
    pub fn is_superset<S2>(&self, o: &HashSet<T, S2>) -> bool { o.is_subset(self) }
    pub fn is_disjoint<S2>(&self, o: &HashSet<T, S2>) -> bool { !self.v.iter().any(|x| o.contains(x)) }
    pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> std::vec::IntoIter<&'a T> {
        let mut v: Vec<&'a T> = self.v.iter().collect();
        for x in o.v.iter() { if !self.contains(x) { v.push(x); } }
        v.into_iter()
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> std::vec::IntoIter<&'a T> {
        let mut v: Vec<&'a T> = Vec::new();
        for x in self.v.iter() { if o.contains(x) { v.push(x); } }
        v.into_iter()
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> std::vec::IntoIter<&'a T> {
        let mut v: Vec<&'a T> = Vec::new();
        for x in self.v.iter() { if !o.contains(x) { v.push(x); } }
        v.into_iter()
    }
}
impl<T: Clone, S> Clone for HashSet<T, S> {
    fn clone(&self) -> Self { HashSet { v: self.v.clone(), s: PhantomData } }
}
impl<T: std::fmt::Debug, S> std::fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_set().entries(self.v.iter()).finish() }
}
impl<T, S> Default for HashSet<T, S> {
    fn default() -> Self { HashSet { v: Vec::new(), s: PhantomData } }
}
impl<T: Eq, S> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool { self.v.len() == o.v.len() && self.is_subset(o) }
}
impl<T: Eq, S> Eq for HashSet<T, S> {}
impl<T: Eq, S> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.insert(x); } }
}
impl<'a, T: Eq + Copy, S> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.insert(*x); } }
}
impl<T: Eq, S> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut r = HashSet { v: Vec::new(), s: PhantomData };
        for x in it { r.insert(x); }
        r
    }
}
impl<T: Eq, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self { a.into_iter().collect() }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter { self.v.into_iter() }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter { self.v.iter() }
}
impl<T: Serialize, S> Serialize for HashSet<T, S> {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> { s.collect_seq(self.v.iter()) }
}
impl<'de, T: Deserialize<'de> + Eq, S> Deserialize<'de> for HashSet<T, S> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<T>::deserialize(d)?;
        Ok(v.into_iter().collect())
    }
}
