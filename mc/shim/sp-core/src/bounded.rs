//! Bounded collections.
use crate::Get;
use codec::{Decode, Encode, EncodeLike, Input, MaxEncodedLen};
use scale_info::{Type, TypeInfo};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::{Deref, Index, IndexMut, RangeBounds};

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
/// Keeps what exceeds the bound.
pub struct WeakBoundedVec<T, S>(BoundedVec<T, S>);
impl<T, S> WeakBoundedVec<T, S> {
    pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self { Self(BoundedVec(v, PhantomData)) }
    pub fn into_inner(self) -> Vec<T> { self.0.into_inner() }
}
impl<T, S> Default for WeakBoundedVec<T, S> { fn default() -> Self { Self(Default::default()) } }
impl<T: Clone, S> Clone for WeakBoundedVec<T, S> { fn clone(&self) -> Self { Self(self.0.clone()) } }
impl<T: fmt::Debug, S> fmt::Debug for WeakBoundedVec<T, S> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl<T: PartialEq, S> PartialEq for WeakBoundedVec<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: PartialEq, S> PartialEq<Vec<T>> for WeakBoundedVec<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 .0 == o } }
impl<T, S> Deref for WeakBoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 .0 } }
impl<T: Encode, S> Encode for WeakBoundedVec<T, S> { fn encode_to<O: codec::Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) } }
impl<T: Encode, S> EncodeLike for WeakBoundedVec<T, S> {}
impl<T: Decode, S> Decode for WeakBoundedVec<T, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { Ok(Self::force_from(Vec::decode(i)?, None)) } }
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for WeakBoundedVec<T, S> { fn max_encoded_len() -> usize { BoundedVec::<T, S>::max_encoded_len() } }
impl<T: TypeInfo + 'static, S: 'static> TypeInfo for WeakBoundedVec<T, S> { type Identity = Vec<T>; fn type_info() -> Type { Vec::<T>::type_info() } }
impl<T, S> IntoIterator for WeakBoundedVec<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T, S> IntoIterator for &'a WeakBoundedVec<T, S> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<T, S: Get<u32>> TryFrom<Vec<T>> for WeakBoundedVec<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { BoundedVec::try_from(v).map(Self) } }
impl<T, S> BoundedVec<T, S> { pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self { Self(v, PhantomData) } }

impl<T: Clone, S> Clone for BoundedVec<T, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
impl<T: fmt::Debug, S> fmt::Debug for BoundedVec<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_tuple("BoundedVec").field(&self.0).finish() }
}
impl<T, S> Default for BoundedVec<T, S> { fn default() -> Self { Self(Vec::new(), PhantomData) } }
impl<T: PartialEq, A, B> PartialEq<BoundedVec<T, B>> for BoundedVec<T, A> { fn eq(&self, o: &BoundedVec<T, B>) -> bool { self.0 == o.0 } }
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for BoundedVec<T, S> { fn eq(&self, o: &&'a [T]) -> bool { &self.0[..] == *o } }
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.0.partial_cmp(&o.0) } }
impl<T: Ord, S> Ord for BoundedVec<T, S> { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
impl<T: Hash, S> Hash for BoundedVec<T, S> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T: Encode, S> Encode for BoundedVec<T, S> {
    fn size_hint(&self) -> usize { self.0.size_hint() }
    fn encode_to<O: codec::Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) }
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
        let v = Vec::<T>::decode(i)?;
        if v.len() > S::get() as usize { return Err("BoundedVec exceeds its limit".into()); }
        Ok(Self(v, PhantomData))
    }
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
    fn max_encoded_len() -> usize { 5 + (S::get() as usize).saturating_mul(T::max_encoded_len()) }
}
impl<T: TypeInfo + 'static, S: 'static> TypeInfo for BoundedVec<T, S> {
    type Identity = Vec<T>;
    fn type_info() -> Type { Vec::<T>::type_info() }
}
impl<T: serde::Serialize, S> serde::Serialize for BoundedVec<T, S> {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(s) }
}
impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for BoundedVec<T, S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<T>::deserialize(d)?;
        Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
    }
}
impl<T, S> Deref for BoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
impl<T, S> AsRef<[T]> for BoundedVec<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T, S> AsMut<[T]> for BoundedVec<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
impl<T, S, I: std::slice::SliceIndex<[T]>> Index<I> for BoundedVec<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
impl<T, S, I: std::slice::SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
impl<T, S> IntoIterator for BoundedVec<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
impl<T, S> From<BoundedVec<T, S>> for Vec<T> { fn from(v: BoundedVec<T, S>) -> Vec<T> { v.0 } }
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
    type Error = Vec<T>;
    fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= S::get() as usize { Ok(Self(v, PhantomData)) } else { Err(v) } }
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
    pub fn bound() -> usize { S::get() as usize }
    pub fn try_push(&mut self, e: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.push(e); Ok(()) } else { Err(e) } }
    pub fn try_insert(&mut self, i: usize, e: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.insert(i, e); Ok(()) } else { Err(e) } }
    pub fn force_push(&mut self, e: T) { assert!(self.0.len() < Self::bound()); self.0.push(e) }
    pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
        if with.len().saturating_add(self.0.len()) <= Self::bound() { self.0.extend(with); Ok(()) } else { Err(()) }
    }
    pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
        if o.len().saturating_add(self.0.len()) <= Self::bound() { self.0.append(o); Ok(()) } else { Err(()) }
    }
    pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then_some(self) }
    pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); Self(v, PhantomData) }
    pub fn with_bounded_capacity(c: usize) -> Self { Self(Vec::with_capacity(c.min(Self::bound())), PhantomData) }
    pub fn try_collect_from<I: Iterator<Item = T>>(i: I) -> Result<Self, Vec<T>> { Self::try_from(i.collect::<Vec<_>>()) }
    pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
    pub fn force_insert_keep_left(&mut self, index: usize, element: T) -> Result<Option<T>, ()> {
        if index > self.0.len() || Self::bound() < index || (Self::bound() == index && self.0.len() == index) { return Err(()); }
        let r = if self.is_full() { self.0.pop() } else { None };
        self.0.insert(index, element);
        Ok(r)
    }
}
impl<T, S> BoundedVec<T, S> {
    pub fn new() -> Self { Self::default() }
    pub fn into_inner(self) -> Vec<T> { self.0 }
    pub fn as_slice(&self) -> &[T] { &self.0 }
    pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
    pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
    pub fn pop(&mut self) -> Option<T> { self.0.pop() }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.iter_mut() }
    pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
    pub fn first_mut(&mut self) -> Option<&mut T> { self.0.first_mut() }
    pub fn get_mut<I: std::slice::SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> { self.0.get_mut(i) }
    pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> { self.0.drain(r) }
    pub fn reverse(&mut self) { self.0.reverse() }
    pub fn sort(&mut self) where T: Ord { self.0.sort() }
    pub fn sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { self.0.sort_by(f) }
    pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
    pub fn swap(&mut self, a: usize, b: usize) { self.0.swap(a, b) }
    pub fn dedup(&mut self) where T: PartialEq { self.0.dedup() }
}
pub trait TryCollect<C> {
    type Error;
    fn try_collect(self) -> Result<C, Self::Error>;
}
impl<I: ExactSizeIterator + Iterator, S: Get<u32>> TryCollect<BoundedVec<I::Item, S>> for I {
    type Error = &'static str;
    fn try_collect(self) -> Result<BoundedVec<I::Item, S>, Self::Error> {
        if self.len() > S::get() as usize { Err("iterator length too big") } else { Ok(BoundedVec(self.collect(), PhantomData)) }
    }
}
#[macro_export]
macro_rules! bounded_vec {
    ($ ($values:expr),* $(,)?) => { { $crate::sp_std::vec![$($values),*].try_into().unwrap() } };
    ( $value:expr ; $repetition:expr ) => { { $crate::sp_std::vec![$value ; $repetition].try_into().unwrap() } };
}

pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for BoundedBTreeMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> { fn default() -> Self { Self(BTreeMap::new(), PhantomData) } }
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> { fn encode_to<O: codec::Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) } }
impl<K: Encode, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
        let v = BTreeMap::<K, V>::decode(i)?;
        if v.len() > S::get() as usize { return Err("BoundedBTreeMap exceeds its limit".into()); }
        Ok(Self(v, PhantomData))
    }
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
    fn max_encoded_len() -> usize { 5 + (S::get() as usize).saturating_mul(K::max_encoded_len() + V::max_encoded_len()) }
}
impl<K: TypeInfo + 'static, V: TypeInfo + 'static, S: 'static> TypeInfo for BoundedBTreeMap<K, V, S> {
    type Identity = BTreeMap<K, V>;
    fn type_info() -> Type { BTreeMap::<K, V>::type_info() }
}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> { type Target = BTreeMap<K, V>; fn deref(&self) -> &BTreeMap<K, V> { &self.0 } }
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
    pub fn new() -> Self { Self::default() }
    pub fn bound() -> usize { S::get() as usize }
    pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
        if self.0.len() < Self::bound() || self.0.contains_key(&k) { Ok(self.0.insert(k, v)) } else { Err((k, v)) }
    }
    pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V> where K: std::borrow::Borrow<Q> { self.0.remove(k) }
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: std::borrow::Borrow<Q> { self.0.get_mut(k) }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) { self.0.retain(f) }
    pub fn into_inner(self) -> BTreeMap<K, V> { self.0 }
    pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> { self.0.iter_mut() }
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
    type Error = ();
    fn try_from(v: BTreeMap<K, V>) -> Result<Self, ()> { (v.len() <= Self::bound()).then_some(Self(v, PhantomData)).ok_or(()) }
}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = std::collections::btree_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}

pub struct BoundedBTreeSet<T, S>(BTreeSet<T>, PhantomData<S>);
impl<T: Clone, S> Clone for BoundedBTreeSet<T, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
impl<T: fmt::Debug, S> fmt::Debug for BoundedBTreeSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl<T, S> Default for BoundedBTreeSet<T, S> { fn default() -> Self { Self(BTreeSet::new(), PhantomData) } }
impl<T: PartialEq, S> PartialEq for BoundedBTreeSet<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Eq, S> Eq for BoundedBTreeSet<T, S> {}
impl<T: Encode, S> Encode for BoundedBTreeSet<T, S> { fn encode_to<O: codec::Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) } }
impl<T: Encode, S> EncodeLike for BoundedBTreeSet<T, S> {}
impl<T: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<T, S> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
        let v = BTreeSet::<T>::decode(i)?;
        if v.len() > S::get() as usize { return Err("BoundedBTreeSet exceeds its limit".into()); }
        Ok(Self(v, PhantomData))
    }
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<T, S> {
    fn max_encoded_len() -> usize { 5 + (S::get() as usize).saturating_mul(T::max_encoded_len()) }
}
impl<T: TypeInfo + 'static, S: 'static> TypeInfo for BoundedBTreeSet<T, S> {
    type Identity = BTreeSet<T>;
    fn type_info() -> Type { BTreeSet::<T>::type_info() }
}
impl<T, S> Deref for BoundedBTreeSet<T, S> { type Target = BTreeSet<T>; fn deref(&self) -> &BTreeSet<T> { &self.0 } }
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> {
    pub fn new() -> Self { Self::default() }
    pub fn bound() -> usize { S::get() as usize }
    pub fn try_insert(&mut self, t: T) -> Result<bool, T> {
        if self.0.len() < Self::bound() || self.0.contains(&t) { Ok(self.0.insert(t)) } else { Err(t) }
    }
    pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool where T: std::borrow::Borrow<Q> { self.0.remove(k) }
    pub fn into_inner(self) -> BTreeSet<T> { self.0 }
}
impl<T: Ord, S: Get<u32>> TryFrom<BTreeSet<T>> for BoundedBTreeSet<T, S> {
    type Error = ();
    fn try_from(v: BTreeSet<T>) -> Result<Self, ()> { (v.len() <= Self::bound()).then_some(Self(v, PhantomData)).ok_or(()) }
}
