//! Storage types.
use super::*;
use crate::hash::{ReversibleStorageHasher, StorageHasher};
use crate::traits::{Get, GetDefault, StorageInstance};
use codec::{Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use std::marker::PhantomData;

pub trait QueryKindTrait<V, OnEmpty> {
    type Query;
    fn from_optional(v: Option<V>) -> Self::Query;
    fn to_optional(q: Self::Query) -> Option<V>;
}
pub struct OptionQuery;
impl<V> QueryKindTrait<V, GetDefault> for OptionQuery {
    type Query = Option<V>;
    fn from_optional(v: Option<V>) -> Option<V> { v }
    fn to_optional(q: Option<V>) -> Option<V> { q }
}
pub struct ValueQuery;
impl<V, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
    type Query = V;
    fn from_optional(v: Option<V>) -> V { v.unwrap_or_else(O::get) }
    fn to_optional(q: V) -> Option<V> { Some(q) }
}
pub struct ResultQuery<E>(PhantomData<E>);
pub trait CountedStorageMapInstance: StorageInstance { type CounterPrefix: StorageInstance; }

fn prefix<P: StorageInstance>() -> [u8; 32] { prefix_of(P::pallet_prefix(), P::STORAGE_PREFIX) }
fn put_opt<V: Encode>(k: &[u8], v: Option<V>) { match v { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }

/// The shared operations on one key.
macro_rules! one_key_ops { () => {
    fn raw_get(k: &[u8]) -> Qk::Query { Qk::from_optional(unhashed::get::<V>(k)) }
    fn raw_try_mutate<R, E, F: FnOnce(&mut Qk::Query) -> Result<R, E>>(k: &[u8], f: F) -> Result<R, E> {
        let mut v = Self::raw_get(k);
        let r = f(&mut v);
        if r.is_ok() { put_opt::<V>(k, Qk::to_optional(v)) }
        r
    }
    fn raw_try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: &[u8], f: F) -> Result<R, E> {
        let mut v = unhashed::get::<V>(k);
        let r = f(&mut v);
        if r.is_ok() { put_opt::<V>(k, v) }
        r
    }
    fn raw_append<I: Encode>(k: &[u8], item: I) where V: StorageAppendable<I> {
        let v = unhashed::get_raw(k).unwrap_or_else(|| codec::Compact(0u32).encode());
        unhashed::put_raw(k, &<V as StorageAppendable<I>>::append_raw(v, item));
    }
}; }
pub trait StorageAppendable<I> { fn append_raw(v: Vec<u8>, i: I) -> Vec<u8>; fn bound() -> Option<u32> { None } }
fn append_any<I: Encode>(v: Vec<u8>, i: I) -> Vec<u8> { let i = i.encode(); append_bytes(v, &i) }
fn append_bytes(v: Vec<u8>, i: &[u8]) -> Vec<u8> {
    let c = codec::Compact::<u32>::decode(&mut &v[..]).map(|x| x.0).unwrap_or(0);
    let hl = codec::Compact(c).encode().len().min(v.len());
    let mut o = codec::Compact(c + 1).encode();
    o.extend_from_slice(&v[hl..]);
    o.extend_from_slice(i);
    o
}
impl<T: Encode, I: EncodeLike<T>> StorageAppendable<I> for Vec<T> { fn append_raw(v: Vec<u8>, i: I) -> Vec<u8> { append_any(v, i) } }
impl<T: Encode, S: Get<u32>, I: EncodeLike<T>> StorageAppendable<I> for sp_core::BoundedVec<T, S> { fn append_raw(v: Vec<u8>, i: I) -> Vec<u8> { append_any(v, i) } fn bound() -> Option<u32> { Some(S::get()) } }

pub struct StorageValue<P, V, Qk = OptionQuery, OnEmpty = GetDefault>(PhantomData<(P, V, Qk, OnEmpty)>);
impl<P: StorageInstance, V: FullCodec, Qk: QueryKindTrait<V, O>, O> StorageValue<P, V, Qk, O> {
    one_key_ops!();
    pub fn hashed_key() -> [u8; 32] { prefix::<P>() }
    pub fn exists() -> bool { unhashed::exists(&Self::hashed_key()) }
    pub fn get() -> Qk::Query { Self::raw_get(&Self::hashed_key()) }
    pub fn try_get() -> Result<V, ()> { unhashed::get(&Self::hashed_key()).ok_or(()) }
    pub fn put<A: EncodeLike<V>>(v: A) { unhashed::put(&Self::hashed_key(), &v) }
    pub fn set(q: Qk::Query) { put_opt::<V>(&Self::hashed_key(), Qk::to_optional(q)) }
    pub fn mutate<R, F: FnOnce(&mut Qk::Query) -> R>(f: F) -> R { Self::raw_try_mutate::<R, std::convert::Infallible, _>(&Self::hashed_key(), |v| Ok(f(v))).unwrap() }
    pub fn mutate_extant<R: Default, F: FnOnce(&mut V) -> R>(f: F) -> R { Self::mutate_exists(|m| m.as_mut().map(f)).unwrap_or_default() }
    pub fn try_mutate<R, E, F: FnOnce(&mut Qk::Query) -> Result<R, E>>(f: F) -> Result<R, E> { Self::raw_try_mutate(&Self::hashed_key(), f) }
    pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R { Self::raw_try_mutate_exists::<R, std::convert::Infallible, _>(&Self::hashed_key(), |v| Ok(f(v))).unwrap() }
    pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> { Self::raw_try_mutate_exists(&Self::hashed_key(), f) }
    pub fn kill() { unhashed::kill(&Self::hashed_key()) }
    pub fn take() -> Qk::Query { let v = Self::get(); Self::kill(); v }
    pub fn append<I: Encode>(i: I) where V: StorageAppendable<I> { Self::raw_append(&Self::hashed_key(), i) }
    pub fn try_append<I: Encode>(i: I) -> Result<(), ()> where V: StorageAppendable<I> {
        if let Some(b) = V::bound() { if Self::decode_len().unwrap_or(0) as u32 >= b { return Err(()); } }
        Self::append(i);
        Ok(())
    }
    pub fn decode_len() -> Option<usize> { unhashed::get::<codec::Compact<u32>>(&Self::hashed_key()).map(|c| c.0 as usize) }
    pub fn translate<Old: Decode, F: FnOnce(Option<Old>) -> Option<V>>(f: F) -> Result<Option<V>, ()> where V: Clone {
        let k = Self::hashed_key();
        let old = match unhashed::get_raw(&k) { Some(r) => Some(Old::decode(&mut &r[..]).map_err(|_| ())?), None => None };
        let n = f(old);
        put_opt::<V>(&k, n.clone());
        Ok(n)
    }
}

pub struct StorageMap<P, H, K, V, Qk = OptionQuery, OnEmpty = GetDefault, Max = GetDefault>(PhantomData<(P, H, K, V, Qk, OnEmpty, Max)>);
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Qk, O, M> {
    one_key_ops!();
    pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
        let h = k.using_encoded(H::hash);
        let mut v = Vec::with_capacity(32 + h.as_ref().len());
        v.extend_from_slice(&prefix::<P>());
        v.extend_from_slice(h.as_ref());
        v
    }
    pub fn migrate_key<Old: StorageHasher, A: EncodeLike<K>>(k: A) -> Option<V> {
        let mut old = prefix::<P>().to_vec();
        old.extend_from_slice(k.using_encoded(Old::hash).as_ref());
        let v = unhashed::get::<V>(&old);
        unhashed::kill(&old);
        if let Some(v) = &v { unhashed::put(&Self::hashed_key_for(k), v); }
        v
    }
    pub fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
    pub fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
    pub fn final_prefix() -> [u8; 32] { prefix::<P>() }
    pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { unhashed::exists(&Self::hashed_key_for(k)) }
    pub fn get<A: EncodeLike<K>>(k: A) -> Qk::Query { Self::raw_get(&Self::hashed_key_for(k)) }
    pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(k)).ok_or(()) }
    pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { unhashed::put(&Self::hashed_key_for(k), &v) }
    pub fn set<A: EncodeLike<K>>(k: A, q: Qk::Query) { put_opt::<V>(&Self::hashed_key_for(k), Qk::to_optional(q)) }
    pub fn remove<A: EncodeLike<K>>(k: A) { unhashed::kill(&Self::hashed_key_for(k)) }
    pub fn take<A: EncodeLike<K>>(k: A) -> Qk::Query { let k = Self::hashed_key_for(k); let v = Self::raw_get(&k); unhashed::kill(&k); v }
    pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
        let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
        let (x, y) = (unhashed::get::<V>(&a), unhashed::get::<V>(&b));
        put_opt::<V>(&a, y);
        put_opt::<V>(&b, x);
    }
    pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Qk::Query) -> R>(k: A, f: F) -> R { Self::raw_try_mutate::<R, std::convert::Infallible, _>(&Self::hashed_key_for(k), |v| Ok(f(v))).unwrap() }
    pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut Qk::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { Self::raw_try_mutate(&Self::hashed_key_for(k), f) }
    pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { Self::raw_try_mutate_exists::<R, std::convert::Infallible, _>(&Self::hashed_key_for(k), |v| Ok(f(v))).unwrap() }
    pub fn mutate_extant<A: EncodeLike<K>, R: Default, F: FnOnce(&mut V) -> R>(k: A, f: F) -> R { Self::mutate_exists(k, |m| m.as_mut().map(f)).unwrap_or_default() }
    pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { Self::raw_try_mutate_exists(&Self::hashed_key_for(k), f) }
    pub fn append<A: EncodeLike<K>, I: Encode>(k: A, i: I) where V: StorageAppendable<I> { Self::raw_append(&Self::hashed_key_for(k), i) }
    pub fn try_append<A: EncodeLike<K> + Clone, I: Encode>(k: A, i: I) -> Result<(), ()> where V: StorageAppendable<I> {
        if let Some(b) = V::bound() { if Self::decode_len(k.clone()).unwrap_or(0) as u32 >= b { return Err(()); } }
        Self::append(k, i);
        Ok(())
    }
    pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize> { unhashed::get::<codec::Compact<u32>>(&Self::hashed_key_for(k)).map(|c| c.0 as usize) }
    pub fn iter_values() -> PrefixIterator<V> { let p = prefix::<P>().to_vec(); PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v)) }
    pub fn remove_all(limit: Option<u32>) -> (bool, u32) { unhashed::clear_prefix(&prefix::<P>(), limit) }
    pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { let (all, n) = unhashed::clear_prefix(&prefix::<P>(), Some(limit)); MultiRemovalResults { maybe_cursor: if all { None } else { Some(vec![]) }, backend: n, unique: n, loops: n } }
    pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(mut f: F) {
        for k in sp_io::storage::keys_with_prefix(&prefix::<P>()) { if let Some(o) = unhashed::get::<Old>(&k) { put_opt::<V>(&k, f(o)) } }
    }
}
pub struct MultiRemovalResults { pub maybe_cursor: Option<Vec<u8>>, pub backend: u32, pub unique: u32, pub loops: u32 }
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Qk, O, M> {
    pub fn iter() -> PrefixIterator<(K, V)> { let p = prefix::<P>().to_vec(); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?))) }
    pub fn iter_from(start: Vec<u8>) -> PrefixIterator<(K, V)> { let p = prefix::<P>().to_vec(); PrefixIterator::new(p, start, |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?))) }
    pub fn iter_keys() -> KeyPrefixIterator<K> { let p = prefix::<P>().to_vec(); KeyPrefixIterator::new(p.clone(), p, |k| K::decode(&mut H::reverse(k))) }
    pub fn drain() -> PrefixIterator<(K, V)> { Self::iter().drain() }
    pub fn translate<Old: Decode, F: FnMut(K, Old) -> Option<V>>(mut f: F) {
        let p = prefix::<P>();
        for k in sp_io::storage::keys_with_prefix(&p) {
            let Ok(key) = K::decode(&mut H::reverse(&k[p.len()..])) else { continue };
            if let Some(o) = unhashed::get::<Old>(&k) { put_opt::<V>(&k, f(key, o)) }
        }
    }
}
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> StoragePrefixedMap<V> for StorageMap<P, H, K, V, Qk, O, M> {
    fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
    fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
}

pub struct CountedStorageMap<P, H, K, V, Qk = OptionQuery, OnEmpty = GetDefault, Max = GetDefault>(PhantomData<(P, H, K, V, Qk, OnEmpty, Max)>);
impl<P: CountedStorageMapInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Qk, O, M> {
    fn adj(was: bool, is: bool) {
        let k = prefix::<P::CounterPrefix>();
        let c: u32 = unhashed::get_or_default(&k);
        if was && !is { unhashed::put(&k, &c.saturating_sub(1)) } else if !was && is { unhashed::put(&k, &c.saturating_add(1)) }
    }
    fn mk<A: EncodeLike<K>>(k: A) -> Vec<u8> { StorageMap::<P, H, K, V, Qk, O, M>::hashed_key_for(k) }
    fn around<R>(k: &[u8], f: impl FnOnce() -> R) -> R { let was = unhashed::exists(k); let r = f(); Self::adj(was, unhashed::exists(k)); r }
    pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { Self::mk(k) }
    pub fn count() -> u32 { unhashed::get_or_default(&prefix::<P::CounterPrefix>()) }
    pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { unhashed::exists(&Self::mk(k)) }
    pub fn get<A: EncodeLike<K>>(k: A) -> Qk::Query { StorageMap::<P, H, K, V, Qk, O, M>::get(k) }
    pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { StorageMap::<P, H, K, V, Qk, O, M>::try_get(k) }
    pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { let k = Self::mk(k); Self::around(&k, || unhashed::put(&k, &v)) }
    pub fn remove<A: EncodeLike<K>>(k: A) { let k = Self::mk(k); Self::around(&k, || unhashed::kill(&k)) }
    pub fn take<A: EncodeLike<K>>(k: A) -> Qk::Query { let k = Self::mk(k); Self::around(&k, || { let v = unhashed::get::<V>(&k); unhashed::kill(&k); Qk::from_optional(v) }) }
    pub fn mutate<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Qk::Query) -> R>(k: A, f: F) -> R { let h = Self::mk(k.clone()); Self::around(&h, || StorageMap::<P, H, K, V, Qk, O, M>::mutate(k, f)) }
    pub fn try_mutate<A: EncodeLike<K> + Clone, R, E, F: FnOnce(&mut Qk::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { let h = Self::mk(k.clone()); Self::around(&h, || StorageMap::<P, H, K, V, Qk, O, M>::try_mutate(k, f)) }
    pub fn mutate_exists<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { let h = Self::mk(k.clone()); Self::around(&h, || StorageMap::<P, H, K, V, Qk, O, M>::mutate_exists(k, f)) }
    pub fn try_mutate_exists<A: EncodeLike<K> + Clone, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { let h = Self::mk(k.clone()); Self::around(&h, || StorageMap::<P, H, K, V, Qk, O, M>::try_mutate_exists(k, f)) }
    pub fn iter_values() -> PrefixIterator<V> { StorageMap::<P, H, K, V, Qk, O, M>::iter_values() }
    pub fn remove_all() { StorageMap::<P, H, K, V, Qk, O, M>::remove_all(None); unhashed::kill(&prefix::<P::CounterPrefix>()) }
}
pub struct CountedOnRemoval<P>(PhantomData<P>);
impl<P: CountedStorageMapInstance> PrefixIteratorOnRemoval for CountedOnRemoval<P> {
    fn on_removal(_: &[u8], _: &[u8]) { let k = prefix::<P::CounterPrefix>(); let c: u32 = unhashed::get_or_default(&k); unhashed::put(&k, &c.saturating_sub(1)) }
}
impl<P: CountedStorageMapInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Qk, O, M> {
    pub fn iter() -> PrefixIterator<(K, V), CountedOnRemoval<P>> { let p = prefix::<P>().to_vec(); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?))) }
    pub fn iter_keys() -> KeyPrefixIterator<K> { StorageMap::<P, H, K, V, Qk, O, M>::iter_keys() }
    pub fn drain() -> PrefixIterator<(K, V), CountedOnRemoval<P>> { Self::iter().drain() }
}

pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Qk = OptionQuery, OnEmpty = GetDefault, Max = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Qk, OnEmpty, Max)>);
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Qk, O, M> {
    one_key_ops!();
    fn p1<A: EncodeLike<K1>>(k: A) -> Vec<u8> { let mut v = prefix::<P>().to_vec(); v.extend_from_slice(k.using_encoded(H1::hash).as_ref()); v }
    pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> { let mut v = Self::p1(a); v.extend_from_slice(b.using_encoded(H2::hash).as_ref()); v }
    pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool { unhashed::exists(&Self::hashed_key_for(a, b)) }
    pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Qk::Query { Self::raw_get(&Self::hashed_key_for(a, b)) }
    pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(a, b)).ok_or(()) }
    pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) { unhashed::put(&Self::hashed_key_for(a, b), &v) }
    pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Qk::Query) { put_opt::<V>(&Self::hashed_key_for(a, b), Qk::to_optional(q)) }
    pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) { unhashed::kill(&Self::hashed_key_for(a, b)) }
    pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Qk::Query { let k = Self::hashed_key_for(a, b); let v = Self::raw_get(&k); unhashed::kill(&k); v }
    pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Qk::Query) -> R>(a: A, b: B, f: F) -> R { Self::raw_try_mutate::<R, std::convert::Infallible, _>(&Self::hashed_key_for(a, b), |v| Ok(f(v))).unwrap() }
    pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Qk::Query) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> { Self::raw_try_mutate(&Self::hashed_key_for(a, b), f) }
    pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R { Self::raw_try_mutate_exists::<R, std::convert::Infallible, _>(&Self::hashed_key_for(a, b), |v| Ok(f(v))).unwrap() }
    pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> { Self::raw_try_mutate_exists(&Self::hashed_key_for(a, b), f) }
    pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, I: Encode>(a: A, b: B, i: I) where V: StorageAppendable<I> { Self::raw_append(&Self::hashed_key_for(a, b), i) }
    pub fn iter_values() -> PrefixIterator<V> { let p = prefix::<P>().to_vec(); PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v)) }
    pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> PrefixIterator<V> { let p = Self::p1(a); PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v)) }
    pub fn remove_prefix<A: EncodeLike<K1>>(a: A, limit: Option<u32>) -> (bool, u32) { unhashed::clear_prefix(&Self::p1(a), limit) }
    pub fn clear_prefix<A: EncodeLike<K1>>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { let (all, n) = unhashed::clear_prefix(&Self::p1(a), Some(limit)); MultiRemovalResults { maybe_cursor: if all { None } else { Some(vec![]) }, backend: n, unique: n, loops: n } }
    pub fn remove_all(limit: Option<u32>) -> (bool, u32) { unhashed::clear_prefix(&prefix::<P>(), limit) }
    pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool { unhashed::contains_prefixed_key(&Self::p1(a)) }
    pub fn final_prefix() -> [u8; 32] { prefix::<P>() }
}
impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Qk, O, M> {
    pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { let p = Self::p1(a); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((K2::decode(&mut H2::reverse(k))?, V::decode(&mut v)?))) }
    pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> KeyPrefixIterator<K2> { let p = Self::p1(a); KeyPrefixIterator::new(p.clone(), p, |k| K2::decode(&mut H2::reverse(k))) }
    pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { Self::iter_prefix(a).drain() }
    pub fn iter() -> PrefixIterator<(K1, K2, V)> {
        let p = prefix::<P>().to_vec();
        PrefixIterator::new(p.clone(), p, |k, mut v| { let mut r = H1::reverse(k); let a = K1::decode(&mut r)?; let b = K2::decode(&mut H2::reverse(r))?; Ok((a, b, V::decode(&mut v)?)) })
    }
    pub fn iter_keys() -> KeyPrefixIterator<(K1, K2)> {
        let p = prefix::<P>().to_vec();
        KeyPrefixIterator::new(p.clone(), p, |k| { let mut r = H1::reverse(k); let a = K1::decode(&mut r)?; let b = K2::decode(&mut H2::reverse(r))?; Ok((a, b)) })
    }
    pub fn drain() -> PrefixIterator<(K1, K2, V)> { Self::iter().drain() }
}
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> StoragePrefixedMap<V> for StorageDoubleMap<P, H1, K1, H2, K2, V, Qk, O, M> {
    fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
    fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
}

// --- n-maps ---
pub struct Key<H, K>(PhantomData<(H, K)>);
pub trait KeyGenerator {
    type Key: FullCodec;
    type KArg: Encode;
    /// hash the encoded key parts
    fn hash_parts(parts: &[Vec<u8>]) -> Vec<u8>;
    fn decode_final(k: &[u8]) -> Result<Self::Key, codec::Error>;
}
pub trait TupleToEncodedIter { fn to_parts(&self) -> Vec<Vec<u8>>; }
pub trait EncodeLikeTuple<T> {}
pub trait ReversibleKeyGenerator: KeyGenerator {}
pub trait HasKeyPrefix<P>: KeyGenerator {
    type Suffix: FullCodec;
    fn decode_suffix(k: &[u8]) -> Result<Self::Suffix, codec::Error>;
    fn partial(p: &P) -> Vec<u8>;
}
pub trait HasReversibleKeyPrefix<P>: HasKeyPrefix<P> {}
impl<P, T: HasKeyPrefix<P>> HasReversibleKeyPrefix<P> for T {}
/// Reversal of a hasher when it has one (`iter` on irreversible hashers does not occur).
fn rev<H: StorageHasher>(x: &[u8]) -> &[u8] {
    let empty = H::hash(&[]).as_ref().len();
    &x[empty..]
}
impl<H: StorageHasher, K: FullCodec> KeyGenerator for Key<H, K> {
    type Key = K;
    type KArg = (K,);
    fn hash_parts(p: &[Vec<u8>]) -> Vec<u8> { H::hash(&p[0]).as_ref().to_vec() }
    fn decode_final(k: &[u8]) -> Result<K, codec::Error> { K::decode(&mut rev::<H>(k)) }
}
macro_rules! tuples { ($($h:ident $k:ident $a:ident $i:tt),+) => {
    impl<$($h: StorageHasher, $k: FullCodec),+> KeyGenerator for ($(Key<$h, $k>,)+) {
        type Key = ($($k,)+);
        type KArg = ($($k,)+);
        fn hash_parts(p: &[Vec<u8>]) -> Vec<u8> { let mut o = Vec::new(); $( if let Some(x) = p.get($i) { o.extend_from_slice($h::hash(x).as_ref()); } )+ o }
        #[allow(unused_assignments)]
        fn decode_final(k: &[u8]) -> Result<Self::Key, codec::Error> { let mut r = k; Ok(($({ r = rev::<$h>(r); $k::decode(&mut r)? },)+)) }
    }
    impl<$($k: Encode),+> TupleToEncodedIter for ($($k,)+) { fn to_parts(&self) -> Vec<Vec<u8>> { vec![$(self.$i.encode()),+] } }
    impl<$($k, $a: EncodeLike<$k>),+> EncodeLikeTuple<($($k,)+)> for ($($a,)+) where $($k: Encode),+ {}
}; }
tuples!(H0 K0 A0 0);
tuples!(H0 K0 A0 0, H1 K1 A1 1);
tuples!(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2);
tuples!(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2, H3 K3 A3 3);
macro_rules! keyprefix { ([$($h:ident $k:ident),+] [$($ph:ident $pk:ident $pi:tt),+] [$($sh:ident $sk:ident),+]) => {
    impl<$($h: StorageHasher, $k: FullCodec),+> HasKeyPrefix<($($pk,)+)> for ($(Key<$h, $k>,)+) {
        type Suffix = KpSuffix<($($sk,)+)>;
        #[allow(unused_assignments)]
        fn decode_suffix(k: &[u8]) -> Result<Self::Suffix, codec::Error> { let mut r = k; Ok(KpSuffix(($({ r = rev::<$sh>(r); $sk::decode(&mut r)? },)+))) }
        fn partial(p: &($($pk,)+)) -> Vec<u8> { let mut o = Vec::new(); $( o.extend_from_slice(p.$pi.using_encoded($ph::hash).as_ref()); )+ o }
    }
}; }
/// The remaining key parts (a tuple; single parts are unwrapped by `Unwrap1`).
#[derive(Encode, Decode)]
pub struct KpSuffix<T>(pub T);
pub trait Unwrap { type Out; fn unwrap_suffix(self) -> Self::Out; }
impl<A> Unwrap for KpSuffix<(A,)> { type Out = A; fn unwrap_suffix(self) -> A { self.0 .0 } }
impl<A, B> Unwrap for KpSuffix<(A, B)> { type Out = (A, B); fn unwrap_suffix(self) -> (A, B) { self.0 } }
impl<A, B, C> Unwrap for KpSuffix<(A, B, C)> { type Out = (A, B, C); fn unwrap_suffix(self) -> (A, B, C) { self.0 } }
keyprefix!([H0 K0, H1 K1] [H0 K0 0] [H1 K1]);
keyprefix!([H0 K0, H1 K1, H2 K2] [H0 K0 0] [H1 K1, H2 K2]);
keyprefix!([H0 K0, H1 K1, H2 K2] [H0 K0 0, H1 K1 1] [H2 K2]);

pub struct StorageNMap<P, Key, V, Qk = OptionQuery, OnEmpty = GetDefault, Max = GetDefault>(PhantomData<(P, Key, V, Qk, OnEmpty, Max)>);
impl<P: StorageInstance, K: KeyGenerator, V: FullCodec, Qk: QueryKindTrait<V, O>, O, M> StorageNMap<P, K, V, Qk, O, M> {
    one_key_ops!();
    pub fn hashed_key_for<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A) -> Vec<u8> { let mut v = prefix::<P>().to_vec(); v.extend(K::hash_parts(&k.to_parts())); v }
    pub fn contains_key<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A) -> bool { unhashed::exists(&Self::hashed_key_for(k)) }
    pub fn get<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A) -> Qk::Query { Self::raw_get(&Self::hashed_key_for(k)) }
    pub fn try_get<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(k)).ok_or(()) }
    pub fn insert<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, B: EncodeLike<V>>(k: A, v: B) { unhashed::put(&Self::hashed_key_for(k), &v) }
    pub fn set<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A, q: Qk::Query) { put_opt::<V>(&Self::hashed_key_for(k), Qk::to_optional(q)) }
    pub fn remove<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A) { unhashed::kill(&Self::hashed_key_for(k)) }
    pub fn take<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A) -> Qk::Query { let k = Self::hashed_key_for(k); let v = Self::raw_get(&k); unhashed::kill(&k); v }
    pub fn mutate<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, F: FnOnce(&mut Qk::Query) -> R>(k: A, f: F) -> R { Self::raw_try_mutate::<R, std::convert::Infallible, _>(&Self::hashed_key_for(k), |v| Ok(f(v))).unwrap() }
    pub fn try_mutate<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, E, F: FnOnce(&mut Qk::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { Self::raw_try_mutate(&Self::hashed_key_for(k), f) }
    pub fn mutate_exists<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { Self::raw_try_mutate_exists::<R, std::convert::Infallible, _>(&Self::hashed_key_for(k), |v| Ok(f(v))).unwrap() }
    pub fn try_mutate_exists<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { Self::raw_try_mutate_exists(&Self::hashed_key_for(k), f) }
    pub fn iter_values() -> PrefixIterator<V> { let p = prefix::<P>().to_vec(); PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v)) }
    pub fn iter() -> PrefixIterator<(K::Key, V)> { let p = prefix::<P>().to_vec(); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((K::decode_final(k)?, V::decode(&mut v)?))) }
    pub fn iter_keys() -> KeyPrefixIterator<K::Key> { let p = prefix::<P>().to_vec(); KeyPrefixIterator::new(p.clone(), p, |k| K::decode_final(k)) }
    pub fn drain() -> PrefixIterator<(K::Key, V)> { Self::iter().drain() }
    pub fn iter_prefix<Kp>(kp: Kp) -> PrefixIterator<(<K::Suffix as Unwrap>::Out, V)> where K: HasKeyPrefix<Kp>, K::Suffix: Unwrap {
        let mut p = prefix::<P>().to_vec();
        p.extend(K::partial(&kp));
        PrefixIterator::new(p.clone(), p, |k, mut v| Ok((K::decode_suffix(k)?.unwrap_suffix(), V::decode(&mut v)?)))
    }
    pub fn iter_key_prefix<Kp>(kp: Kp) -> KeyPrefixIterator<<K::Suffix as Unwrap>::Out> where K: HasKeyPrefix<Kp>, K::Suffix: Unwrap {
        let mut p = prefix::<P>().to_vec();
        p.extend(K::partial(&kp));
        KeyPrefixIterator::new(p.clone(), p, |k| Ok(K::decode_suffix(k)?.unwrap_suffix()))
    }
    pub fn iter_prefix_values<Kp>(kp: Kp) -> PrefixIterator<V> where K: HasKeyPrefix<Kp> {
        let mut p = prefix::<P>().to_vec();
        p.extend(K::partial(&kp));
        PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v))
    }
    pub fn drain_prefix<Kp>(kp: Kp) -> PrefixIterator<(<K::Suffix as Unwrap>::Out, V)> where K: HasKeyPrefix<Kp>, K::Suffix: Unwrap { Self::iter_prefix(kp).drain() }
    pub fn clear_prefix<Kp>(kp: Kp, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults where K: HasKeyPrefix<Kp> {
        let mut p = prefix::<P>().to_vec();
        p.extend(K::partial(&kp));
        let (all, n) = unhashed::clear_prefix(&p, Some(limit));
        MultiRemovalResults { maybe_cursor: if all { None } else { Some(vec![]) }, backend: n, unique: n, loops: n }
    }
}
#[allow(unused)]
fn _m<T: MaxEncodedLen>() {}
