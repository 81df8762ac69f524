//! Storage: same key layout and hashers as the real crate, on the per-thread state of `sp-io`.
use codec::{Decode, Encode, FullCodec};
pub mod migration;
pub mod types;
pub mod unhashed;
pub mod hashed {}
pub mod bounded_vec { pub use sp_core::BoundedVec; }
pub mod bounded_btree_map { pub use sp_core::BoundedBTreeMap; }
pub mod bounded_btree_set { pub use sp_core::BoundedBTreeSet; }
pub mod weak_bounded_vec { pub use sp_core::WeakBoundedVec; }
pub use sp_runtime::TransactionOutcome;
pub use transactional::{with_storage_layer, with_transaction, with_transaction_unchecked, in_storage_layer};
pub trait StorageList<T> {}

pub fn storage_prefix(pallet_name: &[u8], storage_name: &[u8]) -> [u8; 32] {
    let mut r = [0u8; 32];
    r[..16].copy_from_slice(&sp_core::twox_128(pallet_name));
    r[16..].copy_from_slice(&sp_core::twox_128(storage_name));
    r
}
thread_local! {
    static PREFIXES: std::cell::RefCell<std::collections::HashMap<(usize, usize, usize), [u8; 32]>> = Default::default();
}
/// Same value as `storage_prefix`, memoised per (pallet name, storage name) pointers of `'static` strings.
pub(crate) fn prefix_of(p: &'static str, s: &'static str) -> [u8; 32] {
    let k = (p.as_ptr() as usize, s.as_ptr() as usize, p.len() * 1000 + s.len());
    PREFIXES.with(|m| {
        if let Some(x) = m.borrow().get(&k) { return *x; }
        let v = storage_prefix(p.as_bytes(), s.as_bytes());
        m.borrow_mut().insert(k, v);
        v
    })
}

pub mod transactional {
    use super::TransactionOutcome;
    use sp_runtime::{DispatchError, TransactionalError};
    use std::cell::Cell;
    pub type Layer = u32;
    pub const TRANSACTIONAL_LIMIT: Layer = 255;
    thread_local! { static LEVEL: Cell<Layer> = const { Cell::new(0) }; }
    pub fn get_transaction_level() -> Layer { LEVEL.with(|l| l.get()) }
    pub fn is_transactional() -> bool { get_transaction_level() > 0 }
    struct Guard { open: bool }
    impl Guard {
        fn new() -> Result<Self, ()> {
            if get_transaction_level() >= TRANSACTIONAL_LIMIT { return Err(()); }
            LEVEL.with(|l| l.set(l.get() + 1));
            sp_io::storage::start_transaction();
            Ok(Guard { open: true })
        }
        fn commit(mut self) { self.open = false; sp_io::storage::commit_transaction(); }
        fn rollback(mut self) { self.open = false; sp_io::storage::rollback_transaction(); }
    }
    impl Drop for Guard {
        fn drop(&mut self) {
            // a panic aborts the block: everything done in the layer is undone
            if self.open { sp_io::storage::rollback_transaction(); }
            LEVEL.with(|l| l.set(l.get() - 1));
        }
    }
    pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
    where
        E: From<DispatchError>,
        F: FnOnce() -> TransactionOutcome<Result<T, E>>,
    {
        let g = Guard::new().map_err(|()| TransactionalError::LimitReached.into())?;
        match f() {
            TransactionOutcome::Commit(r) => { g.commit(); r }
            TransactionOutcome::Rollback(r) => { g.rollback(); r }
        }
    }
    pub fn with_transaction_unchecked<R, F: FnOnce() -> TransactionOutcome<R>>(f: F) -> R {
        let g = Guard::new().ok().expect("layer limit");
        match f() {
            TransactionOutcome::Commit(r) => { g.commit(); r }
            TransactionOutcome::Rollback(r) => { g.rollback(); r }
        }
    }
    pub fn with_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
        with_transaction(|| {
            let r = f();
            if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) }
        })
    }
    pub fn in_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
        if is_transactional() { f() } else { with_storage_layer(f) }
    }
}

/// Iterator over the keys with a prefix, in key order, tolerant of changes made while iterating.
pub struct PrefixIterator<T, OnRemoval = ()> {
    prefix: Vec<u8>,
    previous_key: Vec<u8>,
    drain: bool,
    closure: fn(&[u8], &[u8]) -> Result<T, codec::Error>,
    _p: std::marker::PhantomData<OnRemoval>,
}
pub trait PrefixIteratorOnRemoval { fn on_removal(_k: &[u8], _v: &[u8]) {} }
impl PrefixIteratorOnRemoval for () {}
impl<T, O> PrefixIterator<T, O> {
    pub fn new(prefix: Vec<u8>, previous_key: Vec<u8>, closure: fn(&[u8], &[u8]) -> Result<T, codec::Error>) -> Self {
        Self { prefix, previous_key, drain: false, closure, _p: Default::default() }
    }
    pub fn drain(mut self) -> Self { self.drain = true; self }
    pub fn last_raw_key(&self) -> &[u8] { &self.previous_key }
    pub fn prefix(&self) -> &[u8] { &self.prefix }
}
impl<T, O: PrefixIteratorOnRemoval> Iterator for PrefixIterator<T, O> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        loop {
            let n = sp_io::storage::next_key(&self.previous_key).filter(|n| n.starts_with(&self.prefix))?;
            self.previous_key = n;
            let raw = match unhashed::get_raw(&self.previous_key) { Some(r) => r, None => continue };
            if self.drain {
                unhashed::kill(&self.previous_key);
                O::on_removal(&self.previous_key, &raw);
            }
            match (self.closure)(&self.previous_key[self.prefix.len()..], &raw) {
                Ok(x) => return Some(x),
                Err(_) => continue,
            }
        }
    }
}
pub struct KeyPrefixIterator<T> {
    prefix: Vec<u8>,
    previous_key: Vec<u8>,
    closure: fn(&[u8]) -> Result<T, codec::Error>,
}
impl<T> KeyPrefixIterator<T> {
    pub fn new(prefix: Vec<u8>, previous_key: Vec<u8>, closure: fn(&[u8]) -> Result<T, codec::Error>) -> Self { Self { prefix, previous_key, closure } }
    pub fn last_raw_key(&self) -> &[u8] { &self.previous_key }
}
impl<T> Iterator for KeyPrefixIterator<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        loop {
            let n = sp_io::storage::next_key(&self.previous_key).filter(|n| n.starts_with(&self.prefix))?;
            self.previous_key = n;
            match (self.closure)(&self.previous_key[self.prefix.len()..]) {
                Ok(x) => return Some(x),
                Err(_) => continue,
            }
        }
    }
}

// Traits named like the real ones; the storage types have the operations as inherent methods.
pub trait StorageValue<T: FullCodec> { type Query; }
pub trait StorageMap<K: FullCodec, V: FullCodec> { type Query; }
pub trait StorageDoubleMap<K1: FullCodec, K2: FullCodec, V: FullCodec> { type Query; }
pub trait StorageNMap<K, V: FullCodec> { type Query; }
pub trait IterableStorageMap<K: FullCodec, V: FullCodec> {}
pub trait IterableStorageDoubleMap<K1: FullCodec, K2: FullCodec, V: FullCodec> {}
pub trait StoragePrefixedMap<V: FullCodec> {
    fn pallet_prefix() -> &'static [u8];
    fn storage_prefix() -> &'static [u8];
    fn final_prefix() -> [u8; 32] { storage_prefix(Self::pallet_prefix(), Self::storage_prefix()) }
}
pub trait StorageAppend<Item: Encode> {}
pub trait StorageDecodeLength {}
pub trait TryAppendValue<T, I> {}
#[allow(unused)]
fn _d<T: Decode>() {}
