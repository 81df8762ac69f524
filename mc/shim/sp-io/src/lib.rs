//! Stand-in for `sp-io`: a per-thread, journalled key-value state with an incrementally maintained
//! order-independent 128-bit digest, so that a model checker can snapshot, roll back and hash states cheaply.
use sp_core::storage::Storage;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

enum Undo {
    Kv(Vec<u8>, Option<Vec<u8>>),
}

/// The whole chain state of this thread.
#[derive(Default)]
pub struct Ext {
    pub map: Map,
    journal: Vec<Undo>,
    /// (journal length, events length) at the start of each open layer
    layers: Vec<(usize, usize)>,
    digest: u128,
    pub events: Vec<Vec<u8>>,
    /// when false, deposited events are dropped (explorers that do not look at events)
    pub drop_events: bool,
}

#[inline]
fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
pub fn entry_digest(k: &[u8], v: &[u8]) -> u128 {
    let a = sp_core::hashing::xxh64(k, 0x51ed);
    let b = sp_core::hashing::xxh64(v, a);
    let c = sp_core::hashing::xxh64(v, !a);
    ((mix(b) as u128) << 64) | mix(c ^ a) as u128
}

impl Ext {
    pub fn get(&self, k: &[u8]) -> Option<&Vec<u8>> { self.map.get(k) }
    pub fn put(&mut self, k: &[u8], v: Option<Vec<u8>>) {
        if let Some(v) = &v {
            self.digest ^= entry_digest(k, v);
        }
        let old = match v {
            Some(v) => match self.map.get_mut(k) {
                Some(slot) => Some(std::mem::replace(slot, v)),
                None => self.map.insert(k.to_vec(), v),
            },
            None => self.map.remove(k),
        };
        if let Some(o) = &old {
            self.digest ^= entry_digest(k, o);
        }
        if !self.layers.is_empty() {
            self.journal.push(Undo::Kv(k.to_vec(), old));
        }
    }
    pub fn start(&mut self) { self.layers.push((self.journal.len(), self.events.len())) }
    pub fn commit(&mut self) {
        self.layers.pop().expect("open storage layer");
        if self.layers.is_empty() {
            self.journal.clear();
        }
    }
    pub fn rollback(&mut self) {
        let (j, e) = self.layers.pop().expect("open storage layer");
        while self.journal.len() > j {
            let Some(Undo::Kv(k, old)) = self.journal.pop() else { unreachable!() };
            match old {
                Some(o) => {
                    self.digest ^= entry_digest(&k, &o);
                    if let Some(cur) = self.map.insert(k.clone(), o) {
                        self.digest ^= entry_digest(&k, &cur);
                    }
                }
                None => {
                    if let Some(cur) = self.map.remove(&k) {
                        self.digest ^= entry_digest(&k, &cur);
                    }
                }
            }
        }
        self.events.truncate(e);
    }
    pub fn depth(&self) -> usize { self.layers.len() }
    pub fn digest(&self) -> u128 { self.digest }
    pub fn from_map(map: Map) -> Self {
        let digest = map.iter().fold(0, |d, (k, v)| d ^ entry_digest(k, v));
        Ext { map, digest, ..Default::default() }
    }
}

thread_local! {
    static EXT: RefCell<Ext> = RefCell::new(Ext::default());
}
pub fn with_ext<R>(f: impl FnOnce(&mut Ext) -> R) -> R { EXT.with(|e| f(&mut e.borrow_mut())) }
/// Replace the state of this thread, returning the previous one.
pub fn swap_ext(e: Ext) -> Ext { EXT.with(|x| std::mem::replace(&mut *x.borrow_mut(), e)) }
/// Digest of the key-value state (events excluded).
pub fn state_digest() -> u128 { with_ext(|e| e.digest()) }

pub mod storage {
    use super::*;
    pub fn get(k: &[u8]) -> Option<Vec<u8>> { with_ext(|e| e.get(k).cloned()) }
    pub fn set(k: &[u8], v: &[u8]) { with_ext(|e| e.put(k, Some(v.to_vec()))) }
    pub fn set_vec(k: &[u8], v: Vec<u8>) { with_ext(|e| e.put(k, Some(v))) }
    pub fn clear(k: &[u8]) { with_ext(|e| e.put(k, None)) }
    pub fn exists(k: &[u8]) -> bool { with_ext(|e| e.map.contains_key(k)) }
    pub fn read(k: &[u8], out: &mut [u8], offset: u32) -> Option<u32> {
        with_ext(|e| {
            e.get(k).map(|v| {
                let d = &v[(offset as usize).min(v.len())..];
                let n = d.len().min(out.len());
                out[..n].copy_from_slice(&d[..n]);
                d.len() as u32
            })
        })
    }
    pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
        use std::ops::Bound::*;
        with_ext(|e| e.map.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|(k, _)| k.clone()))
    }
    pub fn keys_with_prefix(p: &[u8]) -> Vec<Vec<u8>> {
        with_ext(|e| e.map.range::<[u8], _>((std::ops::Bound::Included(p), std::ops::Bound::Unbounded)).take_while(|(k, _)| k.starts_with(p)).map(|(k, _)| k.clone()).collect())
    }
    pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> (bool, u32) {
        let keys = keys_with_prefix(p);
        let n = limit.map(|l| l as usize).unwrap_or(keys.len()).min(keys.len());
        for k in &keys[..n] { clear(k) }
        (n == keys.len(), n as u32)
    }
    pub fn start_transaction() { with_ext(|e| e.start()) }
    pub fn commit_transaction() { with_ext(|e| e.commit()) }
    pub fn rollback_transaction() { with_ext(|e| e.rollback()) }
    pub fn root(_: sp_core::storage::StateVersion) -> Vec<u8> {
        with_ext(|e| {
            let mut h = e.digest();
            for ev in &e.events { h = h.rotate_left(7) ^ entry_digest(b"ev", ev) }
            h.to_le_bytes().to_vec()
        })
    }
}
pub use sp_core::hashing;
pub mod offchain {
    use sp_core::offchain::*;
    pub fn is_validator() -> bool { STATE.with(|s| s.borrow().validator) }
    pub fn timestamp() -> Timestamp { STATE.with(|s| Timestamp::from_unix_millis(s.borrow().now)) }
    pub fn local_storage_get(_: StorageKind, k: &[u8]) -> Option<Vec<u8>> { STATE.with(|s| s.borrow().db.get(k).cloned()) }
    pub fn local_storage_set(_: StorageKind, k: &[u8], v: &[u8]) { STATE.with(|s| s.borrow_mut().db.insert(k.to_vec(), v.to_vec())); }
    pub fn local_storage_clear(_: StorageKind, k: &[u8]) { STATE.with(|s| s.borrow_mut().db.remove(k)); }
    pub fn local_storage_compare_and_set(k: StorageKind, key: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
        if local_storage_get(k, key) == old { local_storage_set(k, key, new); true } else { false }
    }
    pub fn submit_transaction(tx: Vec<u8>) -> Result<(), ()> { STATE.with(|s| s.borrow_mut().pool.push(tx)); Ok(()) }
}
pub mod misc {
    pub fn print_utf8(_: &[u8]) {}
}
pub mod crypto {
    mod secp;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum EcdsaVerifyError { BadRS, BadV, BadSignature }
    pub fn secp256k1_ecdsa_recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
        // a function of its arguments alone: what was computed is kept
        thread_local! { static KNOWN: std::cell::RefCell<std::collections::HashMap<([u8; 65], [u8; 32]), Result<[u8; 64], EcdsaVerifyError>>> = Default::default(); }
        if let Some(r) = KNOWN.with(|k| k.borrow().get(&(*sig, *msg)).copied()) { return r }
        let r = secp::recover(sig, msg);
        KNOWN.with(|k| { let mut k = k.borrow_mut(); if k.len() > 50_000 { k.clear() } k.insert((*sig, *msg), r); });
        r
    }
    /// harness helper: (public key, signature) for a secret key
    pub fn secp256k1_sign(sk: u64, msg: &[u8; 32]) -> [u8; 65] { secp::sign(sk, msg) }
    pub fn secp256k1_public(sk: u64) -> [u8; 64] { secp::public(sk) }
    pub fn secp256k1_flip_s(sig: &[u8; 65]) -> [u8; 65] { secp::flip_s(sig) }
}

/// Test externalities as used by the repository's mocks.
#[derive(Default)]
pub struct TestExternalities {
    ext: Option<Ext>,
}
impl TestExternalities {
    pub fn new_empty() -> Self { Self { ext: Some(Ext::default()) } }
    pub fn new(s: Storage) -> Self { Self { ext: Some(Ext::from_map(s.top)) } }
    pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let prev = swap_ext(self.ext.take().unwrap_or_default());
        struct Back<'a>(&'a mut TestExternalities, Option<Ext>);
        impl<'a> Drop for Back<'a> {
            fn drop(&mut self) { self.0.ext = Some(swap_ext(self.1.take().unwrap())); }
        }
        let _b = Back(self, Some(prev));
        f()
    }
    pub fn register_extension<E>(&mut self, _: E) {}
    pub fn persist_offchain_overlay(&mut self) {}
    pub fn commit_all(&mut self) -> Result<(), String> { Ok(()) }
    pub fn into_map(self) -> Map { self.ext.map(|e| e.map).unwrap_or_default() }
}
impl From<Storage> for TestExternalities {
    fn from(s: Storage) -> Self { Self::new(s) }
}
pub struct SubstrateHostFunctions;
