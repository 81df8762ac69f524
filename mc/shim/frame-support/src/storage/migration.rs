use super::*;
use crate::hash::{ReversibleStorageHasher, StorageHasher};
pub fn move_prefix(from: &[u8], to: &[u8]) {
    if from == to { return; }
    for k in sp_io::storage::keys_with_prefix(from) {
        if let Some(v) = unhashed::get_raw(&k) {
            let mut nk = to.to_vec();
            nk.extend_from_slice(&k[from.len()..]);
            unhashed::put_raw(&nk, &v);
            unhashed::kill(&k);
        }
    }
}
fn key(module: &[u8], item: &[u8], hash: &[u8]) -> Vec<u8> { let mut k = storage_prefix(module, item).to_vec(); k.extend_from_slice(hash); k }
pub fn move_storage_from_pallet(storage_name: &[u8], old: &[u8], new: &[u8]) {
    let (o, n) = (storage_prefix(old, storage_name), storage_prefix(new, storage_name));
    move_prefix(&o, &n);
    if let Some(v) = unhashed::get_raw(&o) { unhashed::put_raw(&n, &v); unhashed::kill(&o); }
}
pub fn move_pallet(old: &[u8], new: &[u8]) { move_prefix(&sp_core::twox_128(old), &sp_core::twox_128(new)) }
pub fn get_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::get(&key(m, i, h)) }
pub fn have_storage_value(m: &[u8], i: &[u8], h: &[u8]) -> bool { unhashed::exists(&key(m, i, h)) }
pub fn put_storage_value<T: Encode>(m: &[u8], i: &[u8], h: &[u8], v: T) { unhashed::put(&key(m, i, h), &v) }
pub fn take_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::take(&key(m, i, h)) }
pub fn storage_key_iter<K: Decode, T: Decode, H: ReversibleStorageHasher>(m: &[u8], i: &[u8]) -> PrefixIterator<(K, T)> {
    let p = key(m, i, &[]);
    PrefixIterator::new(p.clone(), p, |k, v| Ok((K::decode(&mut H::reverse(k))?, T::decode(&mut &v[..])?)))
}
pub fn storage_iter<T: Decode>(m: &[u8], i: &[u8]) -> PrefixIterator<(Vec<u8>, T)> {
    let p = key(m, i, &[]);
    PrefixIterator::new(p.clone(), p, |k, v| Ok((k.to_vec(), T::decode(&mut &v[..])?)))
}
pub fn clear_storage_prefix(m: &[u8], i: &[u8], h: &[u8], l: Option<u32>, _: Option<&[u8]>) -> (bool, u32) { unhashed::clear_prefix(&key(m, i, h), l) }
#[allow(unused)]
fn _h<H: StorageHasher>() {}
