use codec::{Decode, Encode};
pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
    let v = sp_io::storage::get(k)?;
    match T::decode(&mut &v[..]) { Ok(x) => Some(x), Err(_) => None }
}
pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T { get(k).unwrap_or_default() }
pub fn get_or<T: Decode>(k: &[u8], d: T) -> T { get(k).unwrap_or(d) }
pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) { sp_io::storage::set_vec(k, v.encode()) }
pub fn take<T: Decode>(k: &[u8]) -> Option<T> { let v = get(k); if v.is_some() { kill(k) } v }
pub fn exists(k: &[u8]) -> bool { sp_io::storage::exists(k) }
pub fn kill(k: &[u8]) { sp_io::storage::clear(k) }
pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> { sp_io::storage::get(k) }
pub fn put_raw(k: &[u8], v: &[u8]) { sp_io::storage::set(k, v) }
pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> (bool, u32) { sp_io::storage::clear_prefix(p, limit) }
pub fn contains_prefixed_key(p: &[u8]) -> bool { sp_io::storage::next_key(p).map_or(false, |k| k.starts_with(p)) || exists(p) }
