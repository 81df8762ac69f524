//! Storage hashers.
use codec::{Codec, Encode, MaxEncodedLen};
use sp_core::hashing::*;
pub trait Hashable: Sized {
    fn blake2_256(&self) -> [u8; 32];
    fn twox_128(&self) -> [u8; 16];
}
impl<T: Codec> Hashable for T {
    fn blake2_256(&self) -> [u8; 32] { self.using_encoded(blake2_256) }
    fn twox_128(&self) -> [u8; 16] { self.using_encoded(twox_128) }
}
pub trait StorageHasher: 'static {
    type Output: AsRef<[u8]>;
    fn hash(x: &[u8]) -> Self::Output;
    fn max_len<K: MaxEncodedLen>() -> usize { K::max_encoded_len() + 16 }
}
pub trait ReversibleStorageHasher: StorageHasher {
    fn reverse(x: &[u8]) -> &[u8];
}
pub trait HasherLen { const LEN: usize; }
macro_rules! hasher { ($n:ident, $o:ty, $l:expr, $x:ident => $e:expr) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct $n;
    impl StorageHasher for $n { type Output = $o; fn hash($x: &[u8]) -> $o { $e } }
    impl HasherLen for $n { const LEN: usize = $l; }
}; }
hasher!(Identity, Vec<u8>, 0, x => x.to_vec());
hasher!(Twox64Concat, Vec<u8>, 8, x => twox_64(x).iter().chain(x).cloned().collect());
hasher!(Blake2_128Concat, Vec<u8>, 16, x => blake2_128(x).iter().chain(x).cloned().collect());
hasher!(Blake2_128, [u8; 16], 16, x => blake2_128(x));
hasher!(Blake2_256, [u8; 32], 32, x => blake2_256(x));
hasher!(Twox128, [u8; 16], 16, x => twox_128(x));
hasher!(Twox256, [u8; 32], 32, x => twox_256(x));
macro_rules! rev { ($($n:ident),*) => { $(impl ReversibleStorageHasher for $n { fn reverse(x: &[u8]) -> &[u8] { &x[<$n as HasherLen>::LEN..] } })* }; }
rev!(Identity, Twox64Concat, Blake2_128Concat);
#[allow(unused)]
fn _e<T: Encode>() {}
