//! Stand-in for `sp-core`.
pub mod bounded;
pub mod hashing;
pub mod offchain;
pub use bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub mod bounded_vec {
    pub use crate::bounded::BoundedVec;
}
pub use codec::{Decode, Encode, MaxEncodedLen};
pub use frame_support_procedural::RuntimeDebug;
pub use hashing::{blake2_128, blake2_256, keccak_256, twox_128, twox_256, twox_64};
pub use primitive_types::{H128, H160, H256, H512, U128, U256, U512};

use scale_info::TypeInfo;
pub mod sp_std {
    pub use ::sp_std::*;
}

#[macro_export]
macro_rules! defer {
    ($($t:tt)*) => {};
}

pub type Void = std::convert::Infallible;
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, serde::Serialize, serde::Deserialize, Hash, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);

pub trait Get<T> {
    fn get() -> T;
}
impl<T: Default> Get<T> for () {
    fn get() -> T { T::default() }
}
pub trait TypedGet {
    type Type;
    fn get() -> Self::Type;
}
pub trait TryGet<T> {
    fn try_get() -> Option<T>;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
    fn get() -> T { T::default() }
}
macro_rules! impl_const_get {
    ($name:ident, $t:ty) => {
        #[derive(Default, Clone, Debug, PartialEq, Eq, TypeInfo)]
        pub struct $name<const T: $t>;
        impl<const T: $t> Get<$t> for $name<T> {
            fn get() -> $t { T }
        }
        impl<const T: $t> Get<Option<$t>> for $name<T> {
            fn get() -> Option<$t> { Some(T) }
        }
        impl<const T: $t> TypedGet for $name<T> {
            type Type = $t;
            fn get() -> $t { T }
        }
    };
}
impl_const_get!(ConstBool, bool);
impl_const_get!(ConstU8, u8);
impl_const_get!(ConstU16, u16);
impl_const_get!(ConstU32, u32);
impl_const_get!(ConstU64, u64);
impl_const_get!(ConstU128, u128);
impl_const_get!(ConstI8, i8);
impl_const_get!(ConstI16, i16);
impl_const_get!(ConstI32, i32);
impl_const_get!(ConstI64, i64);
impl_const_get!(ConstI128, i128);

pub trait Hasher {
    type Out: AsRef<[u8]> + AsMut<[u8]> + Default + Copy + Eq;
    const LENGTH: usize;
    fn hash(x: &[u8]) -> Self::Out;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Blake2Hasher;
impl Hasher for Blake2Hasher {
    type Out = H256;
    const LENGTH: usize = 32;
    fn hash(x: &[u8]) -> H256 { blake2_256(x).into() }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct KeccakHasher;
impl Hasher for KeccakHasher {
    type Out = H256;
    const LENGTH: usize = 32;
    fn hash(x: &[u8]) -> H256 { keccak_256(x).into() }
}

pub mod storage {
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Storage {
        pub top: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct StorageKey(pub Vec<u8>);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum StateVersion {
        V0,
        V1,
    }
    pub mod well_known_keys {
        pub const CODE: &[u8] = b":code";
        pub const EXTRINSIC_INDEX: &[u8] = b":extrinsic_index";
    }
}

pub mod crypto {
    use super::*;
    use codec::{Decode, Encode, MaxEncodedLen};
    #[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, MaxEncodedLen, TypeInfo, Hash, serde::Serialize, serde::Deserialize)]
    pub struct AccountId32([u8; 32]);
    impl AccountId32 {
        pub const fn new(inner: [u8; 32]) -> Self { Self(inner) }
    }
    impl AsRef<[u8]> for AccountId32 { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl AsRef<[u8; 32]> for AccountId32 { fn as_ref(&self) -> &[u8; 32] { &self.0 } }
    impl AsMut<[u8]> for AccountId32 { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
    impl From<[u8; 32]> for AccountId32 { fn from(x: [u8; 32]) -> Self { Self(x) } }
    impl From<H256> for AccountId32 { fn from(x: H256) -> Self { Self(x.0) } }
    impl From<AccountId32> for [u8; 32] { fn from(x: AccountId32) -> Self { x.0 } }
    impl From<crate::sr25519::Public> for AccountId32 { fn from(x: crate::sr25519::Public) -> Self { Self(x.0) } }
    impl<'a> TryFrom<&'a [u8]> for AccountId32 {
        type Error = ();
        fn try_from(x: &'a [u8]) -> Result<Self, ()> { Ok(Self(x.try_into().map_err(|_| ())?)) }
    }
    impl std::fmt::Debug for AccountId32 {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "0x")?;
            for b in &self.0 { write!(f, "{b:02x}")?; }
            Ok(())
        }
    }
    impl std::fmt::Display for AccountId32 {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") }
    }
    pub trait ByteArray: AsRef<[u8]> + Sized {
        const LEN: usize;
        fn to_raw_vec(&self) -> Vec<u8> { self.as_ref().to_vec() }
        fn as_slice(&self) -> &[u8] { self.as_ref() }
    }
    impl ByteArray for AccountId32 { const LEN: usize = 32; }
    pub trait UncheckedFrom<T> {
        fn unchecked_from(t: T) -> Self;
    }
    impl UncheckedFrom<H256> for AccountId32 { fn unchecked_from(t: H256) -> Self { Self(t.0) } }
    #[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Encode, Decode, TypeInfo)]
    pub struct KeyTypeId(pub [u8; 4]);
    pub trait Pair {}
    pub trait Ss58Codec: Sized {}
}
pub mod sr25519 {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen, Hash)]
    pub struct Public(pub [u8; 32]);
    #[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
    pub struct Signature(pub [u8; 64]);
}
pub mod ecdsa {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
    pub struct Signature(pub [u8; 65]);
}
