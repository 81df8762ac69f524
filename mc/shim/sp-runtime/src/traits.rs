//! Traits of `sp-runtime`.
use crate::transaction_validity::*;
use crate::{DispatchResult, DispatchResultWithInfo};
use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use impl_trait_for_tuples::impl_for_tuples;
use scale_info::TypeInfo;
pub use sp_arithmetic::traits::*;
pub use sp_core::{
    ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TryGet, TypedGet, Hasher as CoreHasher,
};
pub use sp_core::bounded::TryCollect;
use sp_core::{hashing, H256};
use std::fmt::{Debug, Display};
use std::marker::PhantomData;

pub trait Lazy<T: ?Sized> {
    fn get(&mut self) -> &T;
}
impl<'a> Lazy<[u8]> for &'a [u8] { fn get(&mut self) -> &[u8] { self } }
pub trait IdentifyAccount {
    type AccountId;
    fn into_account(self) -> Self::AccountId;
}
pub trait Verify {
    type Signer: IdentifyAccount;
    fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
}

#[derive(Encode, Decode, Debug, Clone, Copy, PartialEq, Eq, TypeInfo)]
pub struct BadOrigin;
impl From<BadOrigin> for &'static str { fn from(_: BadOrigin) -> &'static str { "Bad origin" } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct LookupError;
impl From<LookupError> for &'static str { fn from(_: LookupError) -> &'static str { "Can not lookup" } }
impl From<TransactionValidityError> for LookupError { fn from(_: TransactionValidityError) -> Self { LookupError } }

pub trait Lookup {
    type Source;
    type Target;
    fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
}
pub trait StaticLookup {
    type Source: Codec + Clone + PartialEq + Debug + TypeInfo;
    type Target;
    fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
    fn unlookup(t: Self::Target) -> Self::Source;
}
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct IdentityLookup<T>(PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + TypeInfo> StaticLookup for IdentityLookup<T> {
    type Source = T;
    type Target = T;
    fn lookup(x: T) -> Result<T, LookupError> { Ok(x) }
    fn unlookup(x: T) -> T { x }
}
pub struct AccountIdLookup<A, I>(PhantomData<(A, I)>);

pub trait Convert<A, B> {
    fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () { fn convert(_: A) -> B { Default::default() } }
pub trait ConvertBack<A, B>: Convert<A, B> { fn convert_back(b: B) -> A; }
pub trait MaybeConvert<A, B> { fn maybe_convert(a: A) -> Option<B>; }
pub trait TryConvert<A, B> { fn try_convert(a: A) -> Result<B, A>; }
pub struct Identity;
impl<T> Convert<T, T> for Identity { fn convert(a: T) -> T { a } }
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto { fn convert(a: A) -> B { a.into() } }
impl<A> TryConvert<A, A> for Identity { fn try_convert(a: A) -> Result<A, A> { Ok(a) } }
pub struct MorphInto<T>(PhantomData<T>);
pub struct ReplaceWithDefault;

pub trait Clear { fn is_clear(&self) -> bool; fn clear() -> Self; }
impl<T: Default + Eq + PartialEq> Clear for T {
    fn is_clear(&self) -> bool { *self == Self::clear() }
    fn clear() -> Self { Default::default() }
}
pub trait SimpleBitOps: Sized + Clear {}
pub trait CheckEqual {}
impl<T> CheckEqual for T {}
pub trait IsMember<T> { fn is_member(t: &T) -> bool; }

pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait MaybeDebug: Debug {}
impl<T: Debug> MaybeDebug for T {}
pub trait MaybeDisplay: Display {}
impl<T: Display> MaybeDisplay for T {}
pub trait MaybeHash: std::hash::Hash {}
impl<T: std::hash::Hash> MaybeHash for T {}
pub trait MaybeSerialize: serde::Serialize {}
impl<T: serde::Serialize> MaybeSerialize for T {}
pub trait MaybeSerializeDeserialize: serde::de::DeserializeOwned + serde::Serialize {}
impl<T: serde::de::DeserializeOwned + serde::Serialize> MaybeSerializeDeserialize for T {}
pub trait MaybeFromStr: std::str::FromStr {}
impl<T: std::str::FromStr> MaybeFromStr for T {}

pub trait Hash: 'static + Clone + Eq + PartialEq + Debug + sp_core::Hasher<Out = <Self as Hash>::Output> {
    type Output: Member + Default + AsRef<[u8]> + AsMut<[u8]> + Copy + Codec + TypeInfo + MaxEncodedLen + std::hash::Hash + Ord + EncodeLike;
    fn hash(s: &[u8]) -> Self::Output { <Self as sp_core::Hasher>::hash(s) }
    fn hash_of<S: Encode>(s: &S) -> Self::Output { s.using_encoded(<Self as sp_core::Hasher>::hash) }
}
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, Encode, Decode)]
pub struct BlakeTwo256;
impl sp_core::Hasher for BlakeTwo256 {
    type Out = H256;
    const LENGTH: usize = 32;
    fn hash(s: &[u8]) -> H256 { hashing::blake2_256(s).into() }
}
impl Hash for BlakeTwo256 { type Output = H256; }
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, Encode, Decode)]
pub struct Keccak256;
impl sp_core::Hasher for Keccak256 {
    type Out = H256;
    const LENGTH: usize = 32;
    fn hash(s: &[u8]) -> H256 { hashing::keccak_256(s).into() }
}
impl Hash for Keccak256 { type Output = H256; }

pub trait BlockNumberBounds:
    Member + MaybeSerializeDeserialize + Debug + std::hash::Hash + Copy + MaybeDisplay + AtLeast32BitUnsigned + Codec + Default + TypeInfo + MaxEncodedLen
    + std::str::FromStr + EncodeLike + From<u32>
{
}
impl<T> BlockNumberBounds for T where
    T: Member + MaybeSerializeDeserialize + Debug + std::hash::Hash + Copy + MaybeDisplay + AtLeast32BitUnsigned + Codec + Default + TypeInfo + MaxEncodedLen
        + std::str::FromStr + EncodeLike + From<u32>
{
}
pub trait Header: Clone + Send + Sync + Codec + Eq + Debug + 'static + TypeInfo {
    type Number: BlockNumberBounds;
    type Hash: Member + Default + Copy + Codec + AsRef<[u8]> + AsMut<[u8]> + TypeInfo + MaxEncodedLen + std::hash::Hash + Ord + EncodeLike + Debug;
    type Hashing: Hash<Output = Self::Hash>;
    fn new(number: Self::Number) -> Self;
    fn number(&self) -> &Self::Number;
}
pub trait HeaderProvider { type HeaderT: Header; }
pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + Eq + Debug + 'static {
    type Extrinsic: Clone + Debug + Eq + Send + Sync + 'static;
    type Header: Header<Hash = Self::Hash>;
    type Hash: Member + Default + Copy + Codec + AsRef<[u8]> + AsMut<[u8]> + TypeInfo + MaxEncodedLen + std::hash::Hash + Ord + EncodeLike + Debug;
}
pub type HashingFor<B> = <<B as Block>::Header as Header>::Hashing;
pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;
pub type HeaderFor<B> = <B as HeaderProvider>::HeaderT;

pub trait Extrinsic: Sized {
    type Call;
    type SignaturePayload;
    fn is_signed(&self) -> Option<bool> { None }
    fn new(_call: Self::Call, _p: Option<Self::SignaturePayload>) -> Option<Self> { None }
}
pub trait Dispatchable {
    type RuntimeOrigin: Debug;
    type Config;
    type Info;
    type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable;
    fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
impl Dispatchable for () {
    type RuntimeOrigin = ();
    type Config = ();
    type Info = ();
    type PostInfo = ();
    fn dispatch(self, _: ()) -> DispatchResultWithInfo<()> { panic!("not dispatchable") }
}
pub trait Printable { fn print(&self); }
impl Printable for () { fn print(&self) {} }

pub trait SignedExtension: Codec + Debug + Sync + Send + Clone + Eq + PartialEq {
    const IDENTIFIER: &'static str;
    type AccountId;
    type Call: Dispatchable;
    type AdditionalSigned: Codec + TypeInfo;
    type Pre;
    fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
    fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
        Ok(ValidTransaction::default())
    }
    fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
    fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
    fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> {
        Self::validate_unsigned(call, info, len).map(|_| ())
    }
    fn post_dispatch(
        _pre: Option<Self::Pre>,
        _info: &DispatchInfoOf<Self::Call>,
        _post_info: &PostDispatchInfoOf<Self::Call>,
        _len: usize,
        _result: &DispatchResult,
    ) -> Result<(), TransactionValidityError> {
        Ok(())
    }
}
pub trait ValidateUnsigned {
    type Call;
    fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> {
        Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ())
    }
    fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
}

pub trait BlockNumberProvider {
    type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + Debug + MaxEncodedLen + Copy + EncodeLike;
    fn current_block_number() -> Self::BlockNumber;
    fn set_block_number(_: Self::BlockNumber) {}
}
impl BlockNumberProvider for () {
    type BlockNumber = u32;
    fn current_block_number() -> u32 { 0 }
}

pub trait OpaqueKeys: Clone {}
pub trait AccountIdConversion<AccountId>: Sized {
    fn into_account_truncating(&self) -> AccountId { self.into_sub_account_truncating(&()) }
    fn try_into_account(&self) -> Option<AccountId> { self.try_into_sub_account(&()) }
    fn try_from_account(a: &AccountId) -> Option<Self> { Self::try_from_sub_account::<()>(a).map(|x| x.0) }
    fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
    fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
    fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
}
pub trait TypeId { const TYPE_ID: [u8; 4]; }

struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> codec::Input for TrailingZeroInput<'a> {
    fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> { Ok(None) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> {
        let len_from_inner = into.len().min(self.0.len());
        into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
        for i in &mut into[len_from_inner..] { *i = 0; }
        self.0 = &self.0[len_from_inner..];
        Ok(())
    }
}
/// Appends zeros when decoding past the end.
pub fn decode_trailing_zero<T: Decode>(b: &[u8]) -> Option<T> { T::decode(&mut TrailingZeroInput(b)).ok() }

impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
    fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
        (Id::TYPE_ID, self, sub).using_encoded(|b| T::decode(&mut TrailingZeroInput(b))).expect("All byte sequences are valid `AccountIds`; qed")
    }
    fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
        let encoded_seed = (Id::TYPE_ID, self, sub).encode();
        let account = T::decode(&mut TrailingZeroInput(&encoded_seed)).expect("All byte sequences are valid `AccountIds`; qed");
        if encoded_seed.len() <= account.encoded_size() { Some(account) } else { None }
    }
    fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
        x.using_encoded(|d| {
            if d[0..4] != Id::TYPE_ID { return None; }
            let mut cursor = &d[4..];
            let result = Decode::decode(&mut cursor).ok()?;
            if cursor.iter().all(|x| *x == 0) { Some(result) } else { None }
        })
    }
}

#[impl_for_tuples(5)]
pub trait IdleHook {}

pub trait AppVerify {}
pub trait Morph<A> { type Outcome; fn morph(a: A) -> Self::Outcome; }
pub trait TryMorph<A> { type Outcome; fn try_morph(a: A) -> Result<Self::Outcome, ()>; }
pub trait AsSystemOriginSigner<A> { fn as_system_origin_signer(&self) -> Option<&A>; }
pub trait AtLeast32BitUnsignedAlias {}
pub trait MaybeEquivalence<A, B> { fn convert(a: &A) -> Option<B>; fn convert_back(b: &B) -> Option<A>; }

pub use sp_arithmetic::traits::{CheckedShl, CheckedShr};
