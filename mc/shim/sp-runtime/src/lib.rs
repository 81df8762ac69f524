//! Stand-in for `sp-runtime`.
pub mod generic;
pub mod offchain;
pub mod testing;
pub mod traits;
pub mod transaction_validity;

pub use codec;
pub use scale_info;
pub use serde;
pub use sp_arithmetic::{
    self, helpers_128bit, traits::SaturatedConversion, traits::Saturating, ArithmeticError, FixedI128, FixedI64, FixedPointNumber, FixedPointOperand,
    FixedU128, FixedU64, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rational128, RationalInfinite, Rounding, SignedRounding,
    InnerOf, UpperOf,
};
pub use sp_core::bounded_vec;
pub use sp_core::crypto::{self, AccountId32, ByteArray, KeyTypeId};
pub use sp_core::storage::{StateVersion, Storage};
pub use sp_core::{bounded::*, RuntimeDebug};
pub use sp_core::hashing;
pub mod biguint { pub use sp_arithmetic::biguint::*; }
pub mod curve {
    pub struct PiecewiseLinear<'a> { pub points: &'a [(super::Perbill, super::Perbill)], pub maximum: super::Perbill }
}

use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub trait BuildStorage {
    fn build_storage(&self) -> Result<Storage, String> {
        let mut s = Storage::default();
        self.assimilate_storage(&mut s)?;
        Ok(s)
    }
    fn assimilate_storage(&self, storage: &mut Storage) -> Result<(), String>;
}
impl BuildStorage for () {
    fn assimilate_storage(&self, _: &mut Storage) -> Result<(), String> { Ok(()) }
}
/// Runs `f` with `s` as the chain state and writes the result back.
pub fn execute_with_storage<R>(s: &mut Storage, f: impl FnOnce() -> R) -> R {
    let mut t = sp_io::TestExternalities::new(std::mem::take(s));
    let r = t.execute_with(f);
    s.top = t.into_map();
    r
}

pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ConsensusEngineId = [u8; 4];

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct ModuleError {
    pub index: u8,
    pub error: [u8; 4],
    #[codec(skip)]
    #[serde(skip_deserializing)]
    pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
    fn eq(&self, o: &Self) -> bool { self.index == o.index && self.error == o.error }
}
pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TransactionalError {
    LimitReached,
    NoLayer,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TokenError {
    FundsUnavailable,
    OnlyProvider,
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Frozen,
    Unsupported,
    CannotCreateHold,
    NotExpendable,
    Blocked,
}
impl From<TokenError> for &'static str {
    fn from(e: TokenError) -> &'static str {
        match e {
            TokenError::FundsUnavailable => "Funds are unavailable",
            TokenError::OnlyProvider => "Account that must exist would die",
            TokenError::BelowMinimum => "Account cannot exist with the funds that would be given",
            TokenError::CannotCreate => "Account cannot be created",
            TokenError::UnknownAsset => "The asset in question is unknown",
            TokenError::Frozen => "Funds exist but are frozen",
            TokenError::Unsupported => "Operation is not supported by the asset",
            TokenError::CannotCreateHold => "Account cannot be created for recording amount on hold",
            TokenError::NotExpendable => "Account that is desired to remain would die",
            TokenError::Blocked => "Account cannot receive the assets",
        }
    }
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum DispatchError {
    Other(
        #[codec(skip)]
        #[serde(skip_deserializing)]
        &'static str,
    ),
    CannotLookup,
    BadOrigin,
    Module(ModuleError),
    ConsumerRemaining,
    NoProviders,
    TooManyConsumers,
    Token(TokenError),
    Arithmetic(ArithmeticError),
    Transactional(TransactionalError),
    Exhausted,
    Corruption,
    Unavailable,
    RootNotAllowed,
}
impl DispatchError {
    pub fn stripped(self) -> Self {
        match self {
            DispatchError::Module(ModuleError { index, error, message: Some(_) }) => DispatchError::Module(ModuleError { index, error, message: None }),
            m => m,
        }
    }
}
impl From<TokenError> for DispatchError { fn from(e: TokenError) -> Self { DispatchError::Token(e) } }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { DispatchError::Arithmetic(e) } }
impl From<TransactionalError> for DispatchError { fn from(e: TransactionalError) -> Self { DispatchError::Transactional(e) } }
impl From<&'static str> for DispatchError { fn from(e: &'static str) -> Self { DispatchError::Other(e) } }
impl From<traits::BadOrigin> for DispatchError { fn from(_: traits::BadOrigin) -> Self { DispatchError::BadOrigin } }
impl From<traits::LookupError> for DispatchError { fn from(_: traits::LookupError) -> Self { DispatchError::CannotLookup } }
impl From<DispatchError> for &'static str {
    fn from(e: DispatchError) -> &'static str {
        match e {
            DispatchError::Other(m) => m,
            DispatchError::CannotLookup => "Cannot lookup",
            DispatchError::BadOrigin => "Bad origin",
            DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
            DispatchError::ConsumerRemaining => "Consumer remaining",
            DispatchError::NoProviders => "No providers",
            DispatchError::TooManyConsumers => "Too many consumers",
            DispatchError::Token(e) => e.into(),
            DispatchError::Arithmetic(e) => e.into(),
            DispatchError::Transactional(_) => "Transactional error",
            DispatchError::Exhausted => "Resources exhausted",
            DispatchError::Corruption => "State corrupt",
            DispatchError::Unavailable => "Resource unavailable",
            DispatchError::RootNotAllowed => "Root not allowed",
        }
    }
}
impl std::fmt::Display for DispatchError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", <&'static str>::from(*self)) }
}
impl std::error::Error for DispatchError {}
impl traits::Printable for DispatchError { fn print(&self) {} }
impl traits::Printable for &str { fn print(&self) {} }
impl traits::Printable for &[u8] { fn print(&self) {} }
pub fn print(_: impl traits::Printable) {}

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> {
    pub post_info: Info,
    pub error: DispatchError,
}
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where
    T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default,
    E: Into<DispatchError>,
{
    fn from(error: E) -> Self { Self { post_info: Default::default(), error: error.into() } }
}
impl<T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> From<DispatchErrorWithPostInfo<T>> for &'static str {
    fn from(e: DispatchErrorWithPostInfo<T>) -> &'static str { e.error.into() }
}

#[derive(Eq, PartialEq, Clone, Debug)]
pub enum TryRuntimeError {
    Dispatch(DispatchError),
    Other(&'static str),
}
impl From<&'static str> for TryRuntimeError { fn from(s: &'static str) -> Self { Self::Other(s) } }
impl From<DispatchError> for TryRuntimeError { fn from(s: DispatchError) -> Self { Self::Dispatch(s) } }

pub enum TransactionOutcome<R> {
    Commit(R),
    Rollback(R),
}
impl<R> TransactionOutcome<R> {
    pub fn into_inner(self) -> R { match self { Self::Commit(r) | Self::Rollback(r) => r } }
}

#[derive(Eq, PartialEq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum MultiSignature {
    Ed25519([u8; 64]),
    Sr25519(sp_core::sr25519::Signature),
    Ecdsa(sp_core::ecdsa::Signature),
}
#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Debug, Encode, Decode, TypeInfo)]
pub enum MultiSigner {
    Ed25519([u8; 32]),
    Sr25519(sp_core::sr25519::Public),
}
impl traits::IdentifyAccount for MultiSigner {
    type AccountId = AccountId32;
    fn into_account(self) -> AccountId32 {
        match self { MultiSigner::Ed25519(x) => x.into(), MultiSigner::Sr25519(x) => x.0.into() }
    }
}
impl traits::Verify for MultiSignature {
    type Signer = MultiSigner;
    fn verify<L: traits::Lazy<[u8]>>(&self, _msg: L, _signer: &AccountId32) -> bool { true }
}
impl From<sp_core::sr25519::Signature> for MultiSignature { fn from(x: sp_core::sr25519::Signature) -> Self { Self::Sr25519(x) } }
#[derive(Eq, PartialEq, Clone, Debug, Encode, Decode, TypeInfo, PartialOrd, Ord, Hash)]
pub enum MultiAddress<AccountId, AccountIndex> {
    Id(AccountId),
    Index(#[codec(compact)] AccountIndex),
    Raw(Vec<u8>),
    Address32([u8; 32]),
    Address20([u8; 20]),
}

#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Hash, Debug, Encode, Decode, TypeInfo)]
pub enum Either<L, R> {
    Left(L),
    Right(R),
}
impl<L, R> Either<L, R> {
    pub fn left(self) -> Option<L> { match self { Either::Left(l) => Some(l), _ => None } }
    pub fn right(self) -> Option<R> { match self { Either::Right(l) => Some(l), _ => None } }
}
#[derive(Eq, PartialEq, Clone, Debug, Encode, Decode, TypeInfo, Default)]
pub struct Digest { pub logs: Vec<DigestItem> }
#[derive(Eq, PartialEq, Clone, Debug, Encode, Decode, TypeInfo)]
pub enum DigestItem { Other(Vec<u8>) }

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct OpaqueExtrinsic(pub Vec<u8>);

pub mod runtime_logger { pub struct RuntimeLogger; impl RuntimeLogger { pub fn init() {} } }
pub mod legacy { pub mod byte_sized_error {} }

#[macro_export]
macro_rules! impl_opaque_keys { ($($t:tt)*) => {}; }
#[macro_export]
macro_rules! create_runtime_str { ($x:expr) => { $x }; }
#[macro_export]
macro_rules! parameter_types_noop { ($($t:tt)*) => {}; }
