//! Traits of `frame-support`.
use crate::dispatch::{DispatchResultWithPostInfo, RawOrigin};
use crate::weights::Weight;
use codec::{Decode, Encode, MaxEncodedLen};
use impl_trait_for_tuples::impl_for_tuples;
use scale_info::TypeInfo;
pub use sp_core::{Get, GetDefault, TryGet, TypedGet, ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
pub use sp_core::bounded::TryCollect;
pub use sp_runtime::traits::{BlockNumberProvider as _Bnp, StaticLookup as _Sl, ValidateUnsigned as _Vu};
use sp_runtime::{traits::*, DispatchError, DispatchResult};
use std::fmt::Debug;
use std::marker::PhantomData;

pub mod currency;
pub mod schedule;
pub mod preimages;
pub mod tokens;
pub use currency::*;
pub use preimages::{Bounded, BoundedInline, DefensiveTruncateInto, QueryPreimage, StorePreimage, FetchResult};
pub use tokens::{fungible, fungibles, nonfungible, nonfungibles, BalanceStatus, ExistenceRequirement, WithdrawReasons, Locker, nonfungibles_v2, AssetId as TokensAssetId, imbalance::{Imbalance, OnUnbalanced, SignedImbalance, TryDrop, SameOrOther}};

// --- parts of a pallet, for construct_runtime! ---
pub trait PalletParts {
    type Event;
    type Call;
    type Origin;
    type RuntimeOrigin;
    const HAS_CALL: bool;
    fn dispatch_part(call: Self::Call, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait StorageInstance {
    fn pallet_prefix() -> &'static str;
    const STORAGE_PREFIX: &'static str;
}
pub trait PalletInfo {
    fn index<P: 'static>() -> Option<usize>;
    fn name<P: 'static>() -> Option<&'static str>;
    fn name_hash<P: 'static>() -> Option<[u8; 16]>;
    fn module_name<P: 'static>() -> Option<&'static str>;
    fn crate_version<P: 'static>() -> Option<CrateVersion>;
}
impl PalletInfo for () {
    fn index<P: 'static>() -> Option<usize> { Some(0) }
    fn name<P: 'static>() -> Option<&'static str> { Some("test") }
    fn name_hash<P: 'static>() -> Option<[u8; 16]> { Some([0; 16]) }
    fn module_name<P: 'static>() -> Option<&'static str> { Some("test") }
    fn crate_version<P: 'static>() -> Option<CrateVersion> { None }
}
pub trait PalletInfoAccess {
    fn index() -> usize;
    fn name() -> &'static str;
    fn name_hash() -> [u8; 16];
    fn module_name() -> &'static str;
    fn crate_version() -> CrateVersion;
}
#[derive(Debug, Eq, PartialEq, Encode, Decode, Clone, Copy, Default, TypeInfo)]
pub struct CrateVersion { pub major: u16, pub minor: u8, pub patch: u8 }
pub trait PalletError: Encode + Decode { const MAX_ENCODED_SIZE: usize; }
macro_rules! pe { ($($t:ty),*) => { $(impl PalletError for $t { const MAX_ENCODED_SIZE: usize = 4; })* }; }
pe!(u8, u16, u32, bool, DispatchError, ());
#[derive(Encode, Decode, Eq, PartialEq, Copy, Clone, Debug, Default, PartialOrd, Ord, TypeInfo)]
pub struct StorageVersion(u16);
impl StorageVersion {
    pub const fn new(v: u16) -> Self { Self(v) }
    fn key<P: PalletInfoAccess>() -> [u8; 32] { crate::storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:") }
    pub fn put<P: PalletInfoAccess>(&self) { crate::storage::unhashed::put(&Self::key::<P>(), self) }
    pub fn get<P: PalletInfoAccess>() -> Self { crate::storage::unhashed::get_or_default(&Self::key::<P>()) }
    pub fn exists<P: PalletInfoAccess>() -> bool { crate::storage::unhashed::exists(&Self::key::<P>()) }
}
impl PartialEq<u16> for StorageVersion { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl PartialOrd<u16> for StorageVersion { fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> { Some(self.0.cmp(o)) } }
#[derive(Default, Clone, Copy, Debug)]
pub struct NoStorageVersionSet;
pub trait GetStorageVersion {
    type InCodeStorageVersion;
    fn in_code_storage_version() -> StorageVersion;
    fn current_storage_version() -> StorageVersion { Self::in_code_storage_version() }
    fn on_chain_storage_version() -> StorageVersion;
}
pub trait StorageInfoTrait {}
pub trait Task {}

// --- hooks ---
macro_rules! hook { ($tr:ident, $f:ident) => {
    #[impl_for_tuples(30)]
    pub trait $tr<BlockNumber: Clone> { fn $f(_n: BlockNumber) {} }
}; }
hook!(OnFinalize, on_finalize);
hook!(OffchainWorker, offchain_worker);
pub trait OnInitialize<BlockNumber> { fn on_initialize(_n: BlockNumber) -> Weight { Weight::zero() } }
pub trait OnIdle<BlockNumber> { fn on_idle(_n: BlockNumber, _w: Weight) -> Weight { Weight::zero() } }
pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> Weight { Weight::zero() } }
pub trait IntegrityTest { fn integrity_test() {} }
pub trait OnGenesis { fn on_genesis() {} }
macro_rules! hook_tuples { ($($($t:ident)*;)*) => { $(
    #[allow(unused_mut, unused_variables)]
    impl<BN: Clone, $($t: OnInitialize<BN>),*> OnInitialize<BN> for ($($t,)*) { fn on_initialize(n: BN) -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($t::on_initialize(n.clone()));)* w } }
    #[allow(unused_mut, unused_variables)]
    impl<BN: Clone, $($t: OnIdle<BN>),*> OnIdle<BN> for ($($t,)*) { fn on_idle(n: BN, r: Weight) -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($t::on_idle(n.clone(), r.saturating_sub(w)));)* w } }
    #[allow(unused_mut)]
    impl<$($t: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($t,)*) { fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($t::on_runtime_upgrade());)* w } }
    impl<$($t: OnGenesis),*> OnGenesis for ($($t,)*) { fn on_genesis() { $($t::on_genesis();)* } }
    impl<$($t: IntegrityTest),*> IntegrityTest for ($($t,)*) { fn integrity_test() { $($t::integrity_test();)* } }
)* }; }
hook_tuples!(; A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I; A B C D E F G H I J; A B C D E F G H I J K; A B C D E F G H I J K L; A B C D E F G H I J K L M; A B C D E F G H I J K L M N;
    A B C D E F G H I J K L M N O; A B C D E F G H I J K L M N O P;);
pub trait Hooks<BlockNumber> {
    fn on_finalize(_n: BlockNumber) {}
    fn on_idle(_n: BlockNumber, _remaining: Weight) -> Weight { Weight::zero() }
    fn on_poll(_n: BlockNumber, _w: &mut crate::weights::WeightMeter) {}
    fn on_initialize(_n: BlockNumber) -> Weight { Weight::zero() }
    fn on_runtime_upgrade() -> Weight { Weight::zero() }
    fn offchain_worker(_n: BlockNumber) {}
    fn integrity_test() {}
}
pub trait BuildGenesisConfig: Default { fn build(&self); }
impl BuildGenesisConfig for () { fn build(&self) {} }
#[impl_for_tuples(10)]
pub trait OnTimestampSet<M: Clone> { fn on_timestamp_set(m: M); }

// --- dispatch ---
pub trait UnfilteredDispatchable {
    type RuntimeOrigin;
    fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait GetCallName { fn get_call_names() -> &'static [&'static str]; fn get_call_name(&self) -> &'static str; }
pub trait GetCallMetadata {
    fn get_module_names() -> &'static [&'static str];
    fn get_call_names(module: &str) -> &'static [&'static str];
    fn get_call_metadata(&self) -> CallMetadata;
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Ord, PartialOrd)]
pub struct CallMetadata { pub function_name: &'static str, pub pallet_name: &'static str }
pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }
pub trait IsType<T>: Into<T> + From<T> {
    fn from_ref(t: &T) -> &Self;
    fn into_ref(&self) -> &T;
}
impl<T> IsType<T> for T { fn from_ref(t: &T) -> &Self { t } fn into_ref(&self) -> &T { self } }
pub trait CallerTrait<AccountId>: Sized {
    fn into_system(self) -> Option<RawOrigin<AccountId>>;
    fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
    fn as_signed(&self) -> Option<&AccountId> { self.as_system_ref().and_then(RawOrigin::as_signed) }
}
pub trait OriginTrait: Sized {
    type Call;
    type PalletsOrigin: Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen + Clone + Encode + Decode + Debug + Eq + TypeInfo + codec::EncodeLike;
    type AccountId;
    fn set_caller_from(&mut self, other: impl Into<Self>);
    fn set_caller(&mut self, caller: Self::PalletsOrigin);
    fn add_filter(&mut self, _f: impl Fn(&Self::Call) -> bool + 'static) {}
    fn reset_filter(&mut self) {}
    fn filter_call(&self, call: &Self::Call) -> bool;
    fn caller(&self) -> &Self::PalletsOrigin;
    fn into_caller(self) -> Self::PalletsOrigin;
    fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
    fn none() -> Self;
    fn root() -> Self;
    fn signed(by: Self::AccountId) -> Self;
    fn as_signed(self) -> Option<Self::AccountId> { self.into_signer() }
    fn into_signer(self) -> Option<Self::AccountId> { self.into_caller().into_system().and_then(|s| if let RawOrigin::Signed(w) = s { Some(w) } else { None }) }
    fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>> { self.caller().as_system_ref() }
    fn as_signer(&self) -> Option<&Self::AccountId> { self.caller().as_system_ref().and_then(|s| if let RawOrigin::Signed(w) = s { Some(w) } else { None }) }
}
pub trait EnsureOrigin<OuterOrigin> {
    type Success;
    fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> { Self::try_origin(o).map_err(|_| BadOrigin) }
    fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
    fn ensure_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, BadOrigin> where OuterOrigin: OriginTrait {
        if o.as_system_ref().map_or(false, |s| matches!(s, RawOrigin::Root)) { return Ok(None); }
        Self::ensure_origin(o).map(Some)
    }
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
    type Success;
    fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, BadOrigin> { Self::try_origin(o, a).map_err(|_| BadOrigin) }
    fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> { type Success = E::Success; fn try_origin(o: O, _: &A) -> Result<E::Success, O> { E::try_origin(o) } }
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O: OriginTrait, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
    type Success = L::Success;
    fn try_origin(o: O) -> Result<L::Success, O> { L::try_origin(o).or_else(|o| R::try_origin(o)) }
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
    type Success = sp_runtime::Either<L::Success, R::Success>;
    fn try_origin(o: O) -> Result<Self::Success, O> { L::try_origin(o).map_or_else(|o| R::try_origin(o).map(sp_runtime::Either::Right), |s| Ok(sp_runtime::Either::Left(s))) }
}
pub struct MapSuccess<E, M>(PhantomData<(E, M)>);
pub struct EqualPrivilegeOnly;
pub trait PrivilegeCmp<O> { fn cmp_privilege(a: &O, b: &O) -> Option<std::cmp::Ordering>; }
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly { fn cmp_privilege(a: &O, b: &O) -> Option<std::cmp::Ordering> { (a == b).then_some(std::cmp::Ordering::Equal) } }

// --- membership ---
pub trait Contains<T> { fn contains(t: &T) -> bool; }
impl<T> Contains<T> for () { fn contains(_: &T) -> bool { false } }
macro_rules! contains_tuple { ($($($t:ident)+;)*) => { $(impl<X, $($t: Contains<X>),+> Contains<X> for ($($t,)+) { fn contains(x: &X) -> bool { false $(|| $t::contains(x))+ } })* }; }
contains_tuple!(A; A B; A B C; A B C D;);
pub struct Everything;
impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } }
pub struct Nothing;
impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
pub struct Equals<T>(PhantomData<T>);
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
pub struct EverythingBut<A>(PhantomData<A>);
impl<T, A: Contains<T>> Contains<T> for EverythingBut<A> { fn contains(t: &T) -> bool { !A::contains(t) } }
pub trait ContainsPair<A, B> { fn contains(a: &A, b: &B) -> bool; }
pub trait SortedMembers<T: Ord> {
    fn contains(t: &T) -> bool { Self::sorted_members().binary_search(t).is_ok() }
    fn sorted_members() -> Vec<T>;
    fn count() -> usize { Self::sorted_members().len() }
}
pub struct IsInVec<T>(PhantomData<T>);
impl<T: Ord + PartialOrd + Eq + PartialEq + Clone, G: Get<Vec<T>>> SortedMembers<T> for IsInVec<G> { fn sorted_members() -> Vec<T> { let mut v = G::get(); v.sort(); v } }
pub trait ContainsLengthBound { fn min_len() -> usize; fn max_len() -> usize; }
pub trait ChangeMembers<A> {}
pub trait InitializeMembers<A> {}

// --- misc ---
pub trait Len: IntoIterator { fn len(&self) -> usize; }
impl<T: IntoIterator + Clone> Len for T where T::IntoIter: ExactSizeIterator { fn len(&self) -> usize { self.clone().into_iter().len() } }
pub trait Time { type Moment: AtLeast32Bit + codec::Codec + Clone + Default + Copy + TypeInfo + MaxEncodedLen + Debug + PartialEq; fn now() -> Self::Moment; }
pub trait UnixTime { fn now() -> std::time::Duration; }
pub trait HandleLifetime<T> {
    fn created(_t: &T) -> Result<(), DispatchError> { Ok(()) }
    fn killed(_t: &T) -> Result<(), DispatchError> { Ok(()) }
}
impl<T> HandleLifetime<T> for () {}
pub trait OnNewAccount<A> { fn on_new_account(who: &A); }
pub trait OnKilledAccount<A> { fn on_killed_account(who: &A); }
macro_rules! acct { ($tr:ident $f:ident $($($t:ident)*;)*) => { $(#[allow(unused)] impl<X, $($t: $tr<X>),*> $tr<X> for ($($t,)*) { fn $f(x: &X) { $($t::$f(x);)* } })* }; }
acct!(OnNewAccount on_new_account ; A; A B; A B C;);
acct!(OnKilledAccount on_killed_account ; A; A B; A B C;);
pub trait StoredMap<K, T: Default> {
    fn get(k: &K) -> T;
    fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
        Self::mutate_exists(k, |m| match m { Some(x) => f(x), x @ None => { let mut d = T::default(); let r = f(&mut d); *x = Some(d); r } })
    }
    fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> { Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) }) }
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
    fn insert(k: &K, t: T) -> Result<(), DispatchError> { Self::mutate(k, |i| *i = t) }
    fn remove(k: &K) -> Result<(), DispatchError> { Self::mutate_exists(k, |x| *x = None) }
}
pub trait Instance: 'static {}
pub trait FindAuthor<A> { fn find_author<'a, I: 'a>(_d: I) -> Option<A>; }
pub trait EstimateNextSessionRotation<B> { fn average_session_length() -> B; }
pub trait ValidatorSet<A> { type ValidatorId; }
pub trait Randomness<O, B> { fn random(s: &[u8]) -> (O, B); }
pub trait Incrementable: Sized { fn increment(&self) -> Option<Self>; fn initial_value() -> Option<Self>; }
macro_rules! incr { ($($t:ty),*) => { $(impl Incrementable for $t { fn increment(&self) -> Option<Self> { self.checked_add(&1) } fn initial_value() -> Option<Self> { Some(0) } })* }; }
incr!(u8, u16, u32, u64, u128);
pub trait VoteTally<V, C> {}
pub trait SetCode {}
pub trait TypedAsset {}
pub trait Backing {}
pub trait ProcessMessage {}
pub trait TransformOrigin {}

// --- defensive ---
pub mod defensive_prelude { pub use super::{Defensive, DefensiveOption, DefensiveResult}; pub use crate::{defensive, defensive_assert}; }
pub trait Defensive<T> {
    fn defensive_unwrap_or(self, o: T) -> T;
    fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
    fn defensive_unwrap_or_default(self) -> T where T: Default;
    fn defensive(self) -> Self;
    fn defensive_proof(self, p: &'static str) -> Self;
}
pub trait DefensiveOption<T> {
    fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U;
    fn defensive_ok_or_else<E: Debug, F: FnOnce() -> E>(self, e: F) -> Result<T, E>;
    fn defensive_ok_or<E: Debug>(self, e: E) -> Result<T, E>;
    fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
pub trait DefensiveResult<T, E> {
    fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
    fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U;
    fn defensive_ok(self) -> Option<T>;
    fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T> Defensive<T> for Option<T> {
    fn defensive_unwrap_or(self, o: T) -> T { match self { Some(x) => x, None => { crate::defensive!(); o } } }
    fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { match self { Some(x) => x, None => { crate::defensive!(); f() } } }
    fn defensive_unwrap_or_default(self) -> T where T: Default { match self { Some(x) => x, None => { crate::defensive!(); T::default() } } }
    fn defensive(self) -> Self { if self.is_none() { crate::defensive!(); } self }
    fn defensive_proof(self, p: &'static str) -> Self { if self.is_none() { crate::defensive!(p); } self }
}
impl<T, E: Debug> Defensive<T> for Result<T, E> {
    fn defensive_unwrap_or(self, o: T) -> T { match self { Ok(x) => x, Err(e) => { crate::defensive!(e); o } } }
    fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { match self { Ok(x) => x, Err(e) => { crate::defensive!(e); f() } } }
    fn defensive_unwrap_or_default(self) -> T where T: Default { match self { Ok(x) => x, Err(e) => { crate::defensive!(e); T::default() } } }
    fn defensive(self) -> Self { if let Err(e) = &self { crate::defensive!(e); } self }
    fn defensive_proof(self, p: &'static str) -> Self { if let Err(e) = &self { crate::defensive!(p, e); } self }
}
impl<T> DefensiveOption<T> for Option<T> {
    fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U { self.map_or_else(|| { crate::defensive!(); d() }, f) }
    fn defensive_ok_or_else<E: Debug, F: FnOnce() -> E>(self, e: F) -> Result<T, E> { self.ok_or_else(|| { let e = e(); crate::defensive!(e); e }) }
    fn defensive_ok_or<E: Debug>(self, e: E) -> Result<T, E> { self.ok_or_else(|| { crate::defensive!(e); e }) }
    fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> { match self { Some(x) => Some(f(x)), None => { crate::defensive!(); None } } }
}
impl<T, E: Debug> DefensiveResult<T, E> for Result<T, E> {
    fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> { self.map_err(|e| { crate::defensive!(e); o(e) }) }
    fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U { self.map_or_else(|e| { crate::defensive!(e); d(e) }, f) }
    fn defensive_ok(self) -> Option<T> { match self { Ok(x) => Some(x), Err(e) => { crate::defensive!(e); None } } }
    fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> { self.map(f) }
}
pub trait DefensiveSaturating { fn defensive_saturating_add(self, o: Self) -> Self; fn defensive_saturating_sub(self, o: Self) -> Self; }
impl<T: sp_arithmetic::traits::CheckedAdd + sp_arithmetic::traits::CheckedSub + sp_arithmetic::traits::Saturating + Copy> DefensiveSaturating for T {
    fn defensive_saturating_add(self, o: Self) -> Self { match self.checked_add(&o) { Some(v) => v, None => { crate::defensive!("overflow"); self.saturating_add(o) } } }
    fn defensive_saturating_sub(self, o: Self) -> Self { match self.checked_sub(&o) { Some(v) => v, None => { crate::defensive!("underflow"); self.saturating_sub(o) } } }
}
pub trait DefensiveMin<T> {}
#[allow(unused)]
fn _r() -> DispatchResult { Ok(()) }
#[doc(hidden)]
pub struct Konst<X>(std::marker::PhantomData<X>);
#[doc(hidden)]
pub trait KonstT<T> { type Out; }
impl<T, X> KonstT<T> for Konst<X> { type Out = X; }
/// The part (event 0, call 1, origin 2) a pallet does not have; one type per pallet.
#[doc(hidden)]
pub struct NoPart<P, const K: u8>(std::marker::PhantomData<fn() -> P>, std::convert::Infallible);
impl<P, const K: u8> NoPart<P, K> { pub fn unreachable(&self) -> ! { match self.1 {} } }
impl<P, const K: u8> Clone for NoPart<P, K> { fn clone(&self) -> Self { self.unreachable() } }
impl<P, const K: u8> PartialEq for NoPart<P, K> { fn eq(&self, _: &Self) -> bool { self.unreachable() } }
impl<P, const K: u8> Eq for NoPart<P, K> {}
impl<P, const K: u8> std::fmt::Debug for NoPart<P, K> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { self.unreachable() } }
impl<P, const K: u8> codec::Encode for NoPart<P, K> { fn encode(&self) -> Vec<u8> { self.unreachable() } }
impl<P, const K: u8> codec::EncodeLike for NoPart<P, K> {}
impl<P, const K: u8> codec::Decode for NoPart<P, K> { fn decode<I: codec::Input>(_: &mut I) -> Result<Self, codec::Error> { Err("no such part".into()) } }
impl<P, const K: u8> codec::MaxEncodedLen for NoPart<P, K> { fn max_encoded_len() -> usize { 0 } }
impl<P: 'static, const K: u8> scale_info::TypeInfo for NoPart<P, K> { type Identity = (); fn type_info() -> scale_info::Type { <() as scale_info::TypeInfo>::type_info() } }
impl<P, const K: u8> crate::dispatch::GetDispatchInfo for NoPart<P, K> { fn get_dispatch_info(&self) -> crate::dispatch::DispatchInfo { self.unreachable() } }
impl<P, const K: u8> GetCallName for NoPart<P, K> { fn get_call_name(&self) -> &'static str { self.unreachable() } fn get_call_names() -> &'static [&'static str] { &[] } }
