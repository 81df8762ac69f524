//! Stand-in for `frame-system`.
extern crate self as frame_system;
use codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use frame_support::traits::*;
use frame_support::weights::{RuntimeDbWeight, Weight};
use frame_support::{dispatch::*, Parameter};
use scale_info::TypeInfo;
use sp_runtime::traits::{self, BadOrigin, Dispatchable, MaybeDisplay, MaybeSerializeDeserialize, Member, One, StaticLookup, Zero};
use sp_runtime::{DispatchError, RuntimeDebug};
use std::marker::PhantomData;
pub use pallet::*;
pub mod offchain;
pub use frame_support::dispatch::RawOrigin;

pub mod limits {
    use super::*;
    use frame_support::weights::constants::*;
    #[derive(Clone, Debug, Default)]
    pub struct WeightsPerClass { pub base_extrinsic: Weight, pub max_extrinsic: Option<Weight>, pub max_total: Option<Weight>, pub reserved: Option<Weight> }
    #[derive(Clone, Debug)]
    pub struct BlockWeights { pub base_block: Weight, pub max_block: Weight, pub per_class: PerClass }
    #[derive(Clone, Debug, Default)]
    pub struct PerClass { normal: WeightsPerClass, operational: WeightsPerClass, mandatory: WeightsPerClass }
    impl PerClass {
        pub fn get(&self, c: DispatchClass) -> &WeightsPerClass { match c { DispatchClass::Normal => &self.normal, DispatchClass::Operational => &self.operational, DispatchClass::Mandatory => &self.mandatory } }
    }
    impl Default for BlockWeights { fn default() -> Self { Self::with_sensible_defaults(Weight::from_parts(WEIGHT_REF_TIME_PER_SECOND, u64::MAX), sp_runtime::Perbill::from_percent(75)) } }
    impl BlockWeights {
        pub fn get(&self, c: DispatchClass) -> &WeightsPerClass { self.per_class.get(c) }
        pub fn simple_max(block_weight: Weight) -> Self {
            let mut s = Self::with_sensible_defaults(block_weight, sp_runtime::Perbill::from_percent(100));
            s.per_class.normal.base_extrinsic = Weight::zero();
            s.per_class.operational.base_extrinsic = Weight::zero();
            s
        }
        pub fn with_sensible_defaults(total: Weight, normal: sp_runtime::Perbill) -> Self {
            let n = normal * total;
            let w = |m: Option<Weight>| WeightsPerClass { base_extrinsic: ExtrinsicBaseWeight::get(), max_extrinsic: m, max_total: m, reserved: Some(Weight::zero()) };
            Self { base_block: BlockExecutionWeight::get(), max_block: total, per_class: PerClass { normal: w(Some(n)), operational: w(Some(total)), mandatory: w(None) } }
        }
        pub fn builder() -> Self { Self::default() }
    }
    #[derive(Clone, Debug, Default)]
    pub struct BlockLength { pub max: u32 }
}
pub mod mocking {
    pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> = sp_runtime::generic::UncheckedExtrinsic<<T as crate::Config>::AccountId, <T as crate::Config>::RuntimeCall, Signature, Extra>;
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct MockExtrinsic;
    /// A block of the mock runtimes (u64 block number)
    pub type MockBlock<T> = Block<T, u64>;
    pub type MockBlockU32<T> = Block<T, u32>;
    #[derive(codec::Encode)]
    pub struct Block<T, N>(std::marker::PhantomData<fn() -> (T, N)>);
    impl<T, N> Clone for Block<T, N> { fn clone(&self) -> Self { Self(Default::default()) } }
    impl<T, N> PartialEq for Block<T, N> { fn eq(&self, _: &Self) -> bool { true } }
    impl<T, N> Eq for Block<T, N> {}
    impl<T, N> std::fmt::Debug for Block<T, N> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
    impl<T, N: sp_runtime::traits::BlockNumberBounds> sp_runtime::traits::HeaderProvider for Block<T, N> { type HeaderT = sp_runtime::generic::Header<N, sp_runtime::traits::BlakeTwo256>; }
    impl<T: 'static, N: sp_runtime::traits::BlockNumberBounds> sp_runtime::traits::Block for Block<T, N> {
        type Extrinsic = MockExtrinsic;
        type Header = sp_runtime::generic::Header<N, sp_runtime::traits::BlakeTwo256>;
        type Hash = sp_core::H256;
    }
}
pub mod config_preludes { pub struct TestDefaultConfig; }
pub trait DefaultConfig {}
pub mod pallet_prelude {
    pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
    pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
    pub type HeaderFor<T> = <<T as super::Config>::Block as sp_runtime::traits::HeaderProvider>::HeaderT;
    pub type BlockNumberFor<T> = <HeaderFor<T> as sp_runtime::traits::Header>::Number;
    pub type ExtrinsicFor<T> = <<T as super::Config>::Block as sp_runtime::traits::Block>::Extrinsic;
    pub type RuntimeCallFor<T> = <T as super::Config>::RuntimeCall;
}
pub type KeyValue = (Vec<u8>, Vec<u8>);
pub type Key = Vec<u8>;
pub type ConsumedWeight = Weight;
pub type RefCount = u32;
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone, TypeInfo, Default)]
pub enum Phase { ApplyExtrinsic(u32), Finalization, #[default] Initialization }
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone, TypeInfo)]
pub struct EventRecord<E: Parameter + Member, T> { pub phase: Phase, pub event: E, pub topics: Vec<T> }
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> { pub nonce: Nonce, pub consumers: RefCount, pub providers: RefCount, pub sufficients: RefCount, pub data: AccountData }
#[derive(Eq, PartialEq, RuntimeDebug)]
pub enum IncRefStatus { Created, Existed }
#[derive(Eq, PartialEq, RuntimeDebug)]
pub enum DecRefStatus { Reaped, Exists }
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct RuntimeVersion { pub spec_version: u32 }
pub trait WeightInfo {}
impl WeightInfo for () {}
pub trait SetCode<T> {}
impl<T> SetCode<T> for () {}
pub trait ConsumerLimits { fn max_consumers() -> RefCount; fn max_overflow() -> RefCount; }
impl<const Z: u32> ConsumerLimits for ConstU32<Z> { fn max_consumers() -> u32 { Z } fn max_overflow() -> u32 { Z } }

#[frame_support::pallet]
pub mod pallet {
    use super::pallet_prelude::*;
    use super::*;
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: 'static + Eq + Clone {
        type RuntimeEvent: Parameter + Member + From<Event<Self>> + std::fmt::Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type BaseCallFilter: Contains<Self::RuntimeCall>;
        type BlockWeights: Get<limits::BlockWeights>;
        type BlockLength: Get<limits::BlockLength>;
        type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + std::fmt::Debug + From<Call<Self>>;
        type RuntimeTask;
        type Nonce: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + Default + MaybeDisplay + traits::AtLeast32Bit + Copy + MaxEncodedLen;
        type Hash: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + MaybeDisplay + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
        type Hashing: traits::Hash<Output = Self::Hash> + TypeInfo;
        type AccountId: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + MaybeDisplay + Ord + MaxEncodedLen;
        type Lookup: StaticLookup<Target = Self::AccountId>;
        type Block: Parameter0 + traits::Block<Hash = Self::Hash>;
        type BlockHashCount: Get<BlockNumberFor<Self>>;
        type DbWeight: Get<RuntimeDbWeight>;
        type Version: Get<RuntimeVersion>;
        type PalletInfo: PalletInfo;
        type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
        type OnNewAccount: OnNewAccount<Self::AccountId>;
        type OnKilledAccount: OnKilledAccount<Self::AccountId>;
        type SystemWeightInfo: WeightInfo;
        type SS58Prefix: Get<u16>;
        type OnSetCode: SetCode<Self>;
        type MaxConsumers: ConsumerLimits;
    }
    pub trait Parameter0 {}
    impl<T> Parameter0 for T {}
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::error]
    pub enum Error<T> { InvalidSpecName, SpecVersionNeedsToIncrease, FailedToExtractRuntimeVersion, NonDefaultComposite, NonZeroRefCount, CallFiltered }
    #[pallet::event]
    pub enum Event<T: Config> {
        ExtrinsicSuccess { dispatch_info: DispatchInfo },
        ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo },
        CodeUpdated,
        NewAccount { account: T::AccountId },
        KilledAccount { account: T::AccountId },
        Remarked { sender: T::AccountId, hash: T::Hash },
    }
    #[pallet::origin]
    pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let _ = remark; Ok(().into()) }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::zero())]
        pub fn set_storage(origin: OriginFor<T>, items: Vec<KeyValue>) -> DispatchResultWithPostInfo {
            ensure_root(origin)?;
            for (k, v) in &items { frame_support::storage::unhashed::put_raw(k, v); }
            Ok(().into())
        }
        #[pallet::call_index(5)]
        #[pallet::weight(Weight::zero())]
        pub fn kill_storage(origin: OriginFor<T>, keys: Vec<Key>) -> DispatchResultWithPostInfo {
            ensure_root(origin)?;
            for k in &keys { frame_support::storage::unhashed::kill(k); }
            Ok(().into())
        }
        #[pallet::call_index(7)]
        #[pallet::weight(Weight::zero())]
        pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
            let who = ensure_signed(origin)?;
            let hash = <T::Hashing as traits::Hash>::hash(&remark[..]);
            Self::deposit_event(Event::Remarked { sender: who, hash });
            Ok(().into())
        }
    }
    #[pallet::storage]
    #[pallet::getter(fn account)]
    pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
    #[pallet::storage]
    pub type BlockWeight<T: Config> = StorageValue<_, Weight, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn block_hash)]
    pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn block_number)]
    pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn parent_hash)]
    pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
    #[pallet::storage]
    pub type ExtrinsicIdx<T: Config> = StorageValue<_, u32, OptionQuery>;
    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config> { #[serde(skip)] pub _config: PhantomData<T> }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) {} }
}

#[allow(type_alias_bounds)]

/// `System`'s parts: its origin is `RawOrigin`.
pub struct ChangedOriginMarker;

pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Signed(t)) => Ok(t), _ => Err(BadOrigin) } }
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Root) => Ok(None), Ok(RawOrigin::Signed(t)) => Ok(Some(t)), _ => Err(BadOrigin) } }
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(BadOrigin) } }
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(BadOrigin) } }

pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: OriginTrait<AccountId = A>, A> EnsureOrigin<O> for EnsureRoot<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> { match o.as_system_ref() { Some(RawOrigin::Root) => Ok(()), _ => Err(o) } }
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: OriginTrait<AccountId = A>, A: Clone> EnsureOrigin<O> for EnsureSigned<A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> { match o.as_system_ref() { Some(RawOrigin::Signed(w)) => Ok(w.clone()), _ => Err(o) } }
}
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: OriginTrait<AccountId = A>, W: SortedMembers<A>, A: Ord + Clone> EnsureOrigin<O> for EnsureSignedBy<W, A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> { match o.as_system_ref() { Some(RawOrigin::Signed(w)) if W::contains(w) => Ok(w.clone()), _ => Err(o) } }
}
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: OriginTrait<AccountId = A>, A> EnsureOrigin<O> for EnsureNone<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> { match o.as_system_ref() { Some(RawOrigin::None) => Ok(()), _ => Err(o) } }
}
pub struct EnsureNever<T>(PhantomData<T>);
impl<O, T> EnsureOrigin<O> for EnsureNever<T> { type Success = T; fn try_origin(o: O) -> Result<T, O> { Err(o) } }
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);

use pallet_prelude::BlockNumberFor;
impl<T: Config> Pallet<T> {
    pub fn account_exists(w: &T::AccountId) -> bool { Account::<T>::contains_key(w) }
    fn on_created_account(w: T::AccountId, _a: &mut AccountInfo<T::Nonce, T::AccountData>) {
        T::OnNewAccount::on_new_account(&w);
        Self::deposit_event(Event::NewAccount { account: w });
    }
    fn on_killed_account(w: T::AccountId) {
        T::OnKilledAccount::on_killed_account(&w);
        Self::deposit_event(Event::KilledAccount { account: w });
    }
    pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
        Account::<T>::mutate(who, |a| {
            if a.providers == 0 && a.sufficients == 0 { a.providers = 1; Self::on_created_account(who.clone(), a); IncRefStatus::Created }
            else { a.providers = a.providers.saturating_add(1); IncRefStatus::Existed }
        })
    }
    pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
        Account::<T>::try_mutate_exists(who, |m| {
            if let Some(mut a) = m.take() {
                if a.providers == 0 { a.providers = 1; }
                match (a.providers, a.consumers, a.sufficients) {
                    (1, 0, 0) => { Self::on_killed_account(who.clone()); Ok(DecRefStatus::Reaped) }
                    (1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
                    (x, _, _) => { a.providers = x - 1; *m = Some(a); Ok(DecRefStatus::Exists) }
                }
            } else { Ok(DecRefStatus::Reaped) }
        })
    }
    pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
        Account::<T>::mutate(who, |a| {
            if a.providers + a.sufficients == 0 { a.sufficients = 1; Self::on_created_account(who.clone(), a); IncRefStatus::Created }
            else { a.sufficients = a.sufficients.saturating_add(1); IncRefStatus::Existed }
        })
    }
    pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
        Account::<T>::mutate_exists(who, |m| {
            if let Some(mut a) = m.take() {
                match (a.sufficients, a.providers) {
                    (0, 0) | (1, 0) => { Self::on_killed_account(who.clone()); DecRefStatus::Reaped }
                    (x, _) => { a.sufficients = x.saturating_sub(1); *m = Some(a); DecRefStatus::Exists }
                }
            } else { DecRefStatus::Reaped }
        })
    }
    pub fn providers(who: &T::AccountId) -> RefCount { Account::<T>::get(who).providers }
    pub fn sufficients(who: &T::AccountId) -> RefCount { Account::<T>::get(who).sufficients }
    pub fn consumers(who: &T::AccountId) -> RefCount { Account::<T>::get(who).consumers }
    pub fn reference_count(who: &T::AccountId) -> RefCount { let a = Account::<T>::get(who); a.consumers + a.providers + a.sufficients }
    pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
        Account::<T>::try_mutate(who, |a| {
            if a.providers > 0 {
                if a.consumers < T::MaxConsumers::max_consumers() { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::TooManyConsumers) }
            } else { Err(DispatchError::NoProviders) }
        })
    }
    pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
        Account::<T>::try_mutate(who, |a| if a.providers > 0 { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::NoProviders) })
    }
    pub fn dec_consumers(who: &T::AccountId) { Account::<T>::mutate(who, |a| if a.consumers > 0 { a.consumers -= 1; }) }
    pub fn is_provider_required(who: &T::AccountId) -> bool { Account::<T>::get(who).consumers != 0 }
    pub fn can_dec_provider(who: &T::AccountId) -> bool { let a = Account::<T>::get(who); a.consumers == 0 || a.providers > 1 }
    pub fn can_accrue_consumers(who: &T::AccountId, n: u32) -> bool { let a = Account::<T>::get(who); match a.consumers.checked_add(n) { Some(c) => a.providers > 0 && c <= T::MaxConsumers::max_consumers(), None => false } }
    pub fn can_inc_consumer(who: &T::AccountId) -> bool { Self::can_accrue_consumers(who, 1) }

    pub fn deposit_event(event: impl Into<T::RuntimeEvent>) { Self::deposit_event_indexed(&[], event.into()) }
    pub fn deposit_event_indexed(topics: &[T::Hash], event: T::RuntimeEvent) {
        if Self::block_number().is_zero() { return; }
        sp_io::with_ext(|e| {
            if e.drop_events { return; }
            e.events.push(EventRecord::<T::RuntimeEvent, T::Hash> { phase: Phase::Initialization, event, topics: topics.to_vec() }.encode());
        });
    }
    pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
        let raw = sp_io::with_ext(|e| e.events.clone());
        raw.iter().map(|e| Decode::decode(&mut &e[..]).expect("event decodes")).collect()
    }
    pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> { Self::events().into_iter().map(Box::new) }
    pub fn read_events_for_pallet<E>() -> Vec<E> where T::RuntimeEvent: TryInto<E> { Self::events().into_iter().filter_map(|e| e.event.try_into().ok()).collect() }
    pub fn event_count() -> u32 { sp_io::with_ext(|e| e.events.len() as u32) }
    pub fn reset_events() { sp_io::with_ext(|e| e.events.clear()) }
    pub fn assert_has_event(event: T::RuntimeEvent) {
        let ev = Self::events();
        assert!(ev.iter().any(|r| r.event == event), "expected event {event:?} not found in events {ev:?}");
    }
    pub fn assert_last_event(event: T::RuntimeEvent) {
        let last = Self::events().last().expect("events expected").event.clone();
        assert_eq!(last, event, "expected event {event:?} is not equal to the last event {last:?}");
    }
    pub fn set_block_number(n: BlockNumberFor<T>) { Number::<T>::put(n) }
    pub fn current_block_number() -> BlockNumberFor<T> { Self::block_number() }
    pub fn initialize(n: &BlockNumberFor<T>, parent: &T::Hash, _d: &sp_runtime::generic::Digest) {
        ExtrinsicIdx::<T>::put(0u32);
        Number::<T>::put(*n);
        ParentHash::<T>::put(*parent);
        if !n.is_zero() { BlockHash::<T>::insert(*n - One::one(), *parent); }
        BlockWeight::<T>::kill();
        Self::reset_events();
    }
    pub fn set_parent_hash(h: T::Hash) { ParentHash::<T>::put(h) }
    pub fn finalize() -> traits::HeaderFor<T::Block> where T::Block: traits::HeaderProvider { ExtrinsicIdx::<T>::kill(); <traits::HeaderFor<T::Block> as traits::Header>::new(number_cast::<T>()) }
    pub fn extrinsic_index() -> Option<u32> { ExtrinsicIdx::<T>::get() }
    pub fn set_extrinsic_index(i: u32) { ExtrinsicIdx::<T>::put(i) }
    pub fn extrinsic_count() -> u32 { 0 }
    pub fn account_nonce(w: impl EncodeLike<T::AccountId>) -> T::Nonce { Account::<T>::get(w).nonce }
    pub fn inc_account_nonce(w: impl EncodeLike<T::AccountId>) { Account::<T>::mutate(w, |a| a.nonce += T::Nonce::one()) }
    pub fn block_weight() -> Weight { BlockWeight::<T>::get() }
    pub fn register_extra_weight_unchecked(w: Weight, _c: DispatchClass) { BlockWeight::<T>::mutate(|x| *x = x.saturating_add(w)) }
    pub fn runtime_block_number() -> BlockNumberFor<T> { Self::block_number() }
}
fn number_cast<T: Config>() -> BlockNumberFor<T> { Pallet::<T>::block_number() }

impl<T: Config> traits::BlockNumberProvider for Pallet<T> {
    type BlockNumber = BlockNumberFor<T>;
    fn current_block_number() -> Self::BlockNumber { Pallet::<T>::block_number() }
    fn set_block_number(n: BlockNumberFor<T>) { Self::set_block_number(n) }
}
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> {
    fn created(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::inc_providers(t); Ok(()) }
    fn killed(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::dec_providers(t).map(|_| ()) }
}
pub struct SelfSufficient<T>(PhantomData<T>);
pub struct Consumer<T>(PhantomData<T>);
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
    fn get(k: &T::AccountId) -> T::AccountData { Account::<T>::get(k).data }
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
        let a = Account::<T>::get(k);
        let mut some = if a.data == T::AccountData::default() { None } else { Some(a.data) };
        let r = f(&mut some)?;
        if Self::providers(k) > 0 || Self::sufficients(k) > 0 { Account::<T>::mutate(k, |a| a.data = some.unwrap_or_default()); } else { Account::<T>::remove(k) }
        Ok(r)
    }
}
macro_rules! ext { ($($n:ident),*) => { $(
    #[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
    #[scale_info(skip_type_params(T))]
    pub struct $n<T>(PhantomData<T>);
    impl<T> $n<T> { pub fn new() -> Self { Self(PhantomData) } }
)* }; }
ext!(CheckNonZeroSender, CheckSpecVersion, CheckTxVersion, CheckGenesis, CheckWeight);
pub struct ChainContext<T>(PhantomData<T>);
impl<T> Default for ChainContext<T> { fn default() -> Self { Self(PhantomData) } }
#[allow(unused)]
fn _c<T: Codec>() {}
