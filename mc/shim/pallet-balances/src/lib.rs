//! Stand-in for pallet-balances: the native-currency ledger.
#![allow(clippy::all)]
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::{ensure, pallet_prelude::*, traits::{
    fungible, tokens::{DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence, Fortitude::*, Preservation::*},
    BalanceStatus, Currency, Defensive, ExistenceRequirement, Get, Imbalance, LockIdentifier, LockableCurrency, NamedReservableCurrency, OnUnbalanced, ReservableCurrency, SameOrOther, SignedImbalance, StoredMap, TryDrop, WithdrawReasons}};
use frame_system::{self as system, pallet_prelude::*};
use scale_info::TypeInfo;
use sp_runtime::{traits::{AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Saturating, StaticLookup, Zero}, ArithmeticError, DispatchError, DispatchResult, FixedPointOperand, TokenError};
use std::fmt::Debug;
pub use pallet::*;
pub mod weights {
    use frame_support::weights::Weight;
    pub trait WeightInfo { fn transfer_allow_death() -> Weight { Weight::zero() } fn transfer_keep_alive() -> Weight { Weight::zero() } fn force_set_balance_creating() -> Weight { Weight::zero() } fn force_transfer() -> Weight { Weight::zero() } fn transfer_all() -> Weight { Weight::zero() } }
    impl WeightInfo for () {}
}
pub use weights::WeightInfo;
pub mod config_preludes { pub struct TestDefaultConfig; }
pub trait DefaultConfig {}

#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub enum Reasons { Fee = 0, Misc = 1, All = 2 }
impl From<WithdrawReasons> for Reasons {
    fn from(r: WithdrawReasons) -> Reasons {
        if r == WithdrawReasons::TRANSACTION_PAYMENT { Reasons::Fee } else if r.contains(WithdrawReasons::TRANSACTION_PAYMENT) { Reasons::All } else { Reasons::Misc }
    }
}
impl std::ops::BitOr for Reasons { type Output = Reasons; fn bitor(self, o: Reasons) -> Reasons { if self == o { self } else { Reasons::All } } }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<Balance> { pub id: LockIdentifier, pub amount: Balance, pub reasons: Reasons }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ReserveData<ReserveIdentifier, Balance> { pub id: ReserveIdentifier, pub amount: Balance }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<Id, Balance> { pub id: Id, pub amount: Balance }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> { pub free: Balance, pub reserved: Balance, pub frozen: Balance, pub flags: ExtraFlags }
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ExtraFlags(u128);
impl Default for ExtraFlags { fn default() -> Self { Self(0x80000000_00000000_00000000_00000000) } }
impl<Balance: Saturating + Copy> AccountData<Balance> { pub fn total(&self) -> Balance { self.free.saturating_add(self.reserved) } }

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type RuntimeHoldReason;
        type RuntimeFreezeReason;
        type WeightInfo: WeightInfo;
        type Balance: Parameter + Member + AtLeast32BitUnsigned + codec::HasCompact + Default + Copy + MaybeSerializeDeserialize + Debug + MaxEncodedLen + TypeInfo + FixedPointOperand;
        type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
        #[pallet::constant]
        type ExistentialDeposit: Get<Self::Balance>;
        type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
        type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
        type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Copy;
        #[pallet::constant]
        type MaxLocks: Get<u32>;
        #[pallet::constant]
        type MaxReserves: Get<u32>;
        #[pallet::constant]
        type MaxFreezes: Get<u32>;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { account: T::AccountId, free_balance: T::Balance },
        DustLost { account: T::AccountId, amount: T::Balance },
        Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
        BalanceSet { who: T::AccountId, free: T::Balance },
        Reserved { who: T::AccountId, amount: T::Balance },
        Unreserved { who: T::AccountId, amount: T::Balance },
        ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: BalanceStatus },
        Deposit { who: T::AccountId, amount: T::Balance },
        Withdraw { who: T::AccountId, amount: T::Balance },
        Slashed { who: T::AccountId, amount: T::Balance },
        Minted { who: T::AccountId, amount: T::Balance },
        Burned { who: T::AccountId, amount: T::Balance },
        Issued { amount: T::Balance },
        Rescinded { amount: T::Balance },
        Locked { who: T::AccountId, amount: T::Balance },
        Unlocked { who: T::AccountId, amount: T::Balance },
    }
    #[pallet::error]
    pub enum Error<T> { VestingBalance, LiquidityRestrictions, InsufficientBalance, ExistentialDeposit, Expendability, ExistingVestingSchedule, DeadAccount, TooManyReserves, TooManyHolds, TooManyFreezes }
    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn inactive_issuance)]
    pub type InactiveIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
    #[pallet::storage]
    pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<T::Balance>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn locks)]
    pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, frame_support::WeakBoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn reserves)]
    pub type Reserves<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<ReserveData<T::ReserveIdentifier, T::Balance>, T::MaxReserves>, ValueQuery>;
    #[pallet::genesis_config]
    pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::Balance)> }
    impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { balances: Default::default() } } }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            let total = self.balances.iter().fold(Zero::zero(), |a: T::Balance, (_, n)| a + *n);
            TotalIssuance::<T>::put(total);
            for (_, b) in &self.balances { assert!(*b >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit."); }
            let endowed = self.balances.iter().map(|(x, _)| x.clone()).collect::<std::collections::BTreeSet<_>>();
            assert!(endowed.len() == self.balances.len(), "duplicate balances in genesis.");
            for (who, free) in &self.balances {
                frame_system::Pallet::<T>::inc_providers(who);
                assert!(T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() }).is_ok());
            }
        }
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(T::WeightInfo::transfer_allow_death())]
        pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let source = ensure_signed(origin)?;
            let dest = T::Lookup::lookup(dest)?;
            <Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Expendable)?;
            Ok(())
        }
        #[pallet::call_index(2)]
        #[pallet::weight(T::WeightInfo::force_transfer())]
        pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let source = T::Lookup::lookup(source)?;
            let dest = T::Lookup::lookup(dest)?;
            <Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Expendable)?;
            Ok(())
        }
        #[pallet::call_index(3)]
        #[pallet::weight(T::WeightInfo::transfer_keep_alive())]
        pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let source = ensure_signed(origin)?;
            let dest = T::Lookup::lookup(dest)?;
            <Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preserve)?;
            Ok(())
        }
        #[pallet::call_index(4)]
        #[pallet::weight(T::WeightInfo::transfer_all())]
        pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
            let who = ensure_signed(origin)?;
            let p = if keep_alive { Preserve } else { Expendable };
            let b = <Self as fungible::Inspect<_>>::reducible_balance(&who, p, Polite);
            let dest = T::Lookup::lookup(dest)?;
            <Self as fungible::Mutate<_>>::transfer(&who, &dest, b, p)?;
            Ok(())
        }
        #[pallet::call_index(8)]
        #[pallet::weight(T::WeightInfo::force_set_balance_creating())]
        pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            let ed = T::ExistentialDeposit::get();
            let new_free = if new_free < ed { Zero::zero() } else { new_free };
            let old = Self::try_mutate_account_handling_dust(&who, |a, _| -> Result<T::Balance, DispatchError> { let o = a.free; a.free = new_free; Ok(o) })?;
            if new_free > old { drop(PositiveImbalance::<T>::new(new_free - old)); } else if new_free < old { drop(NegativeImbalance::<T>::new(old - new_free)); }
            Self::deposit_event(Event::BalanceSet { who, free: new_free });
            Ok(())
        }
    }
}
impl<T: Config> Pallet<T> {
    pub fn account(who: &T::AccountId) -> AccountData<T::Balance> { T::AccountStore::get(who) }
    pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).free }
    pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { <Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Expendable, Polite) }
    pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).reserved }
    pub fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
        let r = T::AccountStore::try_mutate_exists(who, |maybe| -> Result<_, E> {
            let is_new = maybe.is_none();
            let mut account = maybe.take().unwrap_or_default();
            let ed = T::ExistentialDeposit::get();
            let did_provide = account.free >= ed;
            let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
            let result = f(&mut account, is_new)?;
            let does_provide = account.free >= ed;
            let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
            if !did_provide && does_provide { system::Pallet::<T>::inc_providers(who); }
            if did_consume && !does_consume { system::Pallet::<T>::dec_consumers(who); }
            if !did_consume && does_consume { system::Pallet::<T>::inc_consumers(who)?; }
            if did_provide && !does_provide {
                system::Pallet::<T>::dec_providers(who).map_err(|r| {
                    if did_consume && !does_consume { let _ = system::Pallet::<T>::inc_consumers(who); }
                    if !did_consume && does_consume { system::Pallet::<T>::dec_consumers(who); }
                    r
                })?;
            }
            let endowed = if is_new { Some(account.free) } else { None };
            let dust = if account.free < ed && account.reserved.is_zero() {
                if account.free.is_zero() { None } else { Some(account.free) }
            } else {
                *maybe = Some(account);
                None
            };
            Ok((endowed, dust, result))
        });
        r.map(|(endowed, dust, result)| {
            if let Some(free_balance) = endowed { Self::deposit_event(Event::Endowed { account: who.clone(), free_balance }); }
            if let Some(amount) = dust { Self::deposit_event(Event::DustLost { account: who.clone(), amount }); }
            (result, dust)
        })
    }
    fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> {
        let (r, dust) = Self::try_mutate_account(who, f)?;
        if let Some(d) = dust { <Self as fungible::Unbalanced<_>>::handle_raw_dust(d); }
        Ok(r)
    }
    fn update_locks(who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) {
        let bounded = frame_support::WeakBoundedVec::<_, T::MaxLocks>::force_from(locks.to_vec(), Some("Balances Update Locks"));
        let r = Self::try_mutate_account(who, |b, _| -> Result<(T::Balance, T::Balance), DispatchError> {
            let prev = b.frozen;
            b.frozen = Zero::zero();
            for l in locks { b.frozen = b.frozen.max(l.amount); }
            Ok((prev, b.frozen))
        });
        debug_assert!(r.is_ok());
        let existed = Locks::<T>::contains_key(who);
        if locks.is_empty() {
            Locks::<T>::remove(who);
            if existed { system::Pallet::<T>::dec_consumers(who); }
        } else {
            Locks::<T>::insert(who, bounded);
            if !existed { let _ = system::Pallet::<T>::inc_consumers_without_limit(who); }
        }
        if let Ok(((prev, after), _)) = r {
            if prev > after { Self::deposit_event(Event::Unlocked { who: who.clone(), amount: prev.saturating_sub(after) }); }
            else if after > prev { Self::deposit_event(Event::Locked { who: who.clone(), amount: after.saturating_sub(prev) }); }
        }
    }
    fn do_transfer_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if value.is_zero() { return Ok(Zero::zero()); }
        let actual = value.min(Self::account(slashed).reserved);
        if slashed == beneficiary {
            return match status { BalanceStatus::Free => Ok(actual.saturating_sub(<Self as ReservableCurrency<_>>::unreserve(slashed, actual))), BalanceStatus::Reserved => Ok(actual) };
        }
        let ((_, d1), d2) = Self::try_mutate_account(beneficiary, |to, is_new| -> Result<((), Option<T::Balance>), DispatchError> {
            ensure!(!is_new, Error::<T>::DeadAccount);
            Self::try_mutate_account(slashed, |from, _| -> DispatchResult {
                match status {
                    BalanceStatus::Free => to.free = to.free.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
                    BalanceStatus::Reserved => to.reserved = to.reserved.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
                }
                from.reserved = from.reserved.saturating_sub(actual);
                Ok(())
            })
        })?;
        for d in [d1, d2].into_iter().flatten() { <Self as fungible::Unbalanced<_>>::handle_raw_dust(d); }
        Self::deposit_event(Event::ReserveRepatriated { from: slashed.clone(), to: beneficiary.clone(), amount: actual, destination_status: status });
        Ok(actual)
    }
}
macro_rules! imbalance { ($n:ident, $o:ident, $dir:ident, $ev:ident) => {
    #[must_use]
    pub struct $n<T: Config>(T::Balance);
    impl<T: Config> $n<T> { pub fn new(a: T::Balance) -> Self { Self(a) } }
    impl<T: Config> Default for $n<T> { fn default() -> Self { Self(Zero::zero()) } }
    impl<T: Config> Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
    impl<T: Config> PartialEq for $n<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<T: Config> TryDrop for $n<T> { fn try_drop(self) -> Result<(), Self> { self.drop_zero() } }
    impl<T: Config> Imbalance<T::Balance> for $n<T> {
        type Opposite = $o<T>;
        fn zero() -> Self { Self(Zero::zero()) }
        fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { std::mem::forget(self); Ok(()) } else { Err(self) } }
        fn split(self, amount: T::Balance) -> (Self, Self) { let f = self.0.min(amount); let s = self.0 - f; std::mem::forget(self); (Self(f), Self(s)) }
        fn merge(mut self, o: Self) -> Self { self.0 = self.0.saturating_add(o.0); std::mem::forget(o); self }
        fn subsume(&mut self, o: Self) { self.0 = self.0.saturating_add(o.0); std::mem::forget(o); }
        fn offset(self, o: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
            let (a, b) = (self.0, o.0);
            std::mem::forget((self, o));
            if a > b { SameOrOther::Same(Self(a - b)) } else if b > a { SameOrOther::Other($o(b - a)) } else { SameOrOther::None }
        }
        fn peek(&self) -> T::Balance { self.0 }
    }
    impl<T: Config> Drop for $n<T> { fn drop(&mut self) { if !self.0.is_zero() { TotalIssuance::<T>::mutate(|v| *v = v.$dir(self.0)); Pallet::<T>::deposit_event(Event::$ev { amount: self.0 }); } } }
} }
imbalance!(PositiveImbalance, NegativeImbalance, saturating_add, Issued);
imbalance!(NegativeImbalance, PositiveImbalance, saturating_sub, Rescinded);

impl<T: Config> Currency<T::AccountId> for Pallet<T> {
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T>;
    type NegativeImbalance = NegativeImbalance<T>;
    fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
    fn can_slash(who: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::free_balance(who) >= v }
    fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
    fn active_issuance() -> T::Balance { <Self as fungible::Inspect<_>>::active_issuance() }
    fn minimum_balance() -> T::Balance { T::ExistentialDeposit::get() }
    fn burn(mut a: T::Balance) -> Self::PositiveImbalance {
        if a.is_zero() { return PositiveImbalance::new(a); }
        TotalIssuance::<T>::mutate(|i| *i = i.checked_sub(&a).unwrap_or_else(|| { a = *i; Zero::zero() }));
        PositiveImbalance::new(a)
    }
    fn issue(mut a: T::Balance) -> Self::NegativeImbalance {
        if a.is_zero() { return NegativeImbalance::new(a); }
        TotalIssuance::<T>::mutate(|i| *i = i.checked_add(&a).unwrap_or_else(|| { a = T::Balance::max_value() - *i; T::Balance::max_value() }));
        NegativeImbalance::new(a)
    }
    fn free_balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
    fn ensure_can_withdraw(who: &T::AccountId, a: T::Balance, _r: WithdrawReasons, new: T::Balance) -> DispatchResult {
        if a.is_zero() { return Ok(()); }
        ensure!(new >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if v.is_zero() || s == d { return Ok(()); }
        let p = match er { ExistenceRequirement::KeepAlive => Preserve, ExistenceRequirement::AllowDeath => Expendable };
        <Self as fungible::Mutate<_>>::transfer(s, d, v, p)?;
        Ok(())
    }
    fn slash(who: &T::AccountId, v: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if v.is_zero() { return (NegativeImbalance::zero(), Zero::zero()); }
        if Self::account(who).total().is_zero() { return (NegativeImbalance::zero(), v); }
        match Self::try_mutate_account_handling_dust(who, |a, _| -> Result<_, DispatchError> {
            let actual = if system::Pallet::<T>::can_dec_provider(who) { v.min(a.free) } else { v.min(a.free.saturating_sub(T::ExistentialDeposit::get())) };
            a.free = a.free.saturating_sub(actual);
            Ok((NegativeImbalance::new(actual), v.saturating_sub(actual)))
        }) {
            Ok((i, r)) => { Self::deposit_event(Event::Slashed { who: who.clone(), amount: v.saturating_sub(r) }); (i, r) }
            Err(_) => (NegativeImbalance::zero(), v),
        }
    }
    fn deposit_into_existing(who: &T::AccountId, v: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        if v.is_zero() { return Ok(PositiveImbalance::zero()); }
        Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> {
            ensure!(!is_new, Error::<T>::DeadAccount);
            a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
            Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
            Ok(PositiveImbalance::new(v))
        })
    }
    fn deposit_creating(who: &T::AccountId, v: T::Balance) -> Self::PositiveImbalance {
        if v.is_zero() { return PositiveImbalance::zero(); }
        Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> {
            ensure!(v >= T::ExistentialDeposit::get() || !is_new, Error::<T>::ExistentialDeposit);
            a.free = match a.free.checked_add(&v) { Some(x) => x, None => return Ok(PositiveImbalance::zero()) };
            Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
            Ok(PositiveImbalance::new(v))
        }).unwrap_or_else(|_| PositiveImbalance::zero())
    }
    fn withdraw(who: &T::AccountId, v: T::Balance, r: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
        if v.is_zero() { return Ok(NegativeImbalance::zero()); }
        Self::try_mutate_account_handling_dust(who, |a, _| -> Result<_, DispatchError> {
            let new = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
            let ed = T::ExistentialDeposit::get();
            ensure!(liveness == ExistenceRequirement::AllowDeath || !(new < ed && a.free >= ed), Error::<T>::Expendability);
            <Self as Currency<_>>::ensure_can_withdraw(who, v, r, new)?;
            a.free = new;
            Self::deposit_event(Event::Withdraw { who: who.clone(), amount: v });
            Ok(NegativeImbalance::new(v))
        })
    }
    fn make_free_balance_be(who: &T::AccountId, v: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> {
            ensure!(v >= T::ExistentialDeposit::get() || !is_new, Error::<T>::ExistentialDeposit);
            let imb = if a.free <= v { SignedImbalance::Positive(PositiveImbalance::new(v - a.free)) } else { SignedImbalance::Negative(NegativeImbalance::new(a.free - v)) };
            a.free = v;
            Self::deposit_event(Event::BalanceSet { who: who.clone(), free: a.free });
            Ok(imb)
        }).unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
    }
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool {
        v.is_zero() || Self::account(who).free.checked_sub(&v).map_or(false, |n| <Self as Currency<_>>::ensure_can_withdraw(who, v, WithdrawReasons::RESERVE, n).is_ok())
    }
    fn reserved_balance(who: &T::AccountId) -> T::Balance { Self::account(who).reserved }
    fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult {
        if v.is_zero() { return Ok(()); }
        Self::try_mutate_account_handling_dust(who, |a, _| -> DispatchResult {
            a.free = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
            a.reserved = a.reserved.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
            <Self as Currency<_>>::ensure_can_withdraw(who, v, WithdrawReasons::RESERVE, a.free)
        })?;
        Self::deposit_event(Event::Reserved { who: who.clone(), amount: v });
        Ok(())
    }
    fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance {
        if v.is_zero() { return Zero::zero(); }
        if Self::account(who).total().is_zero() { return v; }
        match Self::try_mutate_account_handling_dust(who, |a, _| -> Result<T::Balance, DispatchError> {
            let actual = a.reserved.min(v);
            a.reserved -= actual;
            a.free = a.free.saturating_add(actual);
            Ok(actual)
        }) {
            Ok(actual) => { Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual }); v - actual }
            Err(_) => v,
        }
    }
    fn slash_reserved(who: &T::AccountId, v: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if v.is_zero() { return (NegativeImbalance::zero(), Zero::zero()); }
        if Self::account(who).total().is_zero() { return (NegativeImbalance::zero(), v); }
        match Self::try_mutate_account_handling_dust(who, |a, _| -> Result<_, DispatchError> {
            let best = v.min(a.reserved);
            a.reserved = a.reserved.saturating_sub(best);
            Ok((NegativeImbalance::new(best), v.saturating_sub(best)))
        }) {
            Ok((i, r)) => { Self::deposit_event(Event::Slashed { who: who.clone(), amount: v.saturating_sub(r) }); (i, r) }
            Err(_) => (NegativeImbalance::zero(), v),
        }
    }
    fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        Ok(v.saturating_sub(Self::do_transfer_reserved(s, b, v, status)?))
    }
}
impl<T: Config> NamedReservableCurrency<T::AccountId> for Pallet<T> {
    type ReserveIdentifier = T::ReserveIdentifier;
    fn reserved_balance_named(id: &T::ReserveIdentifier, who: &T::AccountId) -> T::Balance {
        let r = Reserves::<T>::get(who);
        r.binary_search_by_key(id, |d| d.id).map(|i| r[i].amount).unwrap_or_default()
    }
    fn reserve_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> DispatchResult {
        if v.is_zero() { return Ok(()); }
        Reserves::<T>::try_mutate(who, |r| -> DispatchResult {
            match r.binary_search_by_key(id, |d| d.id) {
                Ok(i) => r[i].amount = r[i].amount.checked_add(&v).ok_or(ArithmeticError::Overflow)?,
                Err(i) => { r.try_insert(i, ReserveData { id: *id, amount: v }).map_err(|_| Error::<T>::TooManyReserves)?; }
            };
            <Self as ReservableCurrency<_>>::reserve(who, v)?;
            Ok(())
        })
    }
    fn unreserve_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> T::Balance {
        if v.is_zero() { return Zero::zero(); }
        Reserves::<T>::mutate_exists(who, |m| {
            let Some(r) = m.as_mut() else { return v };
            match r.binary_search_by_key(id, |d| d.id) {
                Ok(i) => {
                    let to = r[i].amount.min(v);
                    let remain = <Self as ReservableCurrency<_>>::unreserve(who, to);
                    let actual = to.saturating_sub(remain);
                    r[i].amount = r[i].amount.saturating_sub(actual);
                    if r[i].amount.is_zero() { if r.len() == 1 { *m = None; } else { r.remove(i); } }
                    v - actual
                }
                Err(_) => v,
            }
        })
    }
    fn slash_reserved_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if v.is_zero() { return (NegativeImbalance::zero(), Zero::zero()); }
        Reserves::<T>::mutate(who, |r| match r.binary_search_by_key(id, |d| d.id) {
            Ok(i) => {
                let to = r[i].amount.min(v);
                let (imb, remain) = <Self as ReservableCurrency<_>>::slash_reserved(who, to);
                let actual = to.saturating_sub(remain);
                r[i].amount = r[i].amount.saturating_sub(actual);
                (imb, v - actual)
            }
            Err(_) => (NegativeImbalance::zero(), v),
        })
    }
    fn repatriate_reserved_named(id: &T::ReserveIdentifier, s: &T::AccountId, b: &T::AccountId, v: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if v.is_zero() { return Ok(Zero::zero()); }
        if s == b {
            return match status { BalanceStatus::Free => Ok(Self::unreserve_named(id, s, v)), BalanceStatus::Reserved => Ok(v.saturating_sub(Self::reserved_balance_named(id, s))) };
        }
        Reserves::<T>::try_mutate(s, |r| -> Result<T::Balance, DispatchError> {
            match r.binary_search_by_key(id, |d| d.id) {
                Ok(i) => {
                    let to = r[i].amount.min(v);
                    let remain = <Self as ReservableCurrency<_>>::repatriate_reserved(s, b, to, status)?;
                    let actual = to.saturating_sub(remain);
                    if status == BalanceStatus::Reserved {
                        Reserves::<T>::try_mutate(b, |rs| -> DispatchResult {
                            match rs.binary_search_by_key(id, |d| d.id) {
                                Ok(j) => rs[j].amount = rs[j].amount.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
                                Err(j) => { rs.try_insert(j, ReserveData { id: *id, amount: actual }).map_err(|_| Error::<T>::TooManyReserves)?; }
                            };
                            Ok(())
                        })?;
                    }
                    r[i].amount = r[i].amount.saturating_sub(actual);
                    Ok(v - actual)
                }
                Err(_) => Ok(v),
            }
        })
    }
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = BlockNumberFor<T>;
    type MaxLocks = T::MaxLocks;
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if reasons == WithdrawReasons::empty() || amount.is_zero() { return Self::remove_lock(id, who); }
        let mut new = Some(BalanceLock { id, amount, reasons: reasons.into() });
        let mut locks = Locks::<T>::get(who).into_iter().filter_map(|l| if l.id == id { new.take() } else { Some(l) }).collect::<Vec<_>>();
        if let Some(l) = new { locks.push(l); }
        Self::update_locks(who, &locks[..]);
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if amount.is_zero() || reasons == WithdrawReasons::empty() { return; }
        let mut new = Some(BalanceLock { id, amount, reasons: reasons.into() });
        let mut locks = Locks::<T>::get(who).into_iter().filter_map(|l| if l.id == id { new.take().map(|n| BalanceLock { id, amount: l.amount.max(n.amount), reasons: l.reasons | n.reasons }) } else { Some(l) }).collect::<Vec<_>>();
        if let Some(l) = new { locks.push(l); }
        Self::update_locks(who, &locks[..]);
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
        let mut locks = Locks::<T>::get(who).into_inner();
        locks.retain(|l| l.id != id);
        Self::update_locks(who, &locks[..]);
    }
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
    type Balance = T::Balance;
    fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
    fn active_issuance() -> T::Balance { TotalIssuance::<T>::get().saturating_sub(InactiveIssuance::<T>::get()) }
    fn minimum_balance() -> T::Balance { T::ExistentialDeposit::get() }
    fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
    fn balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
    fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
        let a = Self::account(who);
        let mut untouchable: T::Balance = Zero::zero();
        if f == Polite { untouchable = a.frozen.saturating_sub(a.reserved); }
        if p == Preserve || p == Protect && !a.free.is_zero() && system::Pallet::<T>::providers(who) == 1 || p == Expendable && !a.free.is_zero() && !system::Pallet::<T>::can_dec_provider(who) {
            untouchable = untouchable.max(T::ExistentialDeposit::get());
        }
        a.free.saturating_sub(untouchable)
    }
    fn can_deposit(who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
        if amount.is_zero() { return DepositConsequence::Success; }
        if p == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() { return DepositConsequence::Overflow; }
        let a = Self::account(who);
        let new = match a.free.checked_add(&amount) { None => return DepositConsequence::Overflow, Some(x) if x < T::ExistentialDeposit::get() => return DepositConsequence::BelowMinimum, Some(x) => x };
        if a.reserved.checked_add(&new).is_none() { return DepositConsequence::Overflow; }
        DepositConsequence::Success
    }
    fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
        if amount.is_zero() { return WithdrawConsequence::Success; }
        if TotalIssuance::<T>::get().checked_sub(&amount).is_none() { return WithdrawConsequence::Underflow; }
        let a = Self::account(who);
        let Some(new) = a.free.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
        if amount > <Self as fungible::Inspect<_>>::reducible_balance(who, Expendable, Polite) { return WithdrawConsequence::Frozen; }
        let success = if new < T::ExistentialDeposit::get() {
            if system::Pallet::<T>::can_dec_provider(who) { WithdrawConsequence::ReducedToZero(new) } else { return WithdrawConsequence::WouldDie; }
        } else { WithdrawConsequence::Success };
        if new.saturating_add(a.reserved) < a.frozen { return WithdrawConsequence::Frozen; }
        success
    }
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
    fn handle_dust(d: fungible::Dust<T::AccountId, Self>) { T::DustRemoval::on_unbalanced(NegativeImbalance::new(d.0)); }
    fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
        let max = <Self as fungible::Inspect<_>>::reducible_balance(who, Expendable, Force);
        let (_, dust) = Self::try_mutate_account(who, |a, _| -> DispatchResult {
            ensure!(a.free.saturating_sub(amount) <= max, Error::<T>::InsufficientBalance);
            a.free = amount;
            Ok(())
        })?;
        Ok(dust)
    }
    fn set_total_issuance(a: T::Balance) { TotalIssuance::<T>::put(a); }
    fn deactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|b| *b = b.saturating_add(a).min(TotalIssuance::<T>::get())); }
    fn reactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|b| *b = b.saturating_sub(a)); }
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
    fn done_mint_into(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Minted { who: who.clone(), amount }); }
    fn done_burn_from(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Burned { who: who.clone(), amount }); }
    fn done_transfer(s: &T::AccountId, d: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount }); }
}
#[allow(unused)]
fn _u(_: TokenError, _: Precision) where Option<()>: Defensive<()> {}
