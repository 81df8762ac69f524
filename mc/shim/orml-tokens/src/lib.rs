//! Stand-in for orml-tokens: the multi-currency ledger.
#![allow(clippy::all)]
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::{ensure, pallet_prelude::*, traits::{fungibles, Contains, DefensiveSaturating, ExistenceRequirement, Get, LockIdentifier, BalanceStatus,
    tokens::{DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence}}};
use frame_system::pallet_prelude::*;
use orml_traits::{arithmetic::{self, Signed}, currency::{MutationHooks, OnDeposit, OnDust, OnSlash, OnTransfer, TransferAll}, GetByKey, Happened, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency, NamedMultiReservableCurrency};
use sp_runtime::{traits::{AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero}, ArithmeticError, DispatchError, DispatchResult};
use scale_info::TypeInfo;

pub trait WeightInfo {
    fn transfer() -> Weight;
    fn transfer_all() -> Weight;
    fn transfer_keep_alive() -> Weight;
    fn force_transfer() -> Weight;
    fn set_balance() -> Weight;
}
impl WeightInfo for () {
    fn transfer() -> Weight { Weight::zero() }
    fn transfer_all() -> Weight { Weight::zero() }
    fn transfer_keep_alive() -> Weight { Weight::zero() }
    fn force_transfer() -> Weight { Weight::zero() }
    fn set_balance() -> Weight { Weight::zero() }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, Debug, TypeInfo)]
pub struct BalanceLock<Balance> { pub id: LockIdentifier, pub amount: Balance }
#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, Debug, TypeInfo)]
pub struct ReserveData<ReserveIdentifier, Balance> { pub id: ReserveIdentifier, pub amount: Balance }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, Debug, TypeInfo)]
pub struct AccountData<Balance> { pub free: Balance, pub reserved: Balance, pub frozen: Balance }
impl<Balance: Saturating + Copy + Ord> AccountData<Balance> {
    pub fn frozen(&self) -> Balance { self.frozen }
    fn total(&self) -> Balance { self.free.saturating_add(self.reserved) }
}
pub use module::*;

#[frame_support::pallet]
pub mod module {
    use super::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type Balance: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + TypeInfo;
        type Amount: Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + Parameter + Member + arithmetic::SimpleArithmetic + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
        type CurrencyId: Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
        type WeightInfo: WeightInfo;
        type ExistentialDeposits: GetByKey<Self::CurrencyId, Self::Balance>;
        type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
        #[pallet::constant]
        type MaxLocks: Get<u32>;
        #[pallet::constant]
        type MaxReserves: Get<u32>;
        type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
        type DustRemovalWhitelist: Contains<Self::AccountId>;
    }
    #[pallet::error]
    pub enum Error<T> { BalanceTooLow, AmountIntoBalanceFailed, LiquidityRestrictions, MaxLocksExceeded, KeepAlive, ExistentialDeposit, DeadAccount, TooManyReserves }
    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        DustLost { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
        Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        ReserveRepatriated { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance, status: BalanceStatus },
        BalanceSet { currency_id: T::CurrencyId, who: T::AccountId, free: T::Balance, reserved: T::Balance },
        TotalIssuanceSet { currency_id: T::CurrencyId, amount: T::Balance },
        Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
        Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockSet { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockRemoved { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId },
        Locked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unlocked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
    }
    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn locks)]
    pub type Locks<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn accounts)]
    pub type Accounts<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, AccountData<T::Balance>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn reserves)]
    pub type Reserves<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<ReserveData<T::ReserveIdentifier, T::Balance>, T::MaxReserves>, ValueQuery>;
    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::CurrencyId, T::Balance)> }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            let endowed = self.balances.iter().map(|(a, c, _)| (a.clone(), *c)).collect::<std::collections::BTreeSet<_>>();
            assert!(endowed.len() == self.balances.len(), "duplicate endowed accounts in genesis.");
            for (who, c, b) in &self.balances {
                assert!(*b >= T::ExistentialDeposits::get(c), "the balance of any account should always be more than existential deposit.");
                Pallet::<T>::mutate_account(who, *c, |a, _| a.free = *b);
                TotalIssuance::<T>::mutate(c, |t| *t = t.checked_add(b).expect("total issuance cannot overflow when building genesis"));
            }
        }
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(T::WeightInfo::transfer())]
        pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(1)]
        #[pallet::weight(T::WeightInfo::transfer_all())]
        pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, keep_alive: bool) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            let p = if keep_alive { Preservation::Protect } else { Preservation::Expendable };
            let b = <Self as fungibles::Inspect<T::AccountId>>::reducible_balance(currency_id, &from, p, Fortitude::Polite);
            <Self as fungibles::Mutate<_>>::transfer(currency_id, &from, &to, b, p).map(|_| ())
        }
        #[pallet::call_index(2)]
        #[pallet::weight(T::WeightInfo::transfer_keep_alive())]
        pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResultWithPostInfo {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::KeepAlive)?;
            Ok(().into())
        }
        #[pallet::call_index(3)]
        #[pallet::weight(T::WeightInfo::force_transfer())]
        pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let from = T::Lookup::lookup(source)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(4)]
        #[pallet::weight(T::WeightInfo::set_balance())]
        pub fn set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] new_free: T::Balance, #[pallet::compact] new_reserved: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            Self::try_mutate_account(&who, currency_id, |account, _| -> DispatchResult {
                let mut new_total = new_free.checked_add(&new_reserved).ok_or(ArithmeticError::Overflow)?;
                let (f, r) = if new_total < T::ExistentialDeposits::get(&currency_id) { new_total = Zero::zero(); (Zero::zero(), Zero::zero()) } else { (new_free, new_reserved) };
                let old_total = account.total();
                account.free = f;
                account.reserved = r;
                if new_total > old_total { TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult { *t = t.checked_add(&(new_total - old_total)).ok_or(ArithmeticError::Overflow)?; Ok(()) })?; }
                else if new_total < old_total { TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult { *t = t.checked_sub(&(old_total - new_total)).ok_or(ArithmeticError::Underflow)?; Ok(()) })?; }
                Self::deposit_event(Event::BalanceSet { currency_id, who: who.clone(), free: f, reserved: r });
                Ok(())
            })?;
            Ok(())
        }
    }
}
type Hook<T> = <T as Config>::CurrencyHooks;
macro_rules! hook { ($t:ident) => { <Hook<T> as MutationHooks<T::AccountId, T::CurrencyId, T::Balance>>::$t } }

impl<T: Config> Pallet<T> {
    pub(crate) fn deposit_consequence(_who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance, account: &AccountData<T::Balance>) -> DepositConsequence {
        if amount.is_zero() { return DepositConsequence::Success; }
        if TotalIssuance::<T>::get(currency_id).checked_add(&amount).is_none() { return DepositConsequence::Overflow; }
        let Some(total) = account.total().checked_add(&amount) else { return DepositConsequence::Overflow };
        if total < T::ExistentialDeposits::get(&currency_id) { return DepositConsequence::BelowMinimum; }
        DepositConsequence::Success
    }
    pub(crate) fn withdraw_consequence(who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance, account: &AccountData<T::Balance>) -> WithdrawConsequence<T::Balance> {
        if amount.is_zero() { return WithdrawConsequence::Success; }
        if TotalIssuance::<T>::get(currency_id).checked_sub(&amount).is_none() { return WithdrawConsequence::Underflow; }
        let Some(total) = account.total().checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
        let success = if total < T::ExistentialDeposits::get(&currency_id) {
            if frame_system::Pallet::<T>::can_dec_provider(who) { WithdrawConsequence::ReducedToZero(total) } else { return WithdrawConsequence::WouldDie; }
        } else { WithdrawConsequence::Success };
        let Some(free) = account.free.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
        if free < account.frozen() { return WithdrawConsequence::Frozen; }
        success
    }
    pub(crate) fn ensure_can_withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() { return Ok(()); }
        let b = Self::accounts(who, currency_id);
        let new = b.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        ensure!(new >= b.frozen(), Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    pub fn try_mutate_account<R, E>(who: &T::AccountId, currency_id: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
        Accounts::<T>::try_mutate_exists(who, currency_id, |maybe| {
            let existed = maybe.is_some();
            let mut account = maybe.take().unwrap_or_default();
            f(&mut account, existed).map(|result| {
                let endowed = if !existed { Some(account.free) } else { None };
                let mut dust = None;
                let total = account.total();
                *maybe = if total < T::ExistentialDeposits::get(&currency_id) {
                    if total.is_zero() { None } else {
                        if !T::DustRemovalWhitelist::contains(who) { dust = Some(total); }
                        Some(account)
                    }
                } else { Some(account) };
                (endowed, existed, maybe.is_some(), dust, result)
            })
        }).map(|(endowed, existed, exists, dust, result)| {
            if existed && !exists {
                let _ = frame_system::Pallet::<T>::dec_providers(who);
                <hook!(OnKilledTokenAccount)>::happened(&(who.clone(), currency_id));
            } else if !existed && exists {
                frame_system::Pallet::<T>::inc_providers(who);
                <hook!(OnNewTokenAccount)>::happened(&(who.clone(), currency_id));
            }
            if let Some(amount) = endowed { Self::deposit_event(Event::Endowed { currency_id, who: who.clone(), amount }); }
            if let Some(amount) = dust {
                <hook!(OnDust)>::on_dust(who, currency_id, amount);
                Self::deposit_event(Event::DustLost { currency_id, who: who.clone(), amount });
            }
            (result, dust)
        })
    }
    pub(crate) fn mutate_account<R>(who: &T::AccountId, currency_id: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> R) -> (R, Option<T::Balance>) {
        Self::try_mutate_account(who, currency_id, |a, e| -> Result<R, std::convert::Infallible> { Ok(f(a, e)) }).expect("infallible")
    }
    pub(crate) fn set_free_balance(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) { Self::mutate_account(who, currency_id, |a, _| a.free = amount); }
    pub(crate) fn set_reserved_balance(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) { Self::mutate_account(who, currency_id, |a, _| a.reserved = amount); }
    fn dead(who: &T::AccountId, total: T::Balance, ed: T::Balance) -> bool { total < ed && (total.is_zero() || !T::DustRemovalWhitelist::contains(who)) }
    pub(crate) fn do_transfer(currency_id: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if amount.is_zero() || from == to { return Ok(()); }
        <hook!(PreTransfer)>::on_transfer(currency_id, from, to, amount)?;
        Self::try_mutate_account(to, currency_id, |to_account, _| -> DispatchResult {
            Self::try_mutate_account(from, currency_id, |from_account, _| -> DispatchResult {
                from_account.free = from_account.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
                to_account.free = to_account.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
                let ed = T::ExistentialDeposits::get(&currency_id);
                ensure!(to_account.total() >= ed || T::DustRemovalWhitelist::contains(to), Error::<T>::ExistentialDeposit);
                Self::ensure_can_withdraw(currency_id, from, amount)?;
                let allow_death = er == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(from);
                ensure!(allow_death || !Self::dead(from, from_account.total(), ed), Error::<T>::KeepAlive);
                Ok(())
            })?;
            Ok(())
        })?;
        <hook!(PostTransfer)>::on_transfer(currency_id, from, to, amount)?;
        Self::deposit_event(Event::Transfer { currency_id, from: from.clone(), to: to.clone(), amount });
        Ok(())
    }
    fn do_withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance, er: ExistenceRequirement, change_total: bool) -> DispatchResult {
        if amount.is_zero() { return Ok(()); }
        Self::try_mutate_account(who, currency_id, |account, _| -> DispatchResult {
            Self::ensure_can_withdraw(currency_id, who, amount)?;
            let prev = account.total();
            account.free = account.free.defensive_saturating_sub(amount);
            let ed = T::ExistentialDeposits::get(&currency_id);
            let would_kill = Self::dead(who, account.total(), ed) && (prev >= ed || !prev.is_zero());
            ensure!(er == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::KeepAlive);
            if change_total { TotalIssuance::<T>::mutate(currency_id, |v| *v = v.defensive_saturating_sub(amount)); }
            Self::deposit_event(Event::Withdrawn { currency_id, who: who.clone(), amount });
            Ok(())
        })?;
        Ok(())
    }
    fn do_deposit(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance, require_existed: bool, change_total: bool) -> Result<T::Balance, DispatchError> {
        if amount.is_zero() { return Ok(amount); }
        <hook!(PreDeposit)>::on_deposit(currency_id, who, amount)?;
        Self::try_mutate_account(who, currency_id, |account, existed| -> DispatchResult {
            if require_existed { ensure!(existed, Error::<T>::DeadAccount); } else {
                ensure!(amount >= T::ExistentialDeposits::get(&currency_id) || existed || T::DustRemovalWhitelist::contains(who), Error::<T>::ExistentialDeposit);
            }
            let ti = Self::total_issuance(currency_id).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
            if change_total { TotalIssuance::<T>::mutate(currency_id, |v| *v = ti); }
            account.free = account.free.defensive_saturating_add(amount);
            Ok(())
        })?;
        <hook!(PostDeposit)>::on_deposit(currency_id, who, amount)?;
        Self::deposit_event(Event::Deposited { currency_id, who: who.clone(), amount });
        Ok(amount)
    }
    fn update_locks(currency_id: T::CurrencyId, who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) -> DispatchResult {
        Self::mutate_account(who, currency_id, |a, _| {
            a.frozen = Zero::zero();
            for l in locks { a.frozen = a.frozen.max(l.amount); }
        });
        let existed = Locks::<T>::contains_key(who, currency_id);
        if locks.is_empty() {
            Locks::<T>::remove(who, currency_id);
            if existed { frame_system::Pallet::<T>::dec_consumers(who); }
        } else {
            let b: BoundedVec<BalanceLock<T::Balance>, T::MaxLocks> = locks.to_vec().try_into().map_err(|_| Error::<T>::MaxLocksExceeded)?;
            Locks::<T>::insert(who, currency_id, b);
            if !existed { let _ = frame_system::Pallet::<T>::inc_consumers(who); }
        }
        Ok(())
    }
}
impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
    type CurrencyId = T::CurrencyId;
    type Balance = T::Balance;
    fn minimum_balance(c: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&c) }
    fn total_issuance(c: T::CurrencyId) -> T::Balance { TotalIssuance::<T>::get(c) }
    fn total_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).total() }
    fn free_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).free }
    fn ensure_can_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::ensure_can_withdraw(c, who, amount) }
    fn transfer(c: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::do_transfer(c, from, to, amount, ExistenceRequirement::AllowDeath) }
    fn deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::do_deposit(c, who, amount, false, true)?; Ok(()) }
    fn withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::do_withdraw(c, who, amount, ExistenceRequirement::AllowDeath, true) }
    fn can_slash(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool { value.is_zero() || Self::free_balance(c, who) >= value }
    fn slash(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> T::Balance {
        if amount.is_zero() { return amount; }
        let _ = <hook!(OnSlash)>::on_slash(c, who, amount);
        let account = Self::accounts(who, c);
        let free = account.free.min(amount);
        let mut rem = amount.defensive_saturating_sub(free);
        if !free.is_zero() { Self::set_free_balance(c, who, account.free.defensive_saturating_sub(free)); }
        let mut res = Zero::zero();
        if !rem.is_zero() {
            res = account.reserved.min(rem);
            rem = rem.defensive_saturating_sub(res);
            Self::set_reserved_balance(c, who, account.reserved.defensive_saturating_sub(res));
        }
        TotalIssuance::<T>::mutate(c, |v| *v = v.defensive_saturating_sub(amount.defensive_saturating_sub(rem)));
        Self::deposit_event(Event::Slashed { currency_id: c, who: who.clone(), free_amount: free, reserved_amount: res });
        rem
    }
}
impl<T: Config> MultiCurrencyExtended<T::AccountId> for Pallet<T> {
    type Amount = T::Amount;
    fn update_balance(c: T::CurrencyId, who: &T::AccountId, by: T::Amount) -> DispatchResult {
        if by.is_zero() { return Ok(()); }
        let abs = if by == <T::Amount as arithmetic::Bounded>::min_value() { return Err(Error::<T>::AmountIntoBalanceFailed.into()) } else { by.abs() };
        let b = TryInto::<T::Balance>::try_into(abs).map_err(|_| Error::<T>::AmountIntoBalanceFailed)?;
        if by.is_positive() { Self::do_deposit(c, who, b, false, true)?; Ok(()) } else { Self::do_withdraw(c, who, b, ExistenceRequirement::AllowDeath, true) }
    }
}
impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = BlockNumberFor<T>;
    fn set_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() { return Self::remove_lock(id, c, who); }
        let mut new = Some(BalanceLock { id, amount });
        let mut locks = Self::locks(who, c).into_iter().filter_map(|l| if l.id == id { new.take() } else { Some(l) }).collect::<Vec<_>>();
        if let Some(l) = new { locks.push(l); }
        Self::update_locks(c, who, &locks)?;
        Self::deposit_event(Event::LockSet { lock_id: id, currency_id: c, who: who.clone(), amount });
        Ok(())
    }
    fn extend_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() { return Ok(()); }
        let mut new = Some(BalanceLock { id, amount });
        let mut locks = Self::locks(who, c).into_iter().filter_map(|l| if l.id == id { new.take().map(|n| BalanceLock { id, amount: l.amount.max(n.amount) }) } else { Some(l) }).collect::<Vec<_>>();
        if let Some(l) = new { locks.push(l); }
        Self::update_locks(c, who, &locks)
    }
    fn remove_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId) -> DispatchResult {
        let mut locks = Self::locks(who, c).into_inner();
        locks.retain(|l| l.id != id);
        Self::update_locks(c, who, &locks)?;
        Self::deposit_event(Event::LockRemoved { lock_id: id, currency_id: c, who: who.clone() });
        Ok(())
    }
}
impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool { value.is_zero() || Self::ensure_can_withdraw(c, who, value).is_ok() }
    fn slash_reserved(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() { return value; }
        let reserved = Self::reserved_balance(c, who);
        let actual = reserved.min(value);
        Self::mutate_account(who, c, |a, _| a.reserved = reserved.defensive_saturating_sub(actual));
        TotalIssuance::<T>::mutate(c, |v| *v = v.defensive_saturating_sub(actual));
        Self::deposit_event(Event::Slashed { currency_id: c, who: who.clone(), free_amount: Zero::zero(), reserved_amount: actual });
        value.defensive_saturating_sub(actual)
    }
    fn reserved_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).reserved }
    fn reserve(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() { return Ok(()); }
        Self::ensure_can_withdraw(c, who, value)?;
        Self::mutate_account(who, c, |a, _| { a.free = a.free.defensive_saturating_sub(value); a.reserved = a.reserved.defensive_saturating_add(value); });
        Self::deposit_event(Event::Reserved { currency_id: c, who: who.clone(), amount: value });
        Ok(())
    }
    fn unreserve(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() { return value; }
        let (remaining, _) = Self::mutate_account(who, c, |a, _| {
            let actual = a.reserved.min(value);
            a.reserved = a.reserved.defensive_saturating_sub(actual);
            a.free = a.free.defensive_saturating_add(actual);
            Self::deposit_event(Event::Unreserved { currency_id: c, who: who.clone(), amount: actual });
            value.defensive_saturating_sub(actual)
        });
        remaining
    }
    fn repatriate_reserved(c: T::CurrencyId, slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if value.is_zero() { return Ok(value); }
        if slashed == beneficiary {
            return match status { BalanceStatus::Free => Ok(Self::unreserve(c, slashed, value)), BalanceStatus::Reserved => Ok(value.saturating_sub(Self::reserved_balance(c, slashed))) };
        }
        let from = Self::accounts(slashed, c);
        let to = Self::accounts(beneficiary, c);
        let actual = from.reserved.min(value);
        match status {
            BalanceStatus::Free => Self::set_free_balance(c, beneficiary, to.free.defensive_saturating_add(actual)),
            BalanceStatus::Reserved => Self::set_reserved_balance(c, beneficiary, to.reserved.defensive_saturating_add(actual)),
        }
        Self::set_reserved_balance(c, slashed, from.reserved.defensive_saturating_sub(actual));
        Self::deposit_event(Event::ReserveRepatriated { currency_id: c, from: slashed.clone(), to: beneficiary.clone(), amount: actual, status });
        Ok(value.defensive_saturating_sub(actual))
    }
}
impl<T: Config> NamedMultiReservableCurrency<T::AccountId> for Pallet<T> {
    type ReserveIdentifier = T::ReserveIdentifier;
    fn reserved_balance_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        let r = Self::reserves(who, c);
        r.binary_search_by_key(id, |d| d.id).map(|i| r[i].amount).unwrap_or_default()
    }
    fn slash_reserved_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() { return Zero::zero(); }
        Reserves::<T>::mutate(who, c, |r| match r.binary_search_by_key(id, |d| d.id) {
            Ok(i) => {
                let to = r[i].amount.min(value);
                let remain = Self::slash_reserved(c, who, to);
                let actual = to.defensive_saturating_sub(remain);
                r[i].amount = r[i].amount.defensive_saturating_sub(actual);
                value.defensive_saturating_sub(actual)
            }
            Err(_) => value,
        })
    }
    fn reserve_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() { return Ok(()); }
        Reserves::<T>::try_mutate(who, c, |r| -> DispatchResult {
            match r.binary_search_by_key(id, |d| d.id) {
                Ok(i) => r[i].amount = r[i].amount.checked_add(&value).ok_or(ArithmeticError::Overflow)?,
                Err(i) => { r.try_insert(i, ReserveData { id: *id, amount: value }).map_err(|_| Error::<T>::TooManyReserves)?; }
            };
            Self::reserve(c, who, value)
        })
    }
    fn unreserve_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() { return Zero::zero(); }
        Reserves::<T>::mutate_exists(who, c, |m| {
            let Some(r) = m.as_mut() else { return value };
            match r.binary_search_by_key(id, |d| d.id) {
                Ok(i) => {
                    let to = r[i].amount.min(value);
                    let remain = Self::unreserve(c, who, to);
                    let actual = to.defensive_saturating_sub(remain);
                    r[i].amount = r[i].amount.defensive_saturating_sub(actual);
                    if r[i].amount.is_zero() { if r.len() == 1 { *m = None; } else { r.remove(i); } }
                    value.defensive_saturating_sub(actual)
                }
                Err(_) => value,
            }
        })
    }
    fn repatriate_reserved_named(id: &T::ReserveIdentifier, c: T::CurrencyId, slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if value.is_zero() { return Ok(Zero::zero()); }
        if slashed == beneficiary {
            return match status { BalanceStatus::Free => Ok(Self::unreserve_named(id, c, slashed, value)), BalanceStatus::Reserved => Ok(value.saturating_sub(Self::reserved_balance_named(id, c, slashed))) };
        }
        Reserves::<T>::try_mutate(slashed, c, |r| -> Result<T::Balance, DispatchError> {
            match r.binary_search_by_key(id, |d| d.id) {
                Ok(i) => {
                    let to = r[i].amount.min(value);
                    let actual = if status == BalanceStatus::Reserved {
                        Reserves::<T>::try_mutate(beneficiary, c, |rs| -> Result<T::Balance, DispatchError> {
                            match rs.binary_search_by_key(id, |d| d.id) {
                                Ok(j) => {
                                    let remain = Self::repatriate_reserved(c, slashed, beneficiary, to, status)?;
                                    let actual = to.defensive_saturating_sub(remain);
                                    rs[j].amount = rs[j].amount.checked_add(&actual).ok_or(ArithmeticError::Overflow)?;
                                    Ok(actual)
                                }
                                Err(j) => {
                                    let remain = Self::repatriate_reserved(c, slashed, beneficiary, to, status)?;
                                    let actual = to.defensive_saturating_sub(remain);
                                    rs.try_insert(j, ReserveData { id: *id, amount: actual }).map_err(|_| Error::<T>::TooManyReserves)?;
                                    Ok(actual)
                                }
                            }
                        })?
                    } else {
                        let remain = Self::repatriate_reserved(c, slashed, beneficiary, to, status)?;
                        to.defensive_saturating_sub(remain)
                    };
                    r[i].amount = r[i].amount.defensive_saturating_sub(actual);
                    Ok(value.defensive_saturating_sub(actual))
                }
                Err(_) => Ok(value),
            }
        })
    }
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
    type AssetId = T::CurrencyId;
    type Balance = T::Balance;
    fn total_issuance(c: T::CurrencyId) -> T::Balance { TotalIssuance::<T>::get(c) }
    fn minimum_balance(c: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&c) }
    fn balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).free }
    fn total_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).total() }
    fn reducible_balance(c: T::CurrencyId, who: &T::AccountId, p: Preservation, _f: Fortitude) -> T::Balance {
        let a = Self::accounts(who, c);
        let liquid = a.free.saturating_sub(a.frozen());
        if frame_system::Pallet::<T>::can_dec_provider(who) && !matches!(p, Preservation::Protect) { liquid } else {
            let keep = T::ExistentialDeposits::get(&c).saturating_sub(a.total() - liquid);
            liquid.saturating_sub(keep)
        }
    }
    fn can_deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance, _p: Provenance) -> DepositConsequence { Self::deposit_consequence(who, c, amount, &Self::accounts(who, c)) }
    fn can_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> { Self::withdraw_consequence(who, c, amount, &Self::accounts(who, c)) }
    fn asset_exists(c: T::CurrencyId) -> bool { TotalIssuance::<T>::contains_key(c) }
}
impl<T: Config> fungibles::Unbalanced<T::AccountId> for Pallet<T> {
    fn handle_dust(_d: fungibles::Dust<T::AccountId, Self>) {}
    fn write_balance(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
        let max = <Self as fungibles::Inspect<_>>::reducible_balance(c, who, Preservation::Expendable, Fortitude::Force);
        Self::try_mutate_account(who, c, |a, _| -> DispatchResult {
            ensure!(a.free.saturating_sub(amount) <= max, Error::<T>::BalanceTooLow);
            a.free = amount;
            Self::deposit_event(Event::BalanceSet { currency_id: c, who: who.clone(), free: a.free, reserved: a.reserved });
            Ok(())
        })?;
        Ok(None)
    }
    fn set_total_issuance(c: T::CurrencyId, amount: T::Balance) { TotalIssuance::<T>::insert(c, amount); Self::deposit_event(Event::TotalIssuanceSet { currency_id: c, amount }); }
}
impl<T: Config> fungibles::Mutate<T::AccountId> for Pallet<T> {
    fn mint_into(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> Result<T::Balance, DispatchError> {
        Self::deposit_consequence(who, c, amount, &Self::accounts(who, c)).into_result()?;
        Self::do_deposit(c, who, amount, false, true)
    }
    fn burn_from(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance, _p: Precision, _f: Fortitude) -> Result<T::Balance, DispatchError> {
        let extra = Self::withdraw_consequence(who, c, amount, &Self::accounts(who, c)).into_result(false)?;
        let actual = amount.defensive_saturating_add(extra);
        Self::do_withdraw(c, who, actual, ExistenceRequirement::AllowDeath, true).map(|_| actual)
    }
    fn transfer(c: T::CurrencyId, source: &T::AccountId, dest: &T::AccountId, amount: T::Balance, p: Preservation) -> Result<T::Balance, DispatchError> {
        let er = match p { Preservation::Expendable => ExistenceRequirement::AllowDeath, _ => ExistenceRequirement::KeepAlive };
        Self::do_transfer(c, source, dest, amount, er).map(|_| amount)
    }
}
impl<T: Config> TransferAll<T::AccountId> for Pallet<T> {
    fn transfer_all(source: &T::AccountId, dest: &T::AccountId) -> DispatchResult {
        frame_support::storage::with_storage_layer(|| Accounts::<T>::iter_prefix(source).try_for_each(|(c, a)| <Self as MultiCurrency<T::AccountId>>::transfer(c, source, dest, a.free)))
    }
}
#[allow(unused)]
fn _u<B: Bounded>() {}
