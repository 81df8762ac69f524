//! The `Currency` family.
use super::tokens::*;
use super::tokens::imbalance::*;
use codec::{FullCodec, MaxEncodedLen};
use sp_runtime::{traits::MaybeSerializeDeserialize, DispatchError, DispatchResult};
use std::fmt::Debug;
pub type LockIdentifier = [u8; 8];
pub trait Currency<AccountId> {
    type Balance: Balance + MaybeSerializeDeserialize + Debug + MaxEncodedLen + sp_runtime::FixedPointOperand;
    type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
    type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
    fn total_issuance() -> Self::Balance;
    fn active_issuance() -> Self::Balance { Self::total_issuance() }
    fn minimum_balance() -> Self::Balance;
    fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
    fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
    fn free_balance(who: &AccountId) -> Self::Balance;
    fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
    fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, er: ExistenceRequirement) -> DispatchResult;
    fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
    fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
    fn withdraw(who: &AccountId, value: Self::Balance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
    fn make_free_balance_be(who: &AccountId, balance: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
    fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) { let v = value.peek(); drop(value.offset(Self::deposit_creating(who, v))); }
    fn resolve_into_existing(who: &AccountId, value: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> {
        let v = value.peek();
        match Self::deposit_into_existing(who, v) { Ok(o) => Ok(drop(value.offset(o))), _ => Err(value) }
    }
    fn settle(who: &AccountId, value: Self::PositiveImbalance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<(), Self::PositiveImbalance> {
        let v = value.peek();
        match Self::withdraw(who, v, reasons, liveness) { Ok(o) => Ok(drop(value.offset(o))), _ => Err(value) }
    }
    fn deactivate(_: Self::Balance) {}
    fn reactivate(_: Self::Balance) {}
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
    fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
    fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn reserved_balance(who: &AccountId) -> Self::Balance;
    fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedReservableCurrency<AccountId>: ReservableCurrency<AccountId> {
    type ReserveIdentifier: codec::Encode + codec::Decode + Copy + Ord + PartialEq + Debug + MaxEncodedLen;
    fn slash_reserved_named(id: &Self::ReserveIdentifier, who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn reserved_balance_named(id: &Self::ReserveIdentifier, who: &AccountId) -> Self::Balance;
    fn reserve_named(id: &Self::ReserveIdentifier, who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve_named(id: &Self::ReserveIdentifier, who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved_named(id: &Self::ReserveIdentifier, slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {
    type Moment;
    type MaxLocks: super::Get<u32>;
    fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn remove_lock(id: LockIdentifier, who: &AccountId);
}
pub trait InspectLockableCurrency<AccountId>: LockableCurrency<AccountId> { fn balance_locked(id: LockIdentifier, who: &AccountId) -> Self::Balance; }
#[allow(unused)]
fn _f<T: FullCodec>() {}
