//! The MultiCurrency and BasicCurrency families.
use crate::arithmetic;
use codec::{Codec, FullCodec, MaxEncodedLen};
pub use frame_support::traits::{BalanceStatus, LockIdentifier};
use frame_support::traits::Get;
use sp_runtime::{traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize}, DispatchError, DispatchResult};
use std::fmt::Debug;
use super::{Handler, Happened};

pub trait MultiCurrency<AccountId> {
    type CurrencyId: FullCodec + Eq + PartialEq + Copy + MaybeSerializeDeserialize + Debug + scale_info::TypeInfo + MaxEncodedLen;
    type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + scale_info::TypeInfo + MaxEncodedLen;
    fn minimum_balance(currency_id: Self::CurrencyId) -> Self::Balance;
    fn total_issuance(currency_id: Self::CurrencyId) -> Self::Balance;
    fn total_balance(currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance;
    fn free_balance(currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance;
    fn ensure_can_withdraw(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn transfer(currency_id: Self::CurrencyId, from: &AccountId, to: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn deposit(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn withdraw(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn can_slash(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> bool;
    fn slash(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> Self::Balance;
}
pub trait MultiCurrencyExtended<AccountId>: MultiCurrency<AccountId> {
    type Amount: arithmetic::Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + arithmetic::SimpleArithmetic + Codec + Copy + MaybeSerializeDeserialize + Debug + Default + MaxEncodedLen;
    fn update_balance(currency_id: Self::CurrencyId, who: &AccountId, by_amount: Self::Amount) -> DispatchResult;
}
pub trait MultiLockableCurrency<AccountId>: MultiCurrency<AccountId> {
    type Moment;
    fn set_lock(lock_id: LockIdentifier, currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn extend_lock(lock_id: LockIdentifier, currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn remove_lock(lock_id: LockIdentifier, currency_id: Self::CurrencyId, who: &AccountId) -> DispatchResult;
}
pub trait MultiReservableCurrency<AccountId>: MultiCurrency<AccountId> {
    fn can_reserve(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> bool;
    fn slash_reserved(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn reserved_balance(currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance;
    fn reserve(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(currency_id: Self::CurrencyId, slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedMultiReservableCurrency<AccountId>: MultiReservableCurrency<AccountId> {
    type ReserveIdentifier;
    fn slash_reserved_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn reserved_balance_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance;
    fn reserve_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
    fn ensure_reserved_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> DispatchResult {
        let current = Self::reserved_balance_named(id, currency_id, who);
        if current > value {
            Self::unreserve_named(id, currency_id, who, current - value);
            Ok(())
        } else if value > current {
            Self::reserve_named(id, currency_id, who, value - current)
        } else { Ok(()) }
    }
    fn unreserve_all_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance {
        let value = Self::reserved_balance_named(id, currency_id, who);
        Self::unreserve_named(id, currency_id, who, value);
        value
    }
    fn slash_all_reserved_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance {
        let value = Self::reserved_balance_named(id, currency_id, who);
        Self::slash_reserved_named(id, currency_id, who, value)
    }
    fn repatriate_all_reserved_named(id: &Self::ReserveIdentifier, currency_id: Self::CurrencyId, slashed: &AccountId, beneficiary: &AccountId, status: BalanceStatus) -> DispatchResult {
        let value = Self::reserved_balance_named(id, currency_id, slashed);
        Self::repatriate_reserved_named(id, currency_id, slashed, beneficiary, value, status).map(|_| ())
    }
}
pub trait BasicCurrency<AccountId> {
    type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + scale_info::TypeInfo + MaxEncodedLen;
    fn minimum_balance() -> Self::Balance;
    fn total_issuance() -> Self::Balance;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn free_balance(who: &AccountId) -> Self::Balance;
    fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn transfer(from: &AccountId, to: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn deposit(who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn withdraw(who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
    fn slash(who: &AccountId, amount: Self::Balance) -> Self::Balance;
}
pub trait BasicCurrencyExtended<AccountId>: BasicCurrency<AccountId> {
    type Amount: arithmetic::Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + arithmetic::SimpleArithmetic + Codec + Copy + MaybeSerializeDeserialize + Debug + Default + MaxEncodedLen;
    fn update_balance(who: &AccountId, by_amount: Self::Amount) -> DispatchResult;
}
pub trait BasicLockableCurrency<AccountId>: BasicCurrency<AccountId> {
    type Moment;
    fn set_lock(lock_id: LockIdentifier, who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn extend_lock(lock_id: LockIdentifier, who: &AccountId, amount: Self::Balance) -> DispatchResult;
    fn remove_lock(lock_id: LockIdentifier, who: &AccountId) -> DispatchResult;
}
pub trait BasicReservableCurrency<AccountId>: BasicCurrency<AccountId> {
    fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
    fn slash_reserved(who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn reserved_balance(who: &AccountId) -> Self::Balance;
    fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedBasicReservableCurrency<AccountId, ReserveIdentifier>: BasicReservableCurrency<AccountId> {
    fn slash_reserved_named(id: &ReserveIdentifier, who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn reserved_balance_named(id: &ReserveIdentifier, who: &AccountId) -> Self::Balance;
    fn reserve_named(id: &ReserveIdentifier, who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve_named(id: &ReserveIdentifier, who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved_named(id: &ReserveIdentifier, slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
    fn ensure_reserved_named(id: &ReserveIdentifier, who: &AccountId, value: Self::Balance) -> DispatchResult {
        let current = Self::reserved_balance_named(id, who);
        if current > value {
            Self::unreserve_named(id, who, current - value);
            Ok(())
        } else if value > current {
            Self::reserve_named(id, who, value - current)
        } else { Ok(()) }
    }
    fn unreserve_all_named(id: &ReserveIdentifier, who: &AccountId) -> Self::Balance {
        let value = Self::reserved_balance_named(id, who);
        Self::unreserve_named(id, who, value);
        value
    }
    fn slash_all_reserved_named(id: &ReserveIdentifier, who: &AccountId) -> Self::Balance {
        let value = Self::reserved_balance_named(id, who);
        Self::slash_reserved_named(id, who, value)
    }
    fn repatriate_all_reserved_named(id: &ReserveIdentifier, slashed: &AccountId, beneficiary: &AccountId, status: BalanceStatus) -> DispatchResult {
        let value = Self::reserved_balance_named(id, slashed);
        Self::repatriate_reserved_named(id, slashed, beneficiary, value, status).map(|_| ())
    }
}

pub trait OnDust<AccountId, CurrencyId, Balance> { fn on_dust(who: &AccountId, currency_id: CurrencyId, amount: Balance); }
impl<A, C, B> OnDust<A, C, B> for () { fn on_dust(_: &A, _: C, _: B) {} }
pub trait OnSlash<AccountId, CurrencyId, Balance> { fn on_slash(currency_id: CurrencyId, who: &AccountId, amount: Balance); }
impl<A, C, B> OnSlash<A, C, B> for () { fn on_slash(_: C, _: &A, _: B) {} }
pub trait OnDeposit<AccountId, CurrencyId, Balance> { fn on_deposit(currency_id: CurrencyId, who: &AccountId, amount: Balance) -> DispatchResult; }
impl<A, C, B> OnDeposit<A, C, B> for () { fn on_deposit(_: C, _: &A, _: B) -> DispatchResult { Ok(()) } }
pub trait OnTransfer<AccountId, CurrencyId, Balance> { fn on_transfer(currency_id: CurrencyId, from: &AccountId, to: &AccountId, amount: Balance) -> DispatchResult; }
impl<A, C, B> OnTransfer<A, C, B> for () { fn on_transfer(_: C, _: &A, _: &A, _: B) -> DispatchResult { Ok(()) } }
pub trait MutationHooks<AccountId, CurrencyId, Balance> {
    type OnDust: OnDust<AccountId, CurrencyId, Balance>;
    type OnSlash: OnSlash<AccountId, CurrencyId, Balance>;
    type PreDeposit: OnDeposit<AccountId, CurrencyId, Balance>;
    type PostDeposit: OnDeposit<AccountId, CurrencyId, Balance>;
    type PreTransfer: OnTransfer<AccountId, CurrencyId, Balance>;
    type PostTransfer: OnTransfer<AccountId, CurrencyId, Balance>;
    type OnNewTokenAccount: Happened<(AccountId, CurrencyId)>;
    type OnKilledTokenAccount: Happened<(AccountId, CurrencyId)>;
}
impl<A, C, B> MutationHooks<A, C, B> for () {
    type OnDust = (); type OnSlash = (); type PreDeposit = (); type PostDeposit = (); type PreTransfer = (); type PostTransfer = (); type OnNewTokenAccount = (); type OnKilledTokenAccount = ();
}
pub trait TransferAll<AccountId> { fn transfer_all(source: &AccountId, dest: &AccountId) -> DispatchResult; }
#[impl_trait_for_tuples::impl_for_tuples(5)]
impl<AccountId> TransferAll<AccountId> for Tuple {
    fn transfer_all(source: &AccountId, dest: &AccountId) -> DispatchResult { for_tuples!( #( Tuple::transfer_all(source, dest)?; )* ); Ok(()) }
}
#[allow(unused)]
fn _unused<H: Handler<()>, G: Get<()>>() {}
