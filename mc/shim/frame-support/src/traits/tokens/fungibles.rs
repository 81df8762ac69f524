//! Multi-asset fungible traits.
use super::*;
use super::{Fortitude::*, Precision::*, Preservation::*, Provenance::*};
use crate::ensure;
use sp_arithmetic::traits::{CheckedAdd, CheckedSub, Saturating};
pub use super::AssetId;
pub trait Inspect<AccountId>: Sized {
    type AssetId: AssetId;
    type Balance: Balance;
    fn total_issuance(a: Self::AssetId) -> Self::Balance;
    fn active_issuance(a: Self::AssetId) -> Self::Balance { Self::total_issuance(a) }
    fn minimum_balance(a: Self::AssetId) -> Self::Balance;
    fn total_balance(a: Self::AssetId, who: &AccountId) -> Self::Balance;
    fn balance(a: Self::AssetId, who: &AccountId) -> Self::Balance;
    fn reducible_balance(a: Self::AssetId, who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
    fn can_deposit(a: Self::AssetId, who: &AccountId, amount: Self::Balance, p: Provenance) -> DepositConsequence;
    fn can_withdraw(a: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
    fn asset_exists(a: Self::AssetId) -> bool;
}
#[must_use]
pub struct Dust<A, T: Inspect<A>>(pub T::AssetId, pub T::Balance);
pub trait Unbalanced<AccountId>: Inspect<AccountId> {
    fn handle_dust(dust: Dust<AccountId, Self>);
    fn handle_raw_dust(a: Self::AssetId, amount: Self::Balance) { Self::handle_dust(Dust(a, amount)) }
    fn write_balance(a: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
    fn set_total_issuance(a: Self::AssetId, amount: Self::Balance);
    fn decrease_balance(a: Self::AssetId, who: &AccountId, mut amount: Self::Balance, precision: Precision, p: Preservation, f: Fortitude) -> Result<Self::Balance, DispatchError> {
        let old = Self::balance(a.clone(), who);
        let red = Self::reducible_balance(a.clone(), who, p, f);
        match precision { BestEffort => amount = amount.min(red), Exact => ensure!(amount <= red, TokenError::FundsUnavailable) }
        let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
        if let Some(d) = Self::write_balance(a.clone(), who, new)? { Self::handle_dust(Dust(a, d)); }
        Ok(old.saturating_sub(new))
    }
    fn increase_balance(a: Self::AssetId, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
        let old = Self::balance(a.clone(), who);
        let new = if let BestEffort = precision { old.saturating_add(amount) } else { old.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
        if new < Self::minimum_balance(a.clone()) {
            if let BestEffort = precision { Ok(Default::default()) } else { Err(TokenError::BelowMinimum.into()) }
        } else if new == old { Ok(Default::default()) } else {
            if let Some(d) = Self::write_balance(a.clone(), who, new)? { Self::handle_dust(Dust(a, d)); }
            Ok(new.saturating_sub(old))
        }
    }
    fn deactivate(_: Self::AssetId, _: Self::Balance) {}
    fn reactivate(_: Self::AssetId, _: Self::Balance) {}
}
pub trait Mutate<AccountId: Eq>: Inspect<AccountId> + Unbalanced<AccountId> {
    fn mint_into(a: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
        Self::total_issuance(a.clone()).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::increase_balance(a.clone(), who, amount, Exact)?;
        Self::set_total_issuance(a.clone(), Self::total_issuance(a.clone()).saturating_add(actual));
        Self::done_mint_into(a, who, amount);
        Ok(actual)
    }
    fn burn_from(a: Self::AssetId, who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
        let actual = Self::reducible_balance(a.clone(), who, Expendable, force).min(amount);
        ensure!(actual == amount || precision == BestEffort, TokenError::FundsUnavailable);
        Self::total_issuance(a.clone()).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::decrease_balance(a.clone(), who, actual, BestEffort, Expendable, force)?;
        Self::set_total_issuance(a.clone(), Self::total_issuance(a.clone()).saturating_sub(actual));
        Self::done_burn_from(a, who, actual);
        Ok(actual)
    }
    fn transfer(a: Self::AssetId, source: &AccountId, dest: &AccountId, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError> {
        let _extra = Self::can_withdraw(a.clone(), source, amount).into_result(p != Expendable)?;
        Self::can_deposit(a.clone(), dest, amount, Extant).into_result()?;
        if source == dest { return Ok(amount); }
        Self::decrease_balance(a.clone(), source, amount, BestEffort, p, Polite)?;
        let _ = Self::increase_balance(a.clone(), dest, amount, BestEffort);
        Self::done_transfer(a, source, dest, amount);
        Ok(amount)
    }
    fn set_balance(a: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Self::Balance {
        let b = Self::balance(a.clone(), who);
        if amount > b { Self::mint_into(a, who, amount - b).map_or(b, |d| b.saturating_add(d)) } else { Self::burn_from(a, who, b - amount, BestEffort, Force).map_or(b, |d| b.saturating_sub(d)) }
    }
    fn done_mint_into(_i: Self::AssetId, _w: &AccountId, _a: Self::Balance) {}
    fn done_burn_from(_i: Self::AssetId, _w: &AccountId, _a: Self::Balance) {}
    fn shelve(a: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
        let actual = Self::reducible_balance(a.clone(), who, Expendable, Polite).min(amount);
        ensure!(actual == amount, TokenError::FundsUnavailable);
        Self::total_issuance(a.clone()).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::decrease_balance(a.clone(), who, actual, BestEffort, Expendable, Polite)?;
        Self::set_total_issuance(a.clone(), Self::total_issuance(a.clone()).saturating_sub(actual));
        Self::done_shelve(a, who, actual);
        Ok(actual)
    }
    fn restore(a: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
        Self::total_issuance(a.clone()).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::increase_balance(a.clone(), who, amount, Exact)?;
        Self::set_total_issuance(a.clone(), Self::total_issuance(a.clone()).saturating_add(actual));
        Self::done_restore(a, who, amount);
        Ok(actual)
    }
    fn done_shelve(_i: Self::AssetId, _w: &AccountId, _a: Self::Balance) {}
    fn done_restore(_i: Self::AssetId, _w: &AccountId, _a: Self::Balance) {}
    fn done_transfer(_i: Self::AssetId, _s: &AccountId, _d: &AccountId, _a: Self::Balance) {}
}
pub trait Balanced<AccountId>: Inspect<AccountId> {}
pub trait Create<AccountId>: Inspect<AccountId> { fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> sp_runtime::DispatchResult; }
pub mod metadata { pub trait Inspect<A> {} }
