//! Single-asset fungible traits.
use super::*;
use super::{Fortitude::*, Precision::*, Preservation::*, Provenance::*};
use crate::ensure;
use sp_arithmetic::traits::{CheckedAdd, CheckedSub, One, Saturating};
pub trait Inspect<AccountId>: Sized {
    type Balance: Balance;
    fn total_issuance() -> Self::Balance;
    fn active_issuance() -> Self::Balance { Self::total_issuance() }
    fn minimum_balance() -> Self::Balance;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn balance(who: &AccountId) -> Self::Balance;
    fn reducible_balance(who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
    fn can_deposit(who: &AccountId, amount: Self::Balance, p: Provenance) -> DepositConsequence;
    fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
}
#[must_use]
pub struct Dust<A, T: Inspect<A>>(pub T::Balance);
pub trait Unbalanced<AccountId>: Inspect<AccountId> {
    fn handle_dust(dust: Dust<AccountId, Self>);
    fn handle_raw_dust(amount: Self::Balance) { Self::handle_dust(Dust(amount)) }
    fn write_balance(who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
    fn set_total_issuance(amount: Self::Balance);
    fn decrease_balance(who: &AccountId, mut amount: Self::Balance, precision: Precision, p: Preservation, f: Fortitude) -> Result<Self::Balance, DispatchError> {
        let old = Self::balance(who);
        let red = Self::reducible_balance(who, p, f);
        match precision { BestEffort => amount = amount.min(red), Exact => ensure!(amount <= red, TokenError::FundsUnavailable) }
        let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
        if let Some(d) = Self::write_balance(who, new)? { Self::handle_dust(Dust(d)); }
        Ok(old.saturating_sub(new))
    }
    fn increase_balance(who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
        let old = Self::balance(who);
        let new = if let BestEffort = precision { old.saturating_add(amount) } else { old.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
        if new < Self::minimum_balance() {
            if let BestEffort = precision { Ok(Default::default()) } else { Err(TokenError::BelowMinimum.into()) }
        } else if new == old { Ok(Default::default()) } else {
            if let Some(d) = Self::write_balance(who, new)? { Self::handle_dust(Dust(d)); }
            Ok(new.saturating_sub(old))
        }
    }
    fn deactivate(_: Self::Balance) {}
    fn reactivate(_: Self::Balance) {}
}
pub trait Mutate<AccountId: Eq>: Inspect<AccountId> + Unbalanced<AccountId> {
    fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
        Self::total_issuance().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::increase_balance(who, amount, Exact)?;
        Self::set_total_issuance(Self::total_issuance().saturating_add(actual));
        Self::done_mint_into(who, amount);
        Ok(actual)
    }
    fn burn_from(who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
        let actual = Self::reducible_balance(who, Expendable, force).min(amount);
        ensure!(actual == amount || precision == BestEffort, TokenError::FundsUnavailable);
        Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::decrease_balance(who, actual, BestEffort, Expendable, force)?;
        Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
        Self::done_burn_from(who, actual);
        Ok(actual)
    }
    fn transfer(source: &AccountId, dest: &AccountId, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError> {
        let _extra = Self::can_withdraw(source, amount).into_result(p != Expendable)?;
        Self::can_deposit(dest, amount, Extant).into_result()?;
        if source == dest { return Ok(amount); }
        Self::decrease_balance(source, amount, BestEffort, p, Polite)?;
        let _ = Self::increase_balance(dest, amount, BestEffort);
        Self::done_transfer(source, dest, amount);
        Ok(amount)
    }
    fn set_balance(who: &AccountId, amount: Self::Balance) -> Self::Balance {
        let b = Self::balance(who);
        if amount > b { Self::mint_into(who, amount - b).map_or(b, |d| b.saturating_add(d)) } else { Self::burn_from(who, b - amount, BestEffort, Force).map_or(b, |d| b.saturating_sub(d)) }
    }
    fn done_mint_into(_w: &AccountId, _a: Self::Balance) {}
    fn done_burn_from(_w: &AccountId, _a: Self::Balance) {}
    fn shelve(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
        let actual = Self::reducible_balance(who, Expendable, Polite).min(amount);
        ensure!(actual == amount, TokenError::FundsUnavailable);
        Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::decrease_balance(who, actual, BestEffort, Expendable, Polite)?;
        Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
        Self::done_shelve(who, actual);
        Ok(actual)
    }
    fn restore(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
        Self::total_issuance().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        let actual = Self::increase_balance(who, amount, Exact)?;
        Self::set_total_issuance(Self::total_issuance().saturating_add(actual));
        Self::done_restore(who, amount);
        Ok(actual)
    }
    fn done_shelve(_w: &AccountId, _a: Self::Balance) {}
    fn done_restore(_w: &AccountId, _a: Self::Balance) {}
    fn done_transfer(_s: &AccountId, _d: &AccountId, _a: Self::Balance) {}
}
pub trait Balanced<AccountId>: Inspect<AccountId> {}
pub trait InspectHold<AccountId>: Inspect<AccountId> {}
pub mod hold { pub trait Inspect<A> {} pub trait Mutate<A> {} }
pub mod freeze { pub trait Inspect<A> {} pub trait Mutate<A> {} }
#[allow(unused)]
fn _o<T: One + Minted>() {}
#[allow(unused)]
trait Minted {}
