//! Token traits.
use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_arithmetic::traits::{AtLeast32BitUnsigned, Zero};
use sp_runtime::{ArithmeticError, DispatchError, TokenError};
use std::fmt::Debug;
pub mod fungible;
pub mod fungibles;
pub mod imbalance;
pub mod nonfungibles;
pub mod nonfungible { pub trait Inspect<A> {} }
pub mod nonfungibles_v2 {}
pub mod currency { pub use super::super::currency::*; }
pub use imbalance::*;
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Provenance { Minted, Extant }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Restriction { Free, OnHold }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Preservation { Expendable, Protect, Preserve }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Fortitude { Polite, Force }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Precision { Exact, BestEffort }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum WithdrawConsequence<B> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(B), Success }
impl<B: Zero> WithdrawConsequence<B> {
    pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
        use WithdrawConsequence::*;
        match self {
            BalanceLow => Err(TokenError::FundsUnavailable.into()),
            WouldDie => Err(TokenError::OnlyProvider.into()),
            UnknownAsset => Err(TokenError::UnknownAsset.into()),
            Underflow => Err(ArithmeticError::Underflow.into()),
            Overflow => Err(ArithmeticError::Overflow.into()),
            Frozen => Err(TokenError::Frozen.into()),
            ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
            ReducedToZero(r) => Ok(r),
            Success => Ok(Zero::zero()),
        }
    }
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
impl DepositConsequence {
    pub fn into_result(self) -> Result<(), DispatchError> {
        use DepositConsequence::*;
        Err(match self {
            BelowMinimum => TokenError::BelowMinimum.into(),
            CannotCreate => TokenError::CannotCreate.into(),
            UnknownAsset => TokenError::UnknownAsset.into(),
            Overflow => ArithmeticError::Overflow.into(),
            Blocked => TokenError::Blocked.into(),
            Success => return Ok(()),
        })
    }
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum ExistenceRequirement { KeepAlive, AllowDeath }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus { Free, Reserved }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct WithdrawReasons(i8);
impl WithdrawReasons {
    pub const TRANSACTION_PAYMENT: Self = Self(1);
    pub const TRANSFER: Self = Self(2);
    pub const RESERVE: Self = Self(4);
    pub const FEE: Self = Self(8);
    pub const TIP: Self = Self(16);
    pub const fn all() -> Self { Self(31) }
    pub const fn empty() -> Self { Self(0) }
    pub fn except(o: Self) -> Self { Self(31 & !o.0) }
    pub fn bits(&self) -> i8 { self.0 }
    pub fn intersects(&self, o: Self) -> bool { self.0 & o.0 != 0 }
    pub fn contains(&self, o: Self) -> bool { self.0 & o.0 == o.0 }
}
impl std::ops::BitOr for WithdrawReasons { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } }
impl std::ops::BitOrAssign for WithdrawReasons { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + 'static {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + 'static> Balance for T {}
pub trait Locker<C, I> { fn is_locked(c: C, i: I) -> bool; }
impl<C, I> Locker<C, I> for () { fn is_locked(_: C, _: I) -> bool { false } }
pub trait ConversionFromAssetBalance<A, B, C> {}
pub trait ConversionToAssetBalance<A, B, C> {}
