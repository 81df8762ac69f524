//! Stand-in for orml-traits.
#![allow(clippy::all)]
pub mod arithmetic;
pub mod currency;
pub mod get_by_key;
pub use currency::*;
pub use frame_support::traits::{BalanceStatus, LockIdentifier};
pub use get_by_key::GetByKey;
use sp_runtime::DispatchResult;
pub trait Happened<T> { fn happened(t: &T); }
impl<T> Happened<T> for () { fn happened(_: &T) {} }
pub trait Handler<T> { fn handle(t: &T) -> DispatchResult; }
impl<T> Handler<T> for () { fn handle(_: &T) -> DispatchResult { Ok(()) } }
pub trait Contains<T> { fn contains(t: &T) -> bool; }
pub trait NFTTrait {}
