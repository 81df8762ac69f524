//! Stand-in for `frame-support`.
pub mod dispatch;
pub mod storage;
pub mod traits;
pub mod weights;
pub mod hash;
pub mod migrations;
pub mod instances;
pub mod dispatch_context { pub fn run_in_context<R>(f: impl FnOnce() -> R) -> R { f() } }
pub mod inherent {}
pub mod unsigned { pub use sp_runtime::traits::ValidateUnsigned; pub use sp_runtime::transaction_validity::*; }
pub mod error { pub use sp_runtime::traits::{BadOrigin, LookupError}; }
pub mod migration { pub use crate::storage::migration::*; }
pub mod crypto { pub mod ecdsa {} }

pub use frame_support_procedural::{
    construct_runtime, crate_to_crate_version, derive_impl, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound,
    EqNoBound, PalletError, PartialEqNoBound, RuntimeDebugNoBound,
};
pub use codec::{self, Decode, Encode};
pub use scale_info;
pub use sp_core as __sp_core;
pub use sp_runtime::{self, print, traits::Printable, RuntimeDebug, BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec, ConsensusEngineId};
pub use hash::*;
pub use sp_core::Void;
pub use storage::{types::{Key as NMapKey}, IterableStorageMap, StorageMap, StorageValue, StorageDoubleMap, IterableStorageDoubleMap, StorageNMap, StoragePrefixedMap};
pub use dispatch::Parameter;
pub use sp_std;
pub use log;
pub use serde;

/// A type that cannot be instantiated.
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone, Copy, scale_info::TypeInfo)]
pub enum Never {}

#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, Debug, scale_info::TypeInfo, codec::MaxEncodedLen, serde::Serialize, serde::Deserialize, PartialOrd, Ord, Hash)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeId for PalletId {
    const TYPE_ID: [u8; 4] = *b"modl";
}

pub mod __private {
    pub use codec;
    pub use scale_info;
    pub use sp_core::{hashing::twox_128, H256};
    pub use std::marker::PhantomData;
    pub use log;
    pub use sp_io::{self, TestExternalities};
    pub use sp_std;
    pub use serde;
}
pub mod genesis_builder_helper {}

pub mod pallet_prelude {
    pub use crate::dispatch::{DispatchClass, DispatchErrorWithPostInfo, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays, PostDispatchInfo};
    pub use crate::hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, Twox128, Twox256, Twox64Concat};
    pub use crate::storage::{bounded_vec::BoundedVec, types::{CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery}, StorageList};
    pub use crate::traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, OriginTrait, PalletInfoAccess, StorageInfoTrait, StorageVersion, Task, TypedGet, ConstBool, ConstU16, ConstU64, ConstU8, ConstU128};
    pub use crate::weights::Weight;
    pub use crate::{ensure, require_transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError, PartialEqNoBound, RuntimeDebugNoBound, transactional};
    pub use crate::{storage};
    pub use crate::sp_runtime::{traits::{BlockNumberProvider, CheckedAdd as _CheckedAdd, Dispatchable, MaybeSerializeDeserialize, Member, ValidateUnsigned}, transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction}, DispatchError, RuntimeDebug, MAX_MODULE_ERROR_ENCODED_SIZE};
    pub use crate::sp_std;
    pub use crate::{defensive, defensive_assert};
    pub use codec::{self, Decode, Encode, MaxEncodedLen};
    pub use scale_info::TypeInfo;
    pub use std::marker::PhantomData;
    pub use sp_runtime;
    pub use sp_arithmetic::traits::{AtLeast32BitUnsigned as _AtLeast, One as _One};
    pub use std;
}

#[macro_export]
macro_rules! ensure {
    ( $x:expr, $y:expr $(,)? ) => {{ if !$x { $crate::fail!($y); } }};
}
#[macro_export]
macro_rules! fail {
    ( $y:expr ) => {{ return Err($y.into()); }};
}
#[macro_export]
macro_rules! assert_ok {
    ( $x:expr $(,)? ) => {
        let is = $x;
        match is { Ok(_) => (), _ => assert!(false, "Expected Ok(_). Got {:#?}", is), }
    };
    ( $x:expr, $y:expr $(,)? ) => { assert_eq!($x, Ok($y)); };
}
#[macro_export]
macro_rules! assert_err {
    ( $x:expr , $y:expr $(,)? ) => { assert_eq!($x, Err($y.into())); };
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
    ( $x:expr , $y:expr $(,)? ) => { $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y); };
}
#[macro_export]
macro_rules! assert_noop {
    ( $x:expr, $y:expr $(,)? ) => { $crate::assert_storage_noop!($crate::assert_err!($x, $y)); };
}
#[macro_export]
macro_rules! assert_storage_noop {
    ( $x:expr ) => {
        let h = $crate::storage_root();
        $x;
        assert_eq!(h, $crate::storage_root(), "storage has been mutated");
    };
}
pub fn storage_root() -> Vec<u8> { sp_io::storage::root(sp_core::storage::StateVersion::V1) }

#[macro_export]
macro_rules! defensive {
    ($( $proof:expr ),* $(,)?) => { if !$crate::defensive_quiet(None) { debug_assert!(false, "Defensive failure has been triggered!: {:?}", ($($proof,)*)); } };
}
#[macro_export]
macro_rules! defensive_assert {
    ($cond:expr $(, $proof:expr)* $(,)?) => { if !$cond { $crate::defensive!(stringify!($cond) $(, $proof)*); } };
}
#[macro_export]
macro_rules! bounded_vec { ($($t:tt)*) => { $crate::sp_runtime::bounded_vec![$($t)*] } }
#[macro_export]
macro_rules! bounded_btree_map {
    ($( $k:expr => $v:expr ),* $(,)?) => { $crate::BoundedBTreeMap::try_from(std::collections::BTreeMap::from([$(($k, $v)),*])).unwrap() };
}
#[macro_export]
macro_rules! parameter_types {
    ( $( #[ $attr:meta ] )* $vis:vis const $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr; $( $rest:tt )* ) => {
        $( #[ $attr ] )* $vis struct $name $( < $($ty_params),* >( $(std::marker::PhantomData<$ty_params>),* ) )?;
        impl $(< $($ty_params),* >)? $name $(< $($ty_params),* >)? { #[allow(unused)] pub const fn get() -> $type { $value } }
        impl<_I: From<$type> $(, $($ty_params),* )?> $crate::traits::Get<_I> for $name $(< $($ty_params),* >)? { fn get() -> _I { _I::from(Self::get()) } }
        impl $(< $($ty_params),* >)? $crate::traits::TypedGet for $name $(< $($ty_params),* >)? { type Type = $type; fn get() -> $type { Self::get() } }
        $crate::parameter_types!( $( $rest )* );
    };
    ( $( #[ $attr:meta ] )* $vis:vis static $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
        $crate::parameter_types_static!{ [$( #[ $attr ] )*] [$vis] $name [$type] $value }
        $crate::parameter_types!( $( $rest )* );
    };
    ( $( #[ $attr:meta ] )* $vis:vis storage $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
        $crate::parameter_types_static!{ [$( #[ $attr ] )*] [$vis] $name [$type] $value }
        $crate::parameter_types!( $( $rest )* );
    };
    ( $( #[ $attr:meta ] )* $vis:vis $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr; $( $rest:tt )* ) => {
        $( #[ $attr ] )* $vis struct $name $( < $($ty_params),* >( $(std::marker::PhantomData<$ty_params>),* ) )?;
        impl $(< $($ty_params),* >)? $name $(< $($ty_params),* >)? { #[allow(unused)] pub fn get() -> $type { $value } }
        impl<_I: From<$type> $(, $($ty_params),* )?> $crate::traits::Get<_I> for $name $(< $($ty_params),* >)? { fn get() -> _I { _I::from(Self::get()) } }
        impl $(< $($ty_params),* >)? $crate::traits::TypedGet for $name $(< $($ty_params),* >)? { type Type = $type; fn get() -> $type { Self::get() } }
        $crate::parameter_types!( $( $rest )* );
    };
    () => {};
}
#[macro_export]
macro_rules! parameter_types_static {
    ( [$( #[ $attr:meta ] )*] [$vis:vis] $name:ident [$type:ty] $value:expr ) => {
        $( #[ $attr ] )* $vis struct $name;
        const _: () = {
            thread_local! { pub static CELL: std::cell::RefCell<$type> = std::cell::RefCell::new($value); }
            #[allow(unused)]
            impl $name {
                pub fn get() -> $type { CELL.with(|v| v.borrow().clone()) }
                pub fn set(t: $type) { CELL.with(|v| *v.borrow_mut() = t) }
                pub fn mutate<R, F: FnOnce(&mut $type) -> R>(mutate: F) -> R { CELL.with(|v| mutate(&mut *v.borrow_mut())) }
                pub fn take() -> $type where $type: Default { let c = Self::get(); Self::set(Default::default()); c }
            }
            impl<_I: From<$type>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
        };
    };
}
#[macro_export]
macro_rules! ord_parameter_types {
    ( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
        $crate::parameter_types!( $( #[ $attr ] )* $vis const $name: $type = $value; );
        impl $crate::traits::SortedMembers<$type> for $name {
            fn contains(t: &$type) -> bool { t == &$value }
            fn sorted_members() -> Vec<$type> { vec![$value] }
        }
        impl $crate::traits::Contains<$type> for $name { fn contains(t: &$type) -> bool { t == &$value } }
        $crate::ord_parameter_types!( $( $rest )* );
    };
    () => {};
}
#[macro_export]
macro_rules! assert_error_encoded_size { ($($t:tt)*) => {}; }

thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Whether `defensive!` only does what it does in production (nothing but a log line) on this thread; Some sets it.
pub fn defensive_quiet(set: Option<bool>) -> bool { QUIET.with(|q| { if let Some(x) = set { q.set(x) } q.get() }) }
