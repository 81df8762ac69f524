//! Transaction fees: what a transaction is charged before it runs and given back afterwards.
use codec::{Decode, Encode};
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo, GetDispatchInfo, Pays};
use frame_support::traits::Get;
use frame_support::weights::{Weight, WeightToFee};
use scale_info::TypeInfo;
use sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf, Saturating, SignedExtension, Zero};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidity, TransactionValidityError, ValidTransaction};
use sp_runtime::{FixedPointNumber, FixedPointOperand, FixedU128};
pub use pallet::*;
pub type Multiplier = FixedU128;
pub trait OnChargeTransaction<T: Config> {
    type Balance: sp_runtime::traits::AtLeast32BitUnsigned + codec::FullCodec + Copy + sp_runtime::traits::MaybeSerializeDeserialize + core::fmt::Debug + Default + TypeInfo;
    type LiquidityInfo: Default;
    fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
    fn correct_and_deposit_fee(who: &T::AccountId, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, post_info: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already_withdrawn: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type OnChargeTransaction: OnChargeTransaction<Self>;
        #[pallet::constant]
        type OperationalFeeMultiplier;
        type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
        type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
        type FeeMultiplierUpdate;
    }
    #[pallet::type_value]
    pub fn NextFeeMultiplierOnEmpty() -> Multiplier { Multiplier::saturating_from_integer(1) }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    #[pallet::getter(fn next_fee_multiplier)]
    pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, ValueQuery, NextFeeMultiplierOnEmpty>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> {
        TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> },
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {}
}
impl<T: Config> Pallet<T> where BalanceOf<T>: FixedPointOperand, T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> {
    fn raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, info: &DispatchInfo) -> BalanceOf<T> {
        if pays != Pays::Yes { return tip }
        let base = T::WeightToFee::weight_to_fee(&T::BlockWeights::get().get(info.class).base_extrinsic);
        let w = Self::next_fee_multiplier().saturating_mul_int(T::WeightToFee::weight_to_fee(&weight));
        base.saturating_add(T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0))).saturating_add(w).saturating_add(tip)
    }
    pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T> { Self::raw(len, info.weight, tip, info.pays_fee, info) }
    pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T> {
        Self::raw(len, post.actual_weight.unwrap_or(info.weight).min(info.weight), tip, if info.pays_fee == Pays::No { Pays::No } else { post.pays_fee }, info)
    }
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] BalanceOf<T>) where BalanceOf<T>: codec::HasCompact;
impl<T: Config> ChargeTransactionPayment<T> where BalanceOf<T>: codec::HasCompact { pub fn from(tip: BalanceOf<T>) -> Self { Self(tip) } }
impl<T: Config> core::fmt::Debug for ChargeTransactionPayment<T> where BalanceOf<T>: codec::HasCompact { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "ChargeTransactionPayment") } }
impl<T: Config> SignedExtension for ChargeTransactionPayment<T> where BalanceOf<T>: Send + Sync + FixedPointOperand + codec::HasCompact, T: Send + Sync, T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> {
    const IDENTIFIER: &'static str = "ChargeTransactionPayment";
    type AccountId = T::AccountId;
    type Call = T::RuntimeCall;
    type AdditionalSigned = ();
    type Pre = (BalanceOf<T>, T::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
    fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
    fn validate(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> TransactionValidity {
        T::OnChargeTransaction::withdraw_fee(who, call, info, Pallet::<T>::compute_fee(len as u32, info, self.0), self.0)?;
        Ok(ValidTransaction::default())
    }
    fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
        let paid = T::OnChargeTransaction::withdraw_fee(who, call, info, Pallet::<T>::compute_fee(len as u32, info, self.0), self.0)?;
        Ok((self.0, who.clone(), paid))
    }
    fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, len: usize, _: &sp_runtime::DispatchResult) -> Result<(), TransactionValidityError> {
        if let Some((tip, who, paid)) = pre {
            let actual_fee = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
            T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, actual_fee, tip, paid)?;
            Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee, tip });
        }
        Ok(())
    }
}
#[allow(unused)] fn unused(_: InvalidTransaction) where u8: Sized { fn f<T: Zero + Saturating, C: GetDispatchInfo>() {} }
