//! Block time.
use frame_support::traits::{Time, UnixTime};
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    use sp_runtime::traits::AtLeast32Bit;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type Moment: Parameter + Default + AtLeast32Bit + Copy + MaxEncodedLen + scale_info::StaticTypeInfo;
        type OnTimestampSet;
        #[pallet::constant]
        type MinimumPeriod: Get<Self::Moment>;
        type WeightInfo;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    #[pallet::getter(fn now)]
    pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
    #[pallet::call]
    impl<T: Config> Pallet<T> {}
}
impl<T: Config> Pallet<T> { pub fn set_timestamp(now: T::Moment) { Now::<T>::put(now) } pub fn get() -> T::Moment { Now::<T>::get() } }
impl<T: Config> Time for Pallet<T> { type Moment = T::Moment; fn now() -> T::Moment { Now::<T>::get() } }
impl<T: Config> UnixTime for Pallet<T> {
    fn now() -> core::time::Duration { core::time::Duration::from_millis(sp_runtime::traits::UniqueSaturatedInto::<u64>::unique_saturated_into(Now::<T>::get())) }
}
