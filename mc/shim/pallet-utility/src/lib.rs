//! Batches of calls.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
    use frame_support::pallet_prelude::*;
    use frame_support::traits::{IsSubType, UnfilteredDispatchable};
    use frame_system::pallet_prelude::*;
    use sp_runtime::traits::Dispatchable;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
        type PalletsOrigin;
        type WeightInfo;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event { BatchInterrupted { index: u32, error: DispatchError }, BatchCompleted, BatchCompletedWithErrors, ItemCompleted, ItemFailed { error: DispatchError } }
    #[pallet::error]
    pub enum Error<T> { TooManyCalls }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
            for (i, c) in calls.into_iter().enumerate() {
                if let Err(e) = c.dispatch(origin.clone()) { Self::deposit_event(Event::BatchInterrupted { index: i as u32, error: e.error }); return Ok(().into()) }
                Self::deposit_event(Event::ItemCompleted);
            }
            Self::deposit_event(Event::BatchCompleted);
            Ok(().into())
        }
        #[pallet::call_index(2)]
        #[pallet::weight(Weight::zero())]
        pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
            for c in calls { c.dispatch(origin.clone())?; Self::deposit_event(Event::ItemCompleted); }
            Self::deposit_event(Event::BatchCompleted);
            Ok(().into())
        }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::zero())]
        pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
            let mut bad = false;
            for c in calls { match c.dispatch(origin.clone()) { Ok(_) => Self::deposit_event(Event::ItemCompleted), Err(e) => { bad = true; Self::deposit_event(Event::ItemFailed { error: e.error }) } } }
            Self::deposit_event(if bad { Event::BatchCompletedWithErrors } else { Event::BatchCompleted });
            Ok(().into())
        }
    }
}
