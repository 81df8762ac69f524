//! Unique items: collections, items, owners, deposits.  No attributes, metadata, approvals or prices.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::{ensure, traits::{tokens::nonfungibles as nf, Currency, Get, ReservableCurrency}};
use scale_info::TypeInfo;
use sp_runtime::{traits::{Saturating, Zero}, ArithmeticError, DispatchError, DispatchResult};
pub use pallet::*;
type DepositBalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
#[derive(Clone, Encode, Decode, Debug, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub struct CollectionDetails<A, B> { pub owner: A, pub issuer: A, pub admin: A, pub freezer: A, pub total_deposit: B, pub free_holding: bool, pub items: u32, pub item_metadatas: u32, pub attributes: u32, pub is_frozen: bool }
#[derive(Copy, Clone, Encode, Decode, Debug, PartialEq, Eq, TypeInfo)]
pub struct DestroyWitness { #[codec(compact)] pub items: u32, #[codec(compact)] pub item_metadatas: u32, #[codec(compact)] pub attributes: u32 }
#[derive(Clone, Encode, Decode, Debug, PartialEq, Eq, Default, TypeInfo, MaxEncodedLen)]
pub struct ItemDetails<A, B> { pub owner: A, pub approved: Option<A>, pub is_frozen: bool, pub deposit: B }
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    use frame_support::traits::{EnsureOriginWithArg, tokens::Locker};
    use frame_system::pallet_prelude::*;
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type CollectionId: Member + Parameter + MaxEncodedLen + Copy;
        type ItemId: Member + Parameter + MaxEncodedLen + Copy;
        type Currency: ReservableCurrency<Self::AccountId>;
        type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
        type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::CollectionId, Success = Self::AccountId>;
        type Locker: Locker<Self::CollectionId, Self::ItemId>;
        #[pallet::constant]
        type CollectionDeposit: Get<DepositBalanceOf<Self>>;
        #[pallet::constant]
        type ItemDeposit: Get<DepositBalanceOf<Self>>;
        #[pallet::constant]
        type MetadataDepositBase: Get<DepositBalanceOf<Self>>;
        #[pallet::constant]
        type AttributeDepositBase: Get<DepositBalanceOf<Self>>;
        #[pallet::constant]
        type DepositPerByte: Get<DepositBalanceOf<Self>>;
        #[pallet::constant]
        type StringLimit: Get<u32>;
        #[pallet::constant]
        type KeyLimit: Get<u32>;
        #[pallet::constant]
        type ValueLimit: Get<u32>;
        type WeightInfo;
    }
    #[pallet::storage]
    pub type Class<T: Config> = StorageMap<_, Blake2_128Concat, T::CollectionId, CollectionDetails<T::AccountId, DepositBalanceOf<T>>>;
    #[pallet::storage]
    pub type Account<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Blake2_128Concat, (T::CollectionId, T::ItemId), ()>;
    #[pallet::storage]
    pub type ClassAccount<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Blake2_128Concat, T::CollectionId, ()>;
    #[pallet::storage]
    pub type Asset<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::CollectionId, Blake2_128Concat, T::ItemId, ItemDetails<T::AccountId, DepositBalanceOf<T>>>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> {
        Created { collection: T::CollectionId, creator: T::AccountId, owner: T::AccountId },
        Destroyed { collection: T::CollectionId },
        Issued { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
        Transferred { collection: T::CollectionId, item: T::ItemId, from: T::AccountId, to: T::AccountId },
        Burned { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
        CollectionFrozen { collection: T::CollectionId },
    }
    #[pallet::error]
    pub enum Error<T> { NoPermission, UnknownCollection, AlreadyExists, WrongOwner, BadWitness, InUse, Frozen, WrongDelegate, NoDelegate, Unapproved, Unaccepted, Locked, MaxSupplyReached, MaxSupplyAlreadySet, MaxSupplyTooSmall, UnknownItem, NotForSale, BidTooLow }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn freeze_collection(origin: OriginFor<T>, collection: T::CollectionId) -> DispatchResult {
            let origin = ensure_signed(origin)?;
            Class::<T>::try_mutate(collection, |d| {
                let d = d.as_mut().ok_or(Error::<T>::UnknownCollection)?;
                ensure!(origin == d.freezer, Error::<T>::NoPermission);
                d.is_frozen = true;
                Self::deposit_event(Event::CollectionFrozen { collection });
                Ok(())
            })
        }
    }
}
impl<T: Config> Pallet<T> {
    pub fn do_create_collection(collection: T::CollectionId, owner: T::AccountId, admin: T::AccountId, deposit: DepositBalanceOf<T>, free_holding: bool, event: Event<T>) -> DispatchResult {
        ensure!(!Class::<T>::contains_key(collection), Error::<T>::InUse);
        T::Currency::reserve(&owner, deposit)?;
        Class::<T>::insert(collection, CollectionDetails { owner: owner.clone(), issuer: admin.clone(), admin: admin.clone(), freezer: admin, total_deposit: deposit, free_holding, items: 0, item_metadatas: 0, attributes: 0, is_frozen: false });
        ClassAccount::<T>::insert(&owner, collection, ());
        Self::deposit_event(event);
        Ok(())
    }
    pub fn do_destroy_collection(collection: T::CollectionId, witness: DestroyWitness, maybe_check_owner: Option<T::AccountId>) -> Result<DestroyWitness, DispatchError> {
        Class::<T>::try_mutate_exists(collection, |md| {
            let d = md.take().ok_or(Error::<T>::UnknownCollection)?;
            if let Some(o) = maybe_check_owner { ensure!(d.owner == o, Error::<T>::NoPermission); }
            ensure!(d.items == witness.items && d.item_metadatas == witness.item_metadatas && d.attributes == witness.attributes, Error::<T>::BadWitness);
            for (item, details) in Asset::<T>::drain_prefix(collection) { Account::<T>::remove(&details.owner, (collection, item)); }
            ClassAccount::<T>::remove(&d.owner, collection);
            T::Currency::unreserve(&d.owner, d.total_deposit);
            Self::deposit_event(Event::Destroyed { collection });
            Ok(DestroyWitness { items: d.items, item_metadatas: d.item_metadatas, attributes: d.attributes })
        })
    }
    pub fn do_mint(collection: T::CollectionId, item: T::ItemId, owner: T::AccountId, with_details: impl FnOnce(&CollectionDetails<T::AccountId, DepositBalanceOf<T>>) -> DispatchResult) -> DispatchResult {
        ensure!(!Asset::<T>::contains_key(collection, item), Error::<T>::AlreadyExists);
        Class::<T>::try_mutate(collection, |md| -> DispatchResult {
            let d = md.as_mut().ok_or(Error::<T>::UnknownCollection)?;
            with_details(d)?;
            d.items = d.items.checked_add(1).ok_or(ArithmeticError::Overflow)?;
            let deposit = if d.free_holding { Zero::zero() } else { T::ItemDeposit::get() };
            T::Currency::reserve(&d.owner, deposit)?;
            d.total_deposit = d.total_deposit.saturating_add(deposit);
            Account::<T>::insert(&owner, (collection, item), ());
            Asset::<T>::insert(collection, item, ItemDetails { owner: owner.clone(), approved: None, is_frozen: false, deposit });
            Ok(())
        })?;
        Self::deposit_event(Event::Issued { collection, item, owner });
        Ok(())
    }
    pub fn do_burn(collection: T::CollectionId, item: T::ItemId, with_details: impl FnOnce(&CollectionDetails<T::AccountId, DepositBalanceOf<T>>, &ItemDetails<T::AccountId, DepositBalanceOf<T>>) -> DispatchResult) -> DispatchResult {
        let owner = Class::<T>::try_mutate(collection, |md| -> Result<T::AccountId, DispatchError> {
            let d = md.as_mut().ok_or(Error::<T>::UnknownCollection)?;
            let details = Asset::<T>::get(collection, item).ok_or(Error::<T>::UnknownCollection)?;
            with_details(d, &details)?;
            T::Currency::unreserve(&d.owner, details.deposit);
            d.total_deposit = d.total_deposit.saturating_sub(details.deposit);
            d.items = d.items.saturating_sub(1);
            Ok(details.owner)
        })?;
        Asset::<T>::remove(collection, item);
        Account::<T>::remove(&owner, (collection, item));
        Self::deposit_event(Event::Burned { collection, item, owner });
        Ok(())
    }
    pub fn do_transfer(collection: T::CollectionId, item: T::ItemId, dest: T::AccountId, with_details: impl FnOnce(&CollectionDetails<T::AccountId, DepositBalanceOf<T>>, &mut ItemDetails<T::AccountId, DepositBalanceOf<T>>) -> DispatchResult) -> DispatchResult {
        use frame_support::traits::tokens::Locker;
        let d = Class::<T>::get(collection).ok_or(Error::<T>::UnknownCollection)?;
        ensure!(!d.is_frozen, Error::<T>::Frozen);
        ensure!(!T::Locker::is_locked(collection, item), Error::<T>::Locked);
        let mut details = Asset::<T>::get(collection, item).ok_or(Error::<T>::UnknownCollection)?;
        ensure!(!details.is_frozen, Error::<T>::Frozen);
        with_details(&d, &mut details)?;
        Account::<T>::remove(&details.owner, (collection, item));
        Account::<T>::insert(&dest, (collection, item), ());
        let from = std::mem::replace(&mut details.owner, dest.clone());
        details.approved = None;
        Asset::<T>::insert(collection, item, details);
        Self::deposit_event(Event::Transferred { collection, item, from, to: dest });
        Ok(())
    }
    pub fn owner(collection: T::CollectionId, item: T::ItemId) -> Option<T::AccountId> { Asset::<T>::get(collection, item).map(|i| i.owner) }
    pub fn collection_owner(collection: T::CollectionId) -> Option<T::AccountId> { Class::<T>::get(collection).map(|i| i.owner) }
}
impl<T: Config> nf::Inspect<T::AccountId> for Pallet<T> {
    type ItemId = T::ItemId;
    type CollectionId = T::CollectionId;
    fn owner(c: &T::CollectionId, i: &T::ItemId) -> Option<T::AccountId> { Self::owner(*c, *i) }
    fn collection_owner(c: &T::CollectionId) -> Option<T::AccountId> { Self::collection_owner(*c) }
    fn can_transfer(c: &T::CollectionId, i: &T::ItemId) -> bool {
        matches!((Class::<T>::get(c), Asset::<T>::get(c, i)), (Some(d), Some(x)) if !d.is_frozen && !x.is_frozen)
    }
}
impl<T: Config> nf::Create<T::AccountId> for Pallet<T> {
    fn create_collection(c: &T::CollectionId, who: &T::AccountId, admin: &T::AccountId) -> DispatchResult {
        Self::do_create_collection(*c, who.clone(), admin.clone(), T::CollectionDeposit::get(), false, Event::Created { collection: *c, creator: who.clone(), owner: admin.clone() })
    }
}
impl<T: Config> nf::Destroy<T::AccountId> for Pallet<T> {
    type DestroyWitness = DestroyWitness;
    fn get_destroy_witness(c: &T::CollectionId) -> Option<DestroyWitness> { Class::<T>::get(c).map(|d| DestroyWitness { items: d.items, item_metadatas: d.item_metadatas, attributes: d.attributes }) }
    fn destroy(c: T::CollectionId, w: DestroyWitness, o: Option<T::AccountId>) -> Result<DestroyWitness, DispatchError> { Self::do_destroy_collection(c, w, o) }
}
impl<T: Config> nf::Mutate<T::AccountId> for Pallet<T> {
    fn mint_into(c: &T::CollectionId, i: &T::ItemId, who: &T::AccountId) -> DispatchResult { Self::do_mint(*c, *i, who.clone(), |_| Ok(())) }
    fn burn(c: &T::CollectionId, i: &T::ItemId, o: Option<&T::AccountId>) -> DispatchResult {
        Self::do_burn(*c, *i, |_, d| { if let Some(o) = o { ensure!(*o == d.owner, Error::<T>::NoPermission); } Ok(()) })
    }
}
impl<T: Config> nf::Transfer<T::AccountId> for Pallet<T> {
    fn transfer(c: &T::CollectionId, i: &T::ItemId, dest: &T::AccountId) -> DispatchResult { Self::do_transfer(*c, *i, dest.clone(), |_, _| Ok(())) }
}
impl<T: Config> nf::InspectEnumerable<T::AccountId> for Pallet<T> {
    type CollectionsIterator = Box<dyn Iterator<Item = T::CollectionId>>;
    type ItemsIterator = Box<dyn Iterator<Item = T::ItemId>>;
    type OwnedIterator = Box<dyn Iterator<Item = (T::CollectionId, T::ItemId)>>;
    type OwnedInCollectionIterator = Box<dyn Iterator<Item = T::ItemId>>;
    fn collections() -> Self::CollectionsIterator { Box::new(Class::<T>::iter_keys()) }
    fn items(c: &T::CollectionId) -> Self::ItemsIterator { Box::new(Asset::<T>::iter_key_prefix(c)) }
    fn owned(who: &T::AccountId) -> Self::OwnedIterator { Box::new(Account::<T>::iter_key_prefix(who)) }
    fn owned_in_collection(c: &T::CollectionId, who: &T::AccountId) -> Self::OwnedInCollectionIterator {
        let c = *c;
        Box::new(Account::<T>::iter_key_prefix(who).filter(move |(x, _)| *x == c).map(|(_, i)| i))
    }
}
