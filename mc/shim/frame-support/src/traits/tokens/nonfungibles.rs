//! Non-fungible traits.
use crate::dispatch::Parameter;
use sp_runtime::{DispatchError, DispatchResult, TokenError};
use codec::{Decode, Encode};
pub trait Inspect<AccountId> {
    type ItemId: Parameter;
    type CollectionId: Parameter;
    fn owner(c: &Self::CollectionId, i: &Self::ItemId) -> Option<AccountId>;
    fn collection_owner(_c: &Self::CollectionId) -> Option<AccountId> { None }
    fn attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8]) -> Option<Vec<u8>> { None }
    fn typed_attribute<K: Encode, V: Decode>(c: &Self::CollectionId, i: &Self::ItemId, k: &K) -> Option<V> { k.using_encoded(|d| Self::attribute(c, i, d)).and_then(|v| V::decode(&mut &v[..]).ok()) }
    fn collection_attribute(_c: &Self::CollectionId, _k: &[u8]) -> Option<Vec<u8>> { None }
    fn can_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> bool { true }
}
pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {
    type CollectionsIterator: Iterator<Item = Self::CollectionId>;
    type ItemsIterator: Iterator<Item = Self::ItemId>;
    type OwnedIterator: Iterator<Item = (Self::CollectionId, Self::ItemId)>;
    type OwnedInCollectionIterator: Iterator<Item = Self::ItemId>;
    fn collections() -> Self::CollectionsIterator;
    fn items(c: &Self::CollectionId) -> Self::ItemsIterator;
    fn owned(who: &AccountId) -> Self::OwnedIterator;
    fn owned_in_collection(c: &Self::CollectionId, who: &AccountId) -> Self::OwnedInCollectionIterator;
}
pub trait Create<AccountId>: Inspect<AccountId> { fn create_collection(c: &Self::CollectionId, who: &AccountId, admin: &AccountId) -> DispatchResult; }
pub trait Destroy<AccountId>: Inspect<AccountId> {
    type DestroyWitness: Parameter;
    fn get_destroy_witness(c: &Self::CollectionId) -> Option<Self::DestroyWitness>;
    fn destroy(c: Self::CollectionId, w: Self::DestroyWitness, owner: Option<AccountId>) -> Result<Self::DestroyWitness, DispatchError>;
}
pub trait Mutate<AccountId>: Inspect<AccountId> {
    fn mint_into(_c: &Self::CollectionId, _i: &Self::ItemId, _w: &AccountId) -> DispatchResult { Err(TokenError::Unsupported.into()) }
    fn burn(_c: &Self::CollectionId, _i: &Self::ItemId, _o: Option<&AccountId>) -> DispatchResult { Err(TokenError::Unsupported.into()) }
    fn set_attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8], _v: &[u8]) -> DispatchResult { Err(TokenError::Unsupported.into()) }
}
pub trait Transfer<AccountId>: Inspect<AccountId> {
    fn transfer(c: &Self::CollectionId, i: &Self::ItemId, dest: &AccountId) -> DispatchResult;
    fn disable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult { Err(TokenError::Unsupported.into()) }
    fn enable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult { Err(TokenError::Unsupported.into()) }
}
