pub use sp_core::offchain::*;
pub mod http {}
pub mod storage {
    use sp_core::offchain::StorageKind;
    use codec::{Decode, Encode};
    pub struct StorageValueRef<'a> { key: std::borrow::Cow<'a, [u8]> }
    #[derive(Debug, PartialEq, Eq)]
    pub struct StorageRetrievalError;
    #[derive(Debug, PartialEq, Eq)]
    pub enum MutateStorageError<T, E> { ConcurrentModification(T), ValueFunctionFailed(E) }
    impl<'a> StorageValueRef<'a> {
        pub fn persistent(k: &'a [u8]) -> Self { Self { key: k.into() } }
        pub fn local(k: &'a [u8]) -> Self { Self { key: k.into() } }
        pub fn set(&self, v: &impl Encode) { sp_io::offchain::local_storage_set(StorageKind::PERSISTENT, &self.key, &v.encode()) }
        pub fn clear(&mut self) { sp_io::offchain::local_storage_clear(StorageKind::PERSISTENT, &self.key) }
        pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
            sp_io::offchain::local_storage_get(StorageKind::PERSISTENT, &self.key)
                .map(|v| T::decode(&mut &*v).map_err(|_| StorageRetrievalError))
                .transpose()
        }
        pub fn mutate<T: codec::Codec, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> {
            let v = f(self.get::<T>()).map_err(MutateStorageError::ValueFunctionFailed)?;
            self.set(&v);
            Ok(v)
        }
    }
}
pub mod storage_lock {
    use super::*;
    use codec::{Decode, Encode};
    pub const STORAGE_LOCK_DEFAULT_EXPIRY_DURATION: Duration = Duration::from_millis(20_000);
    pub trait Lockable: Sized { type Deadline: Encode + Decode + Clone; fn deadline(&self) -> Self::Deadline; fn has_expired(d: &Self::Deadline) -> bool; }
    #[derive(Debug, Copy, Clone)]
    pub struct Time { expiration_duration: Duration }
    impl Default for Time { fn default() -> Self { Self { expiration_duration: STORAGE_LOCK_DEFAULT_EXPIRY_DURATION } } }
    impl Lockable for Time {
        type Deadline = Timestamp;
        fn deadline(&self) -> Timestamp { sp_io::offchain::timestamp().add(self.expiration_duration) }
        fn has_expired(d: &Timestamp) -> bool { sp_io::offchain::timestamp() > *d }
    }
    pub struct StorageLock<'a, L = Time> { r: super::storage::StorageValueRef<'a>, l: L }
    impl<'a> StorageLock<'a, Time> {
        pub fn with_deadline(k: &'a [u8], d: Duration) -> Self { Self { r: super::storage::StorageValueRef::persistent(k), l: Time { expiration_duration: d } } }
        pub fn new(k: &'a [u8]) -> Self { Self { r: super::storage::StorageValueRef::persistent(k), l: Time::default() } }
    }
    impl<'a, L: Lockable> StorageLock<'a, L> {
        pub fn try_lock(&mut self) -> Result<StorageLockGuard<'a, '_, L>, L::Deadline> {
            if let Ok(Some(d)) = self.r.get::<L::Deadline>() { if !L::has_expired(&d) { return Err(d); } }
            self.r.set(&self.l.deadline());
            Ok(StorageLockGuard { lock: Some(self) })
        }
    }
    pub struct StorageLockGuard<'a, 'b, L: Lockable> { lock: Option<&'b mut StorageLock<'a, L>> }
    impl<'a, 'b, L: Lockable> StorageLockGuard<'a, 'b, L> { pub fn forget(mut self) { self.lock.take(); } }
    impl<'a, 'b, L: Lockable> Drop for StorageLockGuard<'a, 'b, L> { fn drop(&mut self) { if let Some(l) = self.lock.take() { l.r.clear() } } }
}
