//! Off-chain worker environment: a per-thread in-memory store and clock.
use codec::{Decode, Encode};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StorageKind {
    PERSISTENT = 1,
    LOCAL = 2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, Default)]
pub struct Timestamp(u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, Default)]
pub struct Duration(u64);
impl Duration {
    pub const fn from_millis(m: u64) -> Self { Duration(m) }
    pub fn millis(&self) -> u64 { self.0 }
}
impl Timestamp {
    pub fn from_unix_millis(m: u64) -> Self { Timestamp(m) }
    pub fn unix_millis(&self) -> u64 { self.0 }
    pub fn add(&self, d: Duration) -> Timestamp { Timestamp(self.0.saturating_add(d.0)) }
    pub fn diff(&self, o: &Timestamp) -> Duration { Duration(self.0.saturating_sub(o.0)) }
}
#[derive(Default)]
pub struct OffchainState {
    pub db: BTreeMap<Vec<u8>, Vec<u8>>,
    pub now: u64,
    pub validator: bool,
    pub pool: Vec<Vec<u8>>,
}
thread_local! {
    pub static STATE: RefCell<OffchainState> = RefCell::new(OffchainState { validator: true, ..Default::default() });
}
pub struct OffchainDbExt;
impl OffchainDbExt { pub fn new<T>(_: T) -> Self { Self } }
pub struct OffchainWorkerExt;
impl OffchainWorkerExt { pub fn new<T>(_: T) -> Self { Self } }
pub struct TransactionPoolExt;
impl TransactionPoolExt { pub fn new<T>(_: T) -> Self { Self } }
pub mod testing {
    #[derive(Clone, Default)]
    pub struct PoolState {
        pub transactions: Vec<Vec<u8>>,
    }
    #[derive(Clone, Default)]
    pub struct OffchainState;
    #[derive(Clone)]
    pub struct TestOffchainExt;
    impl TestOffchainExt {
        pub fn new() -> (Self, std::sync::Arc<std::sync::RwLock<OffchainState>>) { (Self, Default::default()) }
    }
    #[derive(Clone)]
    pub struct TestTransactionPoolExt;
    impl TestTransactionPoolExt {
        pub fn new() -> (Self, std::sync::Arc<std::sync::RwLock<PoolState>>) { (Self, Default::default()) }
    }
}
