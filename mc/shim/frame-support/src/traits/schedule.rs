//! Scheduling.
use super::preimages::Bounded;
use codec::{Decode, Encode};
use scale_info::TypeInfo;
use sp_runtime::{DispatchError, DispatchResult};
pub type Period<B> = (B, u32);
pub type Priority = u8;
pub const HIGHEST_PRIORITY: Priority = 0;
pub const HARD_DEADLINE: Priority = 63;
pub const LOWEST_PRIORITY: Priority = 255;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub enum DispatchTime<B> { At(B), After(B) }
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub enum LookupError { Unknown, BadFormat }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub enum MaybeHashed<T, Hash> { Value(T), Hash(Hash) }
pub mod v3 {
    use super::*;
    pub type TaskName = [u8; 32];
    pub trait Anon<B, Call, Origin> {
        type Address;
        type Hasher: sp_runtime::traits::Hash;
        fn schedule(when: DispatchTime<B>, p: Option<Period<B>>, prio: Priority, o: Origin, call: Bounded<Call, Self::Hasher>) -> Result<Self::Address, DispatchError>;
        fn cancel(a: Self::Address) -> DispatchResult;
    }
    pub trait Named<B, Call, Origin> {
        type Address;
        type Hasher: sp_runtime::traits::Hash;
        fn schedule_named(id: TaskName, when: DispatchTime<B>, p: Option<Period<B>>, prio: Priority, o: Origin, call: Bounded<Call, Self::Hasher>) -> Result<Self::Address, DispatchError>;
        fn cancel_named(id: TaskName) -> DispatchResult;
        fn reschedule_named(id: TaskName, when: DispatchTime<B>) -> Result<Self::Address, DispatchError>;
        fn next_dispatch_time(id: TaskName) -> Result<B, DispatchError>;
    }
}
