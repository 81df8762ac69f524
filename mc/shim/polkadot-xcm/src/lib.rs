//! Cross-consensus messages: the types the runtime reads, without execution.
pub mod v2;
pub mod v3;
pub mod v4;
pub mod lts { pub use super::v3::*; }
pub mod latest { pub use super::v4::*; }
pub mod prelude { pub use super::latest::prelude::*; pub use super::{IntoVersion, VersionedXcm}; }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum VersionedXcm<Call> { V2(v2::Xcm<Call>), V3(v3::Xcm<Call>), V4(v4::Xcm<Call>) }
pub trait IntoVersion: Sized { fn into_version(self, version: u32) -> Result<Self, ()>; }
impl<C> IntoVersion for VersionedXcm<C> {
    /// only to version 3 (all the runtime asks for)
    fn into_version(self, version: u32) -> Result<Self, ()> {
        if version != 3 { return Err(()) }
        Ok(VersionedXcm::V3(match self { VersionedXcm::V2(x) => x.try_into()?, VersionedXcm::V3(x) => x, VersionedXcm::V4(x) => x.try_into()? }))
    }
}
impl<C> From<v2::Xcm<C>> for VersionedXcm<C> { fn from(x: v2::Xcm<C>) -> Self { Self::V2(x) } }
impl<C> From<v3::Xcm<C>> for VersionedXcm<C> { fn from(x: v3::Xcm<C>) -> Self { Self::V3(x) } }
impl<C> From<v4::Xcm<C>> for VersionedXcm<C> { fn from(x: v4::Xcm<C>) -> Self { Self::V4(x) } }
mod convert;
