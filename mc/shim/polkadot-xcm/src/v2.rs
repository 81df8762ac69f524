//! A few instructions of version 2, to be converted to version 3.
pub use super::v3::{AssetId, AssetInstance, Fungibility, Junction, Junctions, MultiAsset, MultiAssets, MultiLocation};
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Instruction<Call> { WithdrawAsset(MultiAssets), ReserveAssetDeposited(MultiAssets), ReceiveTeleportedAsset(MultiAssets), ClearOrigin, DescendOrigin(Vec<u8>), #[doc(hidden)] Never(core::marker::PhantomData<fn() -> Call>) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
pub mod prelude { pub use super::{Instruction::{self, *}, Junction::{self, *}, Junctions::{self, *}, MultiAsset, MultiAssets, MultiLocation, Xcm}; }
