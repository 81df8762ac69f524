//! XCM v3, as wide as the runtime's code and tests look at it.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_std::prelude::*;
use frame_support::weights::Weight;

macro_rules! plain { ($($t:tt)*) => { #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)] $($t)* } }
macro_rules! loose { ($($t:tt)*) => { #[derive(Clone, Debug, PartialEq, Eq)] $($t)* } }
plain! { #[derive(Copy, MaxEncodedLen)] pub enum NetworkId { ByGenesis([u8; 32]), Polkadot, Kusama, Westend, Rococo, Wococo } }
plain! { #[derive(Copy, MaxEncodedLen)] pub enum Junction {
    Parachain(u32), AccountId32 { network: Option<NetworkId>, id: [u8; 32] }, AccountIndex64 { network: Option<NetworkId>, index: u64 },
    AccountKey20 { network: Option<NetworkId>, key: [u8; 20] }, PalletInstance(u8), GeneralIndex(u128), GeneralKey { length: u8, data: [u8; 32] },
    OnlyChild, GlobalConsensus(NetworkId) } }
impl From<sp_core::BoundedVec<u8, sp_core::ConstU32<32>>> for Junction {
    fn from(k: sp_core::BoundedVec<u8, sp_core::ConstU32<32>>) -> Self { let mut data = [0; 32]; data[..k.len()].copy_from_slice(k.as_slice()); Self::GeneralKey { length: k.len() as u8, data } }
}
impl From<u128> for Junction { fn from(i: u128) -> Self { Self::GeneralIndex(i) } }
plain! { #[derive(Copy, Default, MaxEncodedLen)] pub enum Junctions { #[default] Here, X1(Junction), X2(Junction, Junction), X3(Junction, Junction, Junction), X4(Junction, Junction, Junction, Junction) } }
impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Self::X1(j) } }
impl Junctions {
    pub fn list(&self) -> Vec<Junction> { match *self { Junctions::Here => vec![], Junctions::X1(a) => vec![a], Junctions::X2(a, b) => vec![a, b], Junctions::X3(a, b, c) => vec![a, b, c], Junctions::X4(a, b, c, d) => vec![a, b, c, d] } }
    pub fn of(l: &[Junction]) -> Option<Self> { Some(match *l { [] => Junctions::Here, [a] => Junctions::X1(a), [a, b] => Junctions::X2(a, b), [a, b, c] => Junctions::X3(a, b, c), [a, b, c, d] => Junctions::X4(a, b, c, d), _ => return None }) }
}
plain! { #[derive(Copy, Default, MaxEncodedLen)] pub struct MultiLocation { pub parents: u8, pub interior: Junctions } }
impl MultiLocation {
    pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self { Self { parents, interior: interior.into() } }
    pub const fn here() -> Self { Self { parents: 0, interior: Junctions::Here } }
    pub const fn parent() -> Self { Self { parents: 1, interior: Junctions::Here } }
}
impl<T: Into<Junctions>> From<T> for MultiLocation { fn from(j: T) -> Self { Self { parents: 0, interior: j.into() } } }
plain! { #[derive(Copy, MaxEncodedLen)] pub enum AssetInstance { Undefined, Index(u128), Array4([u8; 4]), Array8([u8; 8]), Array16([u8; 16]), Array32([u8; 32]) } }
plain! { #[derive(Copy, MaxEncodedLen)] pub enum AssetId { Concrete(MultiLocation), Abstract([u8; 32]) } }
impl<T: Into<MultiLocation>> From<T> for AssetId { fn from(l: T) -> Self { Self::Concrete(l.into()) } }
plain! { #[derive(Copy, MaxEncodedLen)] pub enum Fungibility { Fungible(u128), NonFungible(AssetInstance) } }
impl From<u128> for Fungibility { fn from(a: u128) -> Self { Self::Fungible(a) } }
plain! { pub struct MultiAsset { pub id: AssetId, pub fun: Fungibility } }
impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for MultiAsset { fn from((a, b): (A, B)) -> Self { Self { id: a.into(), fun: b.into() } } }
plain! { #[derive(Default)] pub struct MultiAssets(Vec<MultiAsset>); }
impl MultiAssets { pub fn from_sorted_and_deduplicated(v: Vec<MultiAsset>) -> core::result::Result<Self, ()> { if v.windows(2).all(|w| w[0] < w[1]) { Ok(Self(v)) } else { Err(()) } } pub fn inner(&self) -> &Vec<MultiAsset> { &self.0 } pub fn into_inner(self) -> Vec<MultiAsset> { self.0 } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn get(&self, i: usize) -> Option<&MultiAsset> { self.0.get(i) } }
impl From<Vec<MultiAsset>> for MultiAssets {
    /// sorted; equal fungible ids added up, equal non-fungibles kept once
    fn from(mut v: Vec<MultiAsset>) -> Self {
        v.sort();
        let mut r: Vec<MultiAsset> = Vec::new();
        for a in v { if let Some(l) = r.last_mut() { match (&l.id == &a.id, &mut l.fun, &a.fun) { (true, Fungibility::Fungible(x), Fungibility::Fungible(y)) => { *x = x.saturating_add(*y); continue }, _ => if *l == a { continue } } } r.push(a); }
        Self(r)
    }
}
impl<T: Into<MultiAsset>> From<T> for MultiAssets { fn from(a: T) -> Self { Self(vec![a.into()]) } }
plain! { #[derive(Copy)] pub enum WildFungibility { Fungible, NonFungible } }
plain! { #[derive(Copy)] pub enum WildMultiAsset { All, AllOf { id: AssetId, fun: WildFungibility }, AllCounted(u32), AllOfCounted { id: AssetId, fun: WildFungibility, count: u32 } } }
plain! { pub enum MultiAssetFilter { Definite(MultiAssets), Wild(WildMultiAsset) } }
impl From<WildMultiAsset> for MultiAssetFilter { fn from(w: WildMultiAsset) -> Self { Self::Wild(w) } }
loose! { #[derive(Copy)] pub enum WeightLimit { Unlimited, Limited(Weight) } }
plain! { #[derive(Copy)] pub enum OriginKind { Native, SovereignAccount, Superuser, Xcm } }
pub struct DoubleEncoded<T> { encoded: Vec<u8>, _p: sp_std::marker::PhantomData<fn() -> T> }
impl<T> From<Vec<u8>> for DoubleEncoded<T> { fn from(encoded: Vec<u8>) -> Self { Self { encoded, _p: Default::default() } } }
impl<T> Clone for DoubleEncoded<T> { fn clone(&self) -> Self { self.encoded.clone().into() } }
impl<T> PartialEq for DoubleEncoded<T> { fn eq(&self, o: &Self) -> bool { self.encoded == o.encoded } }
impl<T> Eq for DoubleEncoded<T> {}
impl<T> core::fmt::Debug for DoubleEncoded<T> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{:?}", self.encoded) } }
/// Errors of v3 (and, by re-export, of v4).
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Error {
    Overflow, Unimplemented, UntrustedReserveLocation, UntrustedTeleportLocation, LocationFull, LocationNotInvertible, BadOrigin, InvalidLocation, AssetNotFound,
    FailedToTransactAsset(&'static str), NotWithdrawable, LocationCannotHold, ExceedsMaxMessageSize, DestinationUnsupported, Transport(&'static str),
    Unroutable, UnknownClaim, FailedToDecode, MaxWeightInvalid, NotHoldingFees, TooExpensive, Trap(u64), ExpectationFalse, PalletNotFound, NameMismatch, VersionIncompatible,
    HoldingWouldOverflow, ExportError, ReanchorFailed, NoDeal, FeesNotMet, LockError, NoPermission, Unanchored, NotDepositable, UnhandledXcmVersion, WeightLimitReached(Weight), Barrier, WeightNotComputable, ExceedsStackLimit,
}
pub type Result = core::result::Result<(), Error>;
loose! { pub enum Instruction<Call> {
    WithdrawAsset(MultiAssets), ReserveAssetDeposited(MultiAssets), ReceiveTeleportedAsset(MultiAssets),
    TransferAsset { assets: MultiAssets, beneficiary: MultiLocation }, TransferReserveAsset { assets: MultiAssets, dest: MultiLocation, xcm: Xcm<()> },
    Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
    ClearOrigin, ReportError([u8; 4]), DepositAsset { assets: MultiAssetFilter, beneficiary: MultiLocation }, DepositReserveAsset { assets: MultiAssetFilter, dest: MultiLocation, xcm: Xcm<()> },
    ExchangeAsset { give: MultiAssetFilter, want: MultiAssets, maximal: bool }, InitiateReserveWithdraw { assets: MultiAssetFilter, reserve: MultiLocation, xcm: Xcm<()> },
    InitiateTeleport { assets: MultiAssetFilter, dest: MultiLocation, xcm: Xcm<()> }, BuyExecution { fees: MultiAsset, weight_limit: WeightLimit }, RefundSurplus,
    ClaimAsset { assets: MultiAssets, ticket: MultiLocation }, Trap(u64), BurnAsset(MultiAssets), ExpectAsset(MultiAssets), SetFeesMode { jit_withdraw: bool }, SetTopic([u8; 32]), ClearTopic,
    UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<MultiLocation> } } }
loose! { pub struct Xcm<Call>(pub Vec<Instruction<Call>>); }
impl<Call> Default for Xcm<Call> { fn default() -> Self { Self(Vec::new()) } }
impl<Call> Xcm<Call> { pub fn new() -> Self { Self(Vec::new()) } pub fn inner(&self) -> &[Instruction<Call>] { &self.0 } pub fn first(&self) -> Option<&Instruction<Call>> { self.0.first() } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } }
pub mod prelude {
    pub use super::{AssetId::{self, *}, AssetInstance::{self, *}, Error as XcmError, Fungibility::{self, *}, Instruction::*, Junction::{self, *}, Junctions::{self, *}, MultiAsset, MultiAssetFilter::{self, *}, MultiAssets, MultiLocation, NetworkId::{self, *}, OriginKind, WeightLimit::{self, *}, WildFungibility::{self, Fungible as WildFungible, NonFungible as WildNonFungible}, WildMultiAsset::{self, *}, Instruction, Xcm};
}
