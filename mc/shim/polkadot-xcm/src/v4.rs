//! XCM v4, as wide as the runtime's adapters and their tests look at it.
use codec::{Decode, Encode};
use scale_info::TypeInfo;
use sp_std::{prelude::*, sync::Arc};
use frame_support::weights::Weight;
pub use super::v3::{AssetInstance, Error, NetworkId, OriginKind, WeightLimit, WildFungibility};

macro_rules! plain { ($($t:tt)*) => { #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)] $($t)* } }
pub type Junction = super::v3::Junction;
plain! { #[derive(Default)] pub enum Junctions { #[default] Here, X1(Arc<[Junction; 1]>), X2(Arc<[Junction; 2]>), X3(Arc<[Junction; 3]>), X4(Arc<[Junction; 4]>) } }
impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Self::X1(Arc::new([j])) } }
impl From<[Junction; 1]> for Junctions { fn from(j: [Junction; 1]) -> Self { Self::X1(Arc::new(j)) } }
impl From<[Junction; 2]> for Junctions { fn from(j: [Junction; 2]) -> Self { Self::X2(Arc::new(j)) } }
impl From<[Junction; 3]> for Junctions { fn from(j: [Junction; 3]) -> Self { Self::X3(Arc::new(j)) } }
impl Junctions { pub fn list(&self) -> Vec<Junction> { match self { Junctions::Here => vec![], Junctions::X1(a) => a.to_vec(), Junctions::X2(a) => a.to_vec(), Junctions::X3(a) => a.to_vec(), Junctions::X4(a) => a.to_vec() } } }
plain! { #[derive(Default)] pub struct Location { pub parents: u8, pub interior: Junctions } }
impl Location {
    pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self { Self { parents, interior: interior.into() } }
    pub const fn here() -> Self { Self { parents: 0, interior: Junctions::Here } }
    pub const fn parent() -> Self { Self { parents: 1, interior: Junctions::Here } }
    pub fn parents(&self) -> u8 { self.parents }
    pub fn interior(&self) -> &Junctions { &self.interior }
}
pub struct Parent;
impl From<Parent> for Location { fn from(_: Parent) -> Self { Location::parent() } }
impl From<Junction> for Location { fn from(j: Junction) -> Self { Self { parents: 0, interior: j.into() } } }
impl From<Junctions> for Location { fn from(interior: Junctions) -> Self { Self { parents: 0, interior } } }
impl From<(u8, Junction)> for Location { fn from((parents, j): (u8, Junction)) -> Self { Self { parents, interior: j.into() } } }
plain! { pub struct AssetId(pub Location); }
impl<T: Into<Location>> From<T> for AssetId { fn from(l: T) -> Self { Self(l.into()) } }
plain! { pub enum Fungibility { Fungible(u128), NonFungible(AssetInstance) } }
impl From<u128> for Fungibility { fn from(a: u128) -> Self { Self::Fungible(a) } }
impl From<AssetInstance> for Fungibility { fn from(a: AssetInstance) -> Self { Self::NonFungible(a) } }
plain! { pub struct Asset { pub id: AssetId, pub fun: Fungibility } }
impl Asset { pub fn is_fungible(&self, id: Option<AssetId>) -> bool { matches!(self.fun, Fungibility::Fungible(_)) && id.map_or(true, |i| i == self.id) } }
impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset { fn from((a, b): (A, B)) -> Self { Self { id: a.into(), fun: b.into() } } }
plain! { #[derive(Default)] pub struct Assets(Vec<Asset>); }
impl Assets { pub fn new() -> Self { Self(Vec::new()) } pub fn inner(&self) -> &Vec<Asset> { &self.0 } pub fn into_inner(self) -> Vec<Asset> { self.0 } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn get(&self, i: usize) -> Option<&Asset> { self.0.get(i) } }
impl From<Vec<Asset>> for Assets {
    fn from(mut v: Vec<Asset>) -> Self {
        v.sort();
        let mut r: Vec<Asset> = Vec::new();
        for a in v { if let Some(l) = r.last_mut() { match (l.id == a.id, &mut l.fun, &a.fun) { (true, Fungibility::Fungible(x), Fungibility::Fungible(y)) => { *x = x.saturating_add(*y); continue }, _ => if *l == a { continue } } } r.push(a); }
        Self(r)
    }
}
impl<T: Into<Asset>> From<T> for Assets { fn from(a: T) -> Self { Self(vec![a.into()]) } }
plain! { pub enum WildAsset { All, AllOf { id: AssetId, fun: WildFungibility }, AllCounted(u32), AllOfCounted { id: AssetId, fun: WildFungibility, count: u32 } } }
plain! { pub enum AssetFilter { Definite(Assets), Wild(WildAsset) } }
impl From<WildAsset> for AssetFilter { fn from(w: WildAsset) -> Self { Self::Wild(w) } }
impl From<Asset> for AssetFilter { fn from(a: Asset) -> Self { Self::Definite(a.into()) } }
impl From<Assets> for AssetFilter { fn from(a: Assets) -> Self { Self::Definite(a) } }
pub type XcmHash = [u8; 32];
pub type QueryId = u64;
plain! { pub struct XcmContext { pub origin: Option<Location>, pub message_id: XcmHash, pub topic: Option<[u8; 32]> } }
plain! { pub enum Response { Null, Assets(Assets), Version(u32) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct QueryResponseInfo { pub destination: Location, pub query_id: QueryId, pub max_weight: Weight }
plain! { pub enum MaybeErrorCode { Success, Error(Vec<u8>), TruncatedError(Vec<u8>) } }
pub use super::v3::DoubleEncoded;
/// Every instruction of v4.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Instruction<Call> {
    WithdrawAsset(Assets), ReserveAssetDeposited(Assets), ReceiveTeleportedAsset(Assets), QueryResponse { query_id: QueryId, response: Response, max_weight: Weight, querier: Option<Location> },
    TransferAsset { assets: Assets, beneficiary: Location }, TransferReserveAsset { assets: Assets, dest: Location, xcm: Xcm<()> },
    Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
    HrmpNewChannelOpenRequest { sender: u32, max_message_size: u32, max_capacity: u32 }, HrmpChannelAccepted { recipient: u32 }, HrmpChannelClosing { initiator: u32, sender: u32, recipient: u32 },
    ClearOrigin, DescendOrigin(Junctions), ReportError(QueryResponseInfo), DepositAsset { assets: AssetFilter, beneficiary: Location }, DepositReserveAsset { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
    ExchangeAsset { give: AssetFilter, want: Assets, maximal: bool }, InitiateReserveWithdraw { assets: AssetFilter, reserve: Location, xcm: Xcm<()> }, InitiateTeleport { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
    ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter }, BuyExecution { fees: Asset, weight_limit: WeightLimit }, RefundSurplus, SetErrorHandler(Xcm<Call>), SetAppendix(Xcm<Call>), ClearError,
    ClaimAsset { assets: Assets, ticket: Location }, Trap(u64), SubscribeVersion { query_id: QueryId, max_response_weight: Weight }, UnsubscribeVersion, BurnAsset(Assets), ExpectAsset(Assets), ExpectOrigin(Option<Location>),
    ExpectError(Option<(u32, Error)>), ExpectTransactStatus(MaybeErrorCode), QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo }, ExpectPallet { index: u32, name: Vec<u8>, module_name: Vec<u8>, crate_major: u32, min_crate_minor: u32 },
    ReportTransactStatus(QueryResponseInfo), ClearTransactStatus, UniversalOrigin(Junction), ExportMessage { network: NetworkId, destination: Junctions, xcm: Xcm<()> }, LockAsset { asset: Asset, unlocker: Location },
    UnlockAsset { asset: Asset, target: Location }, NoteUnlockable { asset: Asset, owner: Location }, RequestUnlock { asset: Asset, locker: Location }, SetFeesMode { jit_withdraw: bool }, SetTopic([u8; 32]), ClearTopic,
    AliasOrigin(Location), UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
impl<Call> Default for Xcm<Call> { fn default() -> Self { Self(Vec::new()) } }
impl<Call> Xcm<Call> { pub fn new() -> Self { Self(Vec::new()) } pub fn inner(&self) -> &[Instruction<Call>] { &self.0 } pub fn inner_mut(&mut self) -> &mut Vec<Instruction<Call>> { &mut self.0 } pub fn first(&self) -> Option<&Instruction<Call>> { self.0.first() } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } }
pub mod prelude {
    pub use super::{Asset, AssetFilter::{self, *}, AssetId, AssetInstance::{self, *}, Assets, Error as XcmError, Fungibility::{self, *}, Instruction::{self, *}, Junctions::{self, Here, X1, X2, X3, X4}, Location, NetworkId::{self, *}, OriginKind, Parent, QueryId, Response, WeightLimit::{self, *}, WildAsset::{self, *}, WildFungibility::{self, Fungible as WildFungible, NonFungible as WildNonFungible}, Xcm, XcmContext, XcmHash};
    pub use super::super::v3::Junction::{self, *};
}
