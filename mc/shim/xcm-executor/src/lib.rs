//! The holding register and the traits the executor asks of a runtime.
use frame_support::weights::Weight;
use polkadot_xcm::v4::{prelude::*, Error};
use std::collections::{BTreeMap, BTreeSet};
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct AssetsInHolding { pub fungible: BTreeMap<AssetId, u128>, pub non_fungible: BTreeSet<(AssetId, AssetInstance)> }
impl AssetsInHolding {
    pub fn new() -> Self { Self::default() }
    pub fn len(&self) -> usize { self.fungible.len() + self.non_fungible.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn fungible_assets_iter(&self) -> impl Iterator<Item = Asset> + '_ { self.fungible.iter().map(|(id, n)| Asset { id: id.clone(), fun: Fungible(*n) }) }
    pub fn subsume(&mut self, a: Asset) { match a.fun { Fungible(n) => { let e = self.fungible.entry(a.id).or_insert(0); *e = e.saturating_add(n) } NonFungible(i) => { self.non_fungible.insert((a.id, i)); } } }
    pub fn checked_sub(mut self, a: Asset) -> Result<Self, Self> {
        match a.fun {
            Fungible(n) => {
                let Some(b) = self.fungible.get_mut(&a.id) else { return Err(self) };
                if *b < n { return Err(self) }
                *b -= n;
                if *b == 0 { self.fungible.remove(&a.id); }
                Ok(self)
            }
            NonFungible(i) => if self.non_fungible.remove(&(a.id, i)) { Ok(self) } else { Err(self) },
        }
    }
    pub fn contains_asset(&self, a: &Asset) -> bool { match a.fun { Fungible(n) => self.fungible.get(&a.id).map_or(false, |b| *b >= n), NonFungible(i) => self.non_fungible.contains(&(a.id.clone(), i)) } }
}
impl From<Asset> for AssetsInHolding { fn from(a: Asset) -> Self { let mut r = Self::new(); r.subsume(a); r } }
impl From<Vec<Asset>> for AssetsInHolding { fn from(v: Vec<Asset>) -> Self { let mut r = Self::new(); for a in v { r.subsume(a) } r } }
impl From<Assets> for AssetsInHolding { fn from(v: Assets) -> Self { v.into_inner().into() } }
impl From<AssetsInHolding> for Assets { fn from(v: AssetsInHolding) -> Self { v.fungible.into_iter().map(|(id, n)| Asset { id, fun: Fungible(n) }).chain(v.non_fungible.into_iter().map(|(id, i)| Asset { id, fun: NonFungible(i) })).collect::<Vec<_>>().into() } }
pub mod traits {
    use super::*;
    pub trait WeightTrader: Sized {
        fn new() -> Self;
        fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, context: &XcmContext) -> Result<AssetsInHolding, Error>;
        fn refund_weight(&mut self, _weight: Weight, _context: &XcmContext) -> Option<Asset> { None }
    }
    pub trait MatchesFungible<Balance> { fn matches_fungible(a: &Asset) -> Option<Balance>; }
    pub trait ConvertLocation<AccountId> { fn convert_location(l: &Location) -> Option<AccountId>; }
    pub trait AssetExchange { fn exchange_asset(origin: Option<&Location>, give: AssetsInHolding, want: &Assets, maximal: bool) -> Result<AssetsInHolding, AssetsInHolding>; }
    pub trait TransactAsset {
        fn deposit_asset(_what: &Asset, _who: &Location, _context: Option<&XcmContext>) -> Result<(), Error> { Err(Error::Unimplemented) }
        fn withdraw_asset(_what: &Asset, _who: &Location, _context: Option<&XcmContext>) -> Result<AssetsInHolding, Error> { Err(Error::Unimplemented) }
        fn internal_transfer_asset(_asset: &Asset, _from: &Location, _to: &Location, _context: &XcmContext) -> Result<AssetsInHolding, Error> { Err(Error::Unimplemented) }
        fn transfer_asset(asset: &Asset, from: &Location, to: &Location, context: &XcmContext) -> Result<AssetsInHolding, Error> {
            match Self::internal_transfer_asset(asset, from, to, context) {
                Err(Error::AssetNotFound | Error::Unimplemented) => { let a = Self::withdraw_asset(asset, from, Some(context))?; Self::deposit_asset(asset, to, Some(context))?; Ok(a) }
                r => r,
            }
        }
    }
}
