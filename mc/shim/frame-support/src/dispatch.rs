use crate::weights::Weight;
use codec::{Codec, Decode, Encode, EncodeLike};
use scale_info::TypeInfo;
pub use sp_runtime::{traits::Dispatchable, DispatchError, DispatchResult, DispatchErrorWithPostInfo as SpErr};
pub use crate::traits::{UnfilteredDispatchable, GetCallName, CallMetadata, GetCallMetadata};
pub use codec;
use std::fmt;
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub trait Callable<T> { type RuntimeCall: UnfilteredDispatchable + Codec + Clone + PartialEq + Eq; }

pub trait Parameter: Codec + EncodeLike + Clone + Eq + fmt::Debug + TypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + fmt::Debug + TypeInfo> Parameter for T {}

#[derive(Eq, PartialEq, Clone, Debug, Encode, Decode, TypeInfo, codec::MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
    fn from(s: Option<A>) -> Self { match s { Some(w) => RawOrigin::Signed(w), None => RawOrigin::None } }
}
impl<A> RawOrigin<A> {
    pub fn as_signed(&self) -> Option<&A> { match self { RawOrigin::Signed(a) => Some(a), _ => None } }
}

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Default)]
pub enum Pays { #[default] Yes, No }
impl From<Pays> for PostDispatchInfo { fn from(p: Pays) -> Self { Self { actual_weight: None, pays_fee: p } } }
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Default)]
pub enum DispatchClass { #[default] Normal, Operational, Mandatory }
impl DispatchClass {
    pub fn all() -> &'static [DispatchClass] { &[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory] }
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
impl PostDispatchInfo {
    pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight { info.weight - self.calc_actual_weight(info) }
    pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight { match self.actual_weight { Some(w) => w.min(info.weight), None => info.weight } }
    pub fn pays_fee(&self, info: &DispatchInfo) -> Pays { if info.pays_fee == Pays::No || self.pays_fee == Pays::No { Pays::No } else { Pays::Yes } }
}
impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Default::default() } }
impl From<Option<Weight>> for PostDispatchInfo { fn from(w: Option<Weight>) -> Self { Self { actual_weight: w, pays_fee: Default::default() } } }
impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from((w, p): (Option<Weight>, Pays)) -> Self { Self { actual_weight: w, pays_fee: p } } }
impl sp_runtime::traits::Printable for PostDispatchInfo { fn print(&self) {} }
pub trait WithPostDispatchInfo { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo; }
impl<T: Into<DispatchErrorWithPostInfo>> WithPostDispatchInfo for T {
    fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo { let e: DispatchErrorWithPostInfo = self.into(); DispatchErrorWithPostInfo { post_info: Some(w).into(), error: e.error } }
}
pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
pub trait IntoDispatchInfo { fn into_dispatch_info(self) -> DispatchInfo; }
impl IntoDispatchInfo for Weight { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self, ..Default::default() } } }
impl IntoDispatchInfo for u64 { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() } } }
impl IntoDispatchInfo for (u64, DispatchClass) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self.0, 0), class: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (Weight, DispatchClass) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (Weight, Pays) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (u64, Pays) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self.0, 0), pays_fee: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (Weight, DispatchClass, Pays) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 } } }
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
    match r { Ok(p) => p, Err(e) => &e.post_info }.calc_actual_weight(info)
}
