//! Preimages.
use codec::{Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::{ConstU32, H256};
use sp_runtime::{traits::Hash, BoundedVec, DispatchError};
use std::marker::PhantomData;
pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;
pub type FetchResult = Result<Vec<u8>, DispatchError>;
const MAX_LEGACY_LEN: u32 = 1_000_000;
#[derive(Encode, Decode, MaxEncodedLen)]
#[codec(encode_bound())]
#[codec(decode_bound())]
#[codec(mel_bound())]
pub enum Bounded<T, H: Hash> {
    Legacy { hash: H::Output, dummy: PhantomData<T> },
    Inline(BoundedInline),
    Lookup { hash: H::Output, len: u32 },
}
impl<T: 'static, H: Hash + 'static> TypeInfo for Bounded<T, H> {
    type Identity = Self;
    fn type_info() -> scale_info::Type { scale_info::Type::builder().path(scale_info::Path::new("Bounded", "frame_support")).variant(scale_info::build::Variants::new()) }
}
impl<T, H: Hash> Clone for Bounded<T, H> { fn clone(&self) -> Self { match self { Self::Legacy { hash, .. } => Self::Legacy { hash: *hash, dummy: PhantomData }, Self::Inline(x) => Self::Inline(x.clone()), Self::Lookup { hash, len } => Self::Lookup { hash: *hash, len: *len } } } }
impl<T, H: Hash> PartialEq for Bounded<T, H> { fn eq(&self, o: &Self) -> bool { self.encode() == o.encode() } }
impl<T, H: Hash> Eq for Bounded<T, H> {}
impl<T, H: Hash> std::fmt::Debug for Bounded<T, H> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Bounded({:?})", self.hash()) } }
impl<T, H: Hash> Bounded<T, H> {
    pub fn hash(&self) -> H::Output { match self { Self::Legacy { hash, .. } | Self::Lookup { hash, .. } => *hash, Self::Inline(x) => <H as Hash>::hash(x.as_ref()) } }
    pub fn lookup_hash(&self) -> Option<H::Output> { match self { Self::Legacy { hash, .. } | Self::Lookup { hash, .. } => Some(*hash), _ => None } }
    pub fn len(&self) -> Option<u32> { match self { Self::Inline(i) => Some(i.len() as u32), Self::Lookup { len, .. } => Some(*len), _ => None } }
    pub fn lookup_len(&self) -> Option<u32> { match self { Self::Lookup { len, .. } => Some(*len), Self::Legacy { .. } => Some(MAX_LEGACY_LEN), _ => None } }
    pub fn lookup_needed(&self) -> bool { !matches!(self, Self::Inline(_)) }
    pub fn unrequested(hash: H::Output, len: u32) -> Self { Self::Lookup { hash, len } }
    pub fn from_legacy_hash(hash: impl Into<H::Output>) -> Self { Self::Legacy { hash: hash.into(), dummy: PhantomData } }
    pub fn transmute<S>(self) -> Bounded<S, H> { match self { Self::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: PhantomData }, Self::Inline(x) => Bounded::Inline(x), Self::Lookup { hash, len } => Bounded::Lookup { hash, len } } }
}
pub trait DefensiveTruncateInto<T> {}
pub trait QueryPreimage {
    type H: Hash;
    fn len(hash: &<Self::H as Hash>::Output) -> Option<u32>;
    fn fetch(hash: &<Self::H as Hash>::Output, len: Option<u32>) -> FetchResult;
    fn is_requested(hash: &<Self::H as Hash>::Output) -> bool;
    fn request(hash: &<Self::H as Hash>::Output);
    fn unrequest(hash: &<Self::H as Hash>::Output);
    fn hold<T>(b: &Bounded<T, Self::H>) { if let Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } = b { Self::request(hash) } }
    fn drop<T>(b: &Bounded<T, Self::H>) { if let Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } = b { Self::unrequest(hash) } }
    fn have<T>(b: &Bounded<T, Self::H>) -> bool { match b { Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::len(hash).is_some(), Bounded::Inline(_) => true } }
    fn pick<T>(hash: <Self::H as Hash>::Output, len: u32) -> Bounded<T, Self::H> { Self::request(&hash); Bounded::Lookup { hash, len } }
    fn peek<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
        match b {
            Bounded::Inline(d) => T::decode(&mut &d[..]).ok().map(|x| (x, None)),
            Bounded::Lookup { hash, len } => { let d = Self::fetch(hash, Some(*len))?; T::decode(&mut &d[..]).ok().map(|x| (x, Some(d.len() as u32))) }
            Bounded::Legacy { hash, .. } => { let d = Self::fetch(hash, None)?; T::decode(&mut &d[..]).ok().map(|x| (x, Some(d.len() as u32))) }
        }.ok_or(DispatchError::Corruption)
    }
    fn realize<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> { let r = Self::peek(b)?; Self::drop(b); Ok(r) }
}
pub trait StorePreimage: QueryPreimage {
    const MAX_LENGTH: usize;
    fn note(bytes: std::borrow::Cow<[u8]>) -> Result<<Self::H as Hash>::Output, DispatchError>;
    fn unnote(hash: &<Self::H as Hash>::Output) { Self::unrequest(hash) }
    fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError> {
        let d = t.encode();
        let len = d.len() as u32;
        Ok(match BoundedInline::try_from(d) { Ok(b) => Bounded::Inline(b), Err(d) => Bounded::Lookup { hash: Self::note(d.into())?, len } })
    }
}
pub struct NoopHash;
impl QueryPreimage for () {
    type H = sp_runtime::traits::BlakeTwo256;
    fn len(_: &H256) -> Option<u32> { None }
    fn fetch(_: &H256, _: Option<u32>) -> FetchResult { Err(DispatchError::Unavailable) }
    fn is_requested(_: &H256) -> bool { false }
    fn request(_: &H256) {}
    fn unrequest(_: &H256) {}
}
impl StorePreimage for () {
    const MAX_LENGTH: usize = 0;
    fn note(_: std::borrow::Cow<[u8]>) -> Result<H256, DispatchError> { Err(DispatchError::Exhausted) }
}
