use crate::traits;
use codec::{Decode, Encode};
use scale_info::TypeInfo;
#[derive(Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(Hash))]
pub struct Header<Number, Hash> {
    pub parent_hash: sp_core::H256,
    pub number: Number,
    #[codec(skip)]
    pub _h: std::marker::PhantomData<fn() -> Hash>,
}
impl<N: Clone, H> Clone for Header<N, H> { fn clone(&self) -> Self { Self { parent_hash: self.parent_hash, number: self.number.clone(), _h: Default::default() } } }
impl<N: PartialEq, H> PartialEq for Header<N, H> { fn eq(&self, o: &Self) -> bool { self.parent_hash == o.parent_hash && self.number == o.number } }
impl<N: Eq, H> Eq for Header<N, H> {}
impl<N: std::fmt::Debug, H> std::fmt::Debug for Header<N, H> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Header({:?})", self.number) } }
impl<N: crate::traits::BlockNumberBounds, H: traits::Hash<Output = sp_core::H256>> traits::Header for Header<N, H> {
    type Number = N;
    type Hash = sp_core::H256;
    type Hashing = H;
    fn new(number: N) -> Self { Self { parent_hash: Default::default(), number, _h: Default::default() } }
    fn number(&self) -> &N { &self.number }
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct Block<Header, Extrinsic> {
    pub header: Header,
    pub extrinsics: Vec<Extrinsic>,
}
impl<H: traits::Header, E> traits::HeaderProvider for Block<H, E> { type HeaderT = H; }
impl<H: traits::Header + Send + Sync + 'static, E: Clone + std::fmt::Debug + Eq + Send + Sync + 'static> traits::Block for Block<H, E> {
    type Extrinsic = E;
    type Header = H;
    type Hash = H::Hash;
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
    pub signature: Option<(Address, Signature, Extra)>,
    pub function: Call,
}
pub enum Era { Immortal }
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct CheckedExtrinsic<AccountId, Call, Extra> {
    pub signed: Option<(AccountId, Extra)>,
    pub function: Call,
}
pub use crate::{Digest, DigestItem};
