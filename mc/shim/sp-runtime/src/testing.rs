use codec::{Decode, Encode};
use scale_info::TypeInfo;
pub use sp_core::H256;
pub type Header = crate::generic::Header<u64, crate::traits::BlakeTwo256>;
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)]
pub struct TestXt<Call, Extra> {
    pub signature: Option<(u64, Extra)>,
    pub call: Call,
}
impl<Call, Extra> TestXt<Call, Extra> {
    pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self { Self { call, signature } }
}
impl<Call: Clone + std::fmt::Debug + Eq + Send + Sync + 'static, Extra: 'static> crate::traits::Extrinsic for TestXt<Call, Extra> {
    type Call = Call;
    type SignaturePayload = (u64, Extra);
    fn new(call: Call, signature: Option<(u64, Extra)>) -> Option<Self> { Some(TestXt { signature, call }) }
}
#[derive(Default, PartialEq, Eq, Clone, Encode, Decode, Debug, Hash, TypeInfo, codec::MaxEncodedLen, PartialOrd, Ord)]
pub struct UintAuthorityId(pub u64);
