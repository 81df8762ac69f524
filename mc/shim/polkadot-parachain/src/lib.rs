pub mod primitives {
    use codec::{Decode, Encode, MaxEncodedLen};
    use scale_info::TypeInfo;
    pub type RelayChainBlockNumber = u32;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
    pub struct Id(u32);
    impl From<u32> for Id { fn from(x: u32) -> Self { Id(x) } }
    impl From<Id> for u32 { fn from(x: Id) -> u32 { x.0 } }
    #[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo)]
    pub struct HeadData(pub Vec<u8>);
    impl HeadData { pub fn hash(&self) -> sp_core::H256 { use sp_runtime::traits::Hash; sp_runtime::traits::BlakeTwo256::hash(&self.0) } }
    impl From<Vec<u8>> for HeadData { fn from(v: Vec<u8>) -> Self { Self(v) } }
}
