pub use polkadot_xcm::latest::prelude::*;
pub mod relay_chain { pub type Hash = sp_core::H256; pub type BlockNumber = u32; }
#[derive(Clone, Debug, Default, PartialEq, Eq, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub struct PersistedValidationData { pub parent_head: polkadot_parachain::primitives::HeadData, pub relay_parent_number: u32, pub relay_parent_storage_root: sp_core::H256, pub max_pov_size: u32 }
