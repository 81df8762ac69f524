//! Only the trait pallet-dca takes from the runtime's adapters.
pub trait RelayChainBlockHashProvider { fn parent_hash() -> Option<sp_core::H256>; }
