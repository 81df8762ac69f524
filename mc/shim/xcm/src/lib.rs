//! The name the workspace gives the same crate.
pub use polkadot_xcm::*;
