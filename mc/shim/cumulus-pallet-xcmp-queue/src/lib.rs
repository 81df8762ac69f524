//! The deferral hook of the (forked) message queue.
use polkadot_parachain::primitives::{Id, RelayChainBlockNumber};
pub trait XcmDeferFilter<Call> {
    fn deferred_by(para: Id, sent_at: RelayChainBlockNumber, xcm: &polkadot_xcm::VersionedXcm<Call>) -> (frame_support::weights::Weight, Option<RelayChainBlockNumber>);
}
