//! Bounded explicit-state exploration (filled in by the pallet checks).
