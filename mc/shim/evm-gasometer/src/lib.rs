//! Names only.
