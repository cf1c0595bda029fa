//! Bounds on storage operations per message (C16). The shape (constant, logarithmic, per tick
//! passed) is the property; the factors are about twice what the largest of many thousand
//! measurements on the original code needed, so that only another shape exceeds them.
pub const PLACE: u64 = 40;
pub const CANCEL_BASE: u64 = 120;
pub const CANCEL_LOG: u64 = 25;
pub const CLAIM_BASE: u64 = 60;
pub const CLAIM_LOG: u64 = 10;
pub const SWAP_BASE: u64 = 60;
pub const SWAP_TICK: u64 = 9;
