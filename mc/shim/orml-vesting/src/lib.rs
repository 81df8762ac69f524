pub const VESTING_LOCK_ID: [u8; 8] = *b"ormlvest";
