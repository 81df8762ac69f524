//! Value lattices: small exhaustive boxes plus boundary magnitudes.
/// 0..=n
pub fn upto(n: u128) -> Vec<u128> { (0..=n).collect() }
/// powers of `base` with neighbours, within lo..=hi
pub fn powers(base: u128, lo: u128, hi: u128) -> Vec<u128> {
    let mut v = vec![];
    let mut x: u128 = 1;
    loop {
        for y in [x.saturating_sub(1), x, x.saturating_add(1)] { if y >= lo && y <= hi { v.push(y) } }
        match x.checked_mul(base) { Some(y) if y <= hi => x = y, _ => break }
    }
    norm(v)
}
pub fn norm(mut v: Vec<u128>) -> Vec<u128> { v.sort(); v.dedup(); v }
/// balances as they occur on chain: every decade from 1 to `hi` with an odd mantissa as well
pub fn decades(lo: u32, hi: u32) -> Vec<u128> {
    let mut v = vec![];
    for e in lo..=hi { let p = 10u128.pow(e); v.push(p); v.push(p.saturating_mul(3) + 1); v.push(p.saturating_mul(7).saturating_add(p / 3)); }
    norm(v)
}
pub const TOP: [u128; 8] = [u64::MAX as u128, (u64::MAX as u128) + 1, (1 << 96) + 7, (1 << 127) - 1, 1 << 127, (1 << 127) + 1, u128::MAX - 1, u128::MAX];
pub fn join(a: &[&[u128]]) -> Vec<u128> { norm(a.iter().flat_map(|x| x.iter().copied()).collect()) }
