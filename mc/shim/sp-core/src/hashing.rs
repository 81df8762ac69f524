//! blake2b, xxhash64 ("twox"), keccak-256.
use sha3::Digest;

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f,
    0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 12] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
];

pub fn blake2b(data: &[u8], out_len: usize) -> [u8; 64] {
    let mut h = IV;
    h[0] ^= 0x01010000 ^ out_len as u64;
    let mut t: u128 = 0;
    let mut off = 0;
    loop {
        let n = (data.len() - off).min(128);
        let last = off + n == data.len();
        let mut block = [0u8; 128];
        block[..n].copy_from_slice(&data[off..off + n]);
        t += n as u128;
        off += n;
        let mut m = [0u64; 16];
        for (i, w) in m.iter_mut().enumerate() {
            *w = u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap());
        }
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if last {
            v[14] = !v[14];
        }
        macro_rules! g {
            ($a:expr,$b:expr,$c:expr,$d:expr,$x:expr,$y:expr) => {
                v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($x);
                v[$d] = (v[$d] ^ v[$a]).rotate_right(32);
                v[$c] = v[$c].wrapping_add(v[$d]);
                v[$b] = (v[$b] ^ v[$c]).rotate_right(24);
                v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($y);
                v[$d] = (v[$d] ^ v[$a]).rotate_right(16);
                v[$c] = v[$c].wrapping_add(v[$d]);
                v[$b] = (v[$b] ^ v[$c]).rotate_right(63);
            };
        }
        for s in SIGMA.iter() {
            g!(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g!(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g!(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g!(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g!(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g!(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g!(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g!(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
        if last {
            break;
        }
    }
    let mut out = [0u8; 64];
    for (i, w) in h.iter().enumerate() {
        out[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
    }
    out
}
pub fn blake2_128(data: &[u8]) -> [u8; 16] {
    // storage keys are hashed over and over: remember the short ones
    thread_local! { static MEMO: std::cell::RefCell<std::collections::HashMap<Vec<u8>, [u8; 16]>> = Default::default(); }
    if data.len() > 24 { return blake2b(data, 16)[..16].try_into().unwrap(); }
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(h) = m.get(data) { return *h; }
        if m.len() > 50_000 { m.clear() }
        let h: [u8; 16] = blake2b(data, 16)[..16].try_into().unwrap();
        m.insert(data.to_vec(), h);
        h
    })
}
pub fn blake2_256(data: &[u8]) -> [u8; 32] { blake2b(data, 32)[..32].try_into().unwrap() }
pub fn blake2_512(data: &[u8]) -> [u8; 64] { blake2b(data, 64) }
pub fn keccak_256(data: &[u8]) -> [u8; 32] { sha3::Keccak256::digest(data).into() }

pub fn xxh64(data: &[u8], seed: u64) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    fn round(acc: u64, input: u64) -> u64 { acc.wrapping_add(input.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1) }
    fn merge(acc: u64, v: u64) -> u64 { (acc ^ round(0, v)).wrapping_mul(P1).wrapping_add(P4) }
    let r64 = |p: usize| u64::from_le_bytes(data[p..p + 8].try_into().unwrap());
    let r32 = |p: usize| u32::from_le_bytes(data[p..p + 4].try_into().unwrap()) as u64;
    let len = data.len();
    let mut p = 0;
    let mut h = if len >= 32 {
        let (mut a, mut b, mut c, mut d) =
            (seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1));
        while p + 32 <= len {
            a = round(a, r64(p));
            b = round(b, r64(p + 8));
            c = round(c, r64(p + 16));
            d = round(d, r64(p + 24));
            p += 32;
        }
        let mut h = a.rotate_left(1).wrapping_add(b.rotate_left(7)).wrapping_add(c.rotate_left(12)).wrapping_add(d.rotate_left(18));
        h = merge(h, a);
        h = merge(h, b);
        h = merge(h, c);
        merge(h, d)
    } else {
        seed.wrapping_add(P5)
    };
    h = h.wrapping_add(len as u64);
    while p + 8 <= len {
        h ^= round(0, r64(p));
        h = h.rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        p += 8;
    }
    if p + 4 <= len {
        h ^= r32(p).wrapping_mul(P1);
        h = h.rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        p += 4;
    }
    while p < len {
        h ^= (data[p] as u64).wrapping_mul(P5);
        h = h.rotate_left(11).wrapping_mul(P1);
        p += 1;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ (h >> 32)
}
pub fn twox_64(data: &[u8]) -> [u8; 8] { xxh64(data, 0).to_le_bytes() }
pub fn twox_128(data: &[u8]) -> [u8; 16] {
    let mut r = [0u8; 16];
    r[..8].copy_from_slice(&xxh64(data, 0).to_le_bytes());
    r[8..].copy_from_slice(&xxh64(data, 1).to_le_bytes());
    r
}
pub fn twox_256(data: &[u8]) -> [u8; 32] {
    let mut r = [0u8; 32];
    for i in 0..4 {
        r[i * 8..i * 8 + 8].copy_from_slice(&xxh64(data, i as u64).to_le_bytes());
    }
    r
}
#[test]
fn known_answers() {
    let hx = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    assert_eq!(hx(&twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
    assert_eq!(hx(&twox_128(b"Account")), "b99d880ec681799c0cf30e8886371da9");
    assert_eq!(hx(&blake2_256(b"")), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
    assert_eq!(hx(&blake2_512(b"abc"))[..32], *"ba80a53f981c4d0d6a2797b69f12f6e9");
    assert_eq!(hx(&keccak_256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
}
