//! Minimal secp256k1 (affine, big-integer) for public-key recovery; harness quality, not constant time.
use super::EcdsaVerifyError;
use primitive_types::{U256, U512};

fn p() -> U256 { U256([0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX]) }
fn n() -> U256 { U256([0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, u64::MAX]) }
fn g() -> (U256, U256) {
    (
        U256::from_big_endian(&hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")),
        U256::from_big_endian(&hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")),
    )
}
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn mulm(a: U256, b: U256, m: U256) -> U256 { (a.full_mul(b) % U512::from(m)).try_into().unwrap() }
fn addm(a: U256, b: U256, m: U256) -> U256 { ((U512::from(a) + U512::from(b)) % U512::from(m)).try_into().unwrap() }
fn powm(mut a: U256, mut e: U256, m: U256) -> U256 {
    let mut r = U256::one();
    while !e.is_zero() {
        if e.bit(0) { r = mulm(r, a, m) }
        a = mulm(a, a, m);
        e = e >> 1;
    }
    r
}
fn inv(a: U256, m: U256) -> U256 { powm(a, m - 2, m) }
type Pt = Option<(U256, U256)>;
/// multiplication modulo p = 2^256 - c: what is above 2^256 counts c times
fn fm(a: U256, b: U256) -> U256 {
    let c = U256::from((1u64 << 32) + 977);
    let x = a.full_mul(b).0;
    let (lo, hi) = (U256([x[0], x[1], x[2], x[3]]), U256([x[4], x[5], x[6], x[7]]));
    let y = hi.full_mul(c).0;
    let (z, over) = lo.overflowing_add(U256([y[0], y[1], y[2], y[3]]));
    let (mut z, over2) = z.overflowing_add(c * U256::from(y[4] + over as u64));
    if over2 { z = z + c }
    if z >= p() { z - p() } else { z }
}
fn fadd(a: U256, b: U256) -> U256 { let (z, over) = a.overflowing_add(b); if over || z >= p() { z.overflowing_sub(p()).0 } else { z } }
fn fsub(a: U256, b: U256) -> U256 { if a >= b { a - b } else { p() - (b - a) } }
/// Jacobian coordinates: (x/z², y/z³); z = 0 is infinity
type J = (U256, U256, U256);
fn jac(q: Pt) -> J { q.map_or((U256::one(), U256::one(), U256::zero()), |(x, y)| (x, y, U256::one())) }
fn aff(q: J) -> Pt { if q.2.is_zero() { return None } let i = inv(q.2, p()); let i2 = fm(i, i); Some((fm(q.0, i2), fm(q.1, fm(i2, i)))) }
fn jdbl(q: J) -> J {
    if q.2.is_zero() || q.1.is_zero() { return jac(None) }
    let two = |x| fadd(x, x);
    let y2 = fm(q.1, q.1);
    let s = two(two(fm(q.0, y2)));
    let x2 = fm(q.0, q.0); let m = fadd(two(x2), x2);
    let x = fsub(fm(m, m), two(s));
    (x, fsub(fm(m, fsub(s, x)), two(two(two(fm(y2, y2))))), two(fm(q.1, q.2)))
}
fn jadd(a: J, b: J) -> J {
    if a.2.is_zero() { return b } if b.2.is_zero() { return a }
    let (za, zb) = (fm(a.2, a.2), fm(b.2, b.2));
    let (u1, u2, s1, s2) = (fm(a.0, zb), fm(b.0, za), fm(a.1, fm(zb, b.2)), fm(b.1, fm(za, a.2)));
    if u1 == u2 { return if s1 == s2 { jdbl(a) } else { jac(None) } }
    let (h, r) = (fsub(u2, u1), fsub(s2, s1));
    let h2 = fm(h, h); let h3 = fm(h2, h); let v = fm(u1, h2);
    let x = fsub(fsub(fm(r, r), h3), fadd(v, v));
    (x, fsub(fm(r, fsub(v, x)), fm(s1, h3)), fm(h, fm(a.2, b.2)))
}
fn add(a: Pt, b: Pt) -> Pt { aff(jadd(jac(a), jac(b))) }
fn mul(k: U256, q: Pt) -> Pt {
    let (mut r, mut q) = (jac(None), jac(q));
    for i in 0..k.bits() { if k.bit(i) { r = jadd(r, q) } q = jdbl(q) }
    aff(r)
}
fn ser(q: (U256, U256)) -> [u8; 64] {
    let mut o = [0u8; 64];
    q.0.to_big_endian(&mut o[..32]);
    q.1.to_big_endian(&mut o[32..]);
    o
}
thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<(Vec<u8>, [u8; 32]), Result<[u8; 64], EcdsaVerifyError>>> = Default::default(); }
/// what is recovered, remembered: it depends on nothing else
pub fn recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
    let key = (sig.to_vec(), *msg);
    if let Some(r) = SEEN.with(|s| s.borrow().get(&key).copied()) { return r }
    let r = work_out(sig, msg);
    SEEN.with(|s| s.borrow_mut().insert(key, r));
    r
}
fn work_out(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
    let r = U256::from_big_endian(&sig[..32]);
    let s = U256::from_big_endian(&sig[32..64]);
    let v = if sig[64] >= 27 { sig[64] - 27 } else { sig[64] };
    if v > 3 { return Err(EcdsaVerifyError::BadV); }
    if r.is_zero() || s.is_zero() || r >= n() || s >= n() { return Err(EcdsaVerifyError::BadRS); }
    let m = p();
    let mut x = r;
    if v & 2 != 0 {
        let (y, o) = r.overflowing_add(n());
        if o || y >= m { return Err(EcdsaVerifyError::BadSignature); }
        x = y;
    }
    let y2 = addm(mulm(mulm(x, x, m), x, m), U256::from(7), m);
    let mut y = powm(y2, (m + 1) >> 2, m);
    if mulm(y, y, m) != y2 { return Err(EcdsaVerifyError::BadSignature); }
    if y.bit(0) != (v & 1 == 1) { y = m - y }
    let z = U256::from_big_endian(msg) % n();
    let ri = inv(r, n());
    let u1 = mulm(n() - z, ri, n());
    let u2 = mulm(s, ri, n());
    add(mul(u1 % n(), Some(g())), mul(u2, Some((x, y)))).map(ser).ok_or(EcdsaVerifyError::BadSignature)
}
pub fn public(sk: u64) -> [u8; 64] { ser(mul(U256::from(sk), Some(g())).unwrap()) }
pub fn sign(sk: u64, msg: &[u8; 32]) -> [u8; 65] {
    let z = U256::from_big_endian(msg) % n();
    let mut k = U256::from_big_endian(&sp_core::hashing::blake2_256(&[&msg[..], &sk.to_le_bytes()[..]].concat())) % n();
    loop {
        let (x, y) = mul(k, Some(g())).unwrap();
        let r = x % n();
        let s = mulm(inv(k, n()), addm(z, mulm(r, U256::from(sk), n()), n()), n());
        if r.is_zero() || s.is_zero() || x >= n() {
            k = k + 1;
            continue;
        }
        let mut v = y.bit(0) as u8;
        let mut s = s;
        if s > n() >> 1 { s = n() - s; v ^= 1 }
        let mut o = [0u8; 65];
        r.to_big_endian(&mut o[..32]);
        s.to_big_endian(&mut o[32..64]);
        o[64] = v;
        return o;
    }
}
pub fn flip_s(sig: &[u8; 65]) -> [u8; 65] {
    let mut o = *sig;
    let s = U256::from_big_endian(&sig[32..64]);
    (n() - s).to_big_endian(&mut o[32..64]);
    o[64] ^= 1;
    o
}
#[test]
fn roundtrip() {
    for sk in [1u64, 2, 12345, u64::MAX] {
        for m in [[0u8; 32], [7u8; 32], [255u8; 32]] {
            let s = sign(sk, &m);
            assert_eq!(recover(&s, &m).unwrap(), public(sk));
            assert_eq!(recover(&flip_s(&s), &m).unwrap(), public(sk));
        }
    }
    // well-known key: sk = 1 has public key G
    assert_eq!(public(1), ser(g()));
    // the order of the group, and multiplication modulo p against long division
    assert_eq!(mul(n(), Some(g())), None);
    let mut x = U256::from(3u8);
    for _ in 0..2000 { let y = p() - (x >> 3); assert_eq!(fm(x, y), mulm(x, y, p())); assert_eq!(fm(y, y), mulm(y, y, p())); x = fm(x, y) + U256::from(1u8); }
}
