//! P24: claims by Ethereum signature, on the real pallet-claims over stand-in balances, with secp256k1 in plain arithmetic.
use frame_support::{parameter_types, traits::{Currency, BuildGenesisConfig}, dispatch::DispatchInfo};
use pallet_claims::{Claims, EcdsaSignature, Error, EthereumAddress, Event, ValidateClaim};
use sp_core::crypto::AccountId32;
use sp_io::{crypto::{secp256k1_flip_s, secp256k1_public, secp256k1_sign}, hashing::keccak_256};
use sp_runtime::{traits::SignedExtension, transaction_validity::*, DispatchError};
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Pay: pallet_claims });
type Acc = AccountId32;
world::system!(Rt, pallet_balances::AccountData<u128>, AccountId32);
const ED: u128 = 10;
world::balances!(Rt, 10);
const TEXT: &[u8] = b"I hereby claim all my HDX to wallet:";
parameter_types! { pub Prefix: &'static [u8] = TEXT; }
impl pallet_claims::Config for Rt { type RuntimeEvent = RuntimeEvent; type Prefix = Prefix; type WeightInfo = (); type Currency = Balances; type CurrencyBalance = u128; }
fn who(k: u8) -> Acc { let mut b = [k; 32]; b[0] = 0xa0; b[31] = 0x0f; Acc::new(b) }
/// keys 1..: an Ethereum account each
fn eth(sk: u64) -> [u8; 20] { let mut a = [0; 20]; a.copy_from_slice(&keccak_256(&secp256k1_public(sk))[12..]); a }
/// what a wallet signs: the well-known preamble, the length, the text and the account in hexadecimal
fn message(text: &[u8], w: &Acc) -> [u8; 32] {
    let hexa: String = AsRef::<[u8; 32]>::as_ref(w).iter().map(|b| format!("{b:02x}")).collect();
    let body = [text, hexa.as_bytes()].concat();
    keccak_256(&[format!("\x19Ethereum Signed Message:\n{}", body.len()).as_bytes(), &body].concat())
}
/// a signature: by which key, for whom, and in what way it is not the plain one
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum How { Plain, OtherForm, Low, Text, NoText, V(u8), Zero, Ones, Byte(u8, u8), Raw }
type Sig = (u64, u8, How);
static SIGS: OnceLock<HashMap<Sig, ([u8; 65], Vec<Option<[u8; 20]>>)>> = OnceLock::new();
fn sign(s: Sig) -> [u8; 65] {
    let (sk, w, how) = s; let w = who(w);
    let plain = || secp256k1_sign(sk, &message(TEXT, &w));
    match how {
        How::Plain => plain(), How::OtherForm => { let mut x = secp256k1_flip_s(&plain()); if x[64] < 27 { x[64] += 27 } x } How::Low => secp256k1_flip_s(&plain()),
        How::Text => secp256k1_sign(sk, &message(b"I hereby claim all my HDX to wallet", &w)), How::NoText => secp256k1_sign(sk, &message(b"", &w)),
        How::V(v) => { let mut x = plain(); x[64] = v; x } How::Zero => [0; 65], How::Ones => [255; 65], How::Byte(i, v) => { let mut x = plain(); x[i as usize] ^= v; x }
        How::Raw => secp256k1_sign(sk, &keccak_256(&[TEXT, &w.as_ref()].concat())),
    }
}
const WHO: u8 = 4;
/// Whose signature this is, if account `w` hands it in: worked out with the curve alone.
fn signer(s: Sig, w: u8) -> Option<[u8; 20]> { SIGS.get().unwrap()[&s].1[w as usize] }
fn bytes(s: Sig) -> [u8; 65] { SIGS.get().unwrap()[&s].0 }
fn all() -> Vec<Sig> {
    let mut v = vec![];
    for sk in 1..5 { for w in 0..WHO { v.push((sk, w, How::Plain)); } }
    for h in [How::OtherForm, How::Low, How::Text, How::NoText, How::Zero, How::Ones, How::Raw] { v.push((1, 0, h)); v.push((2, 1, h)); }
    for x in [0, 1, 2, 3, 4, 26, 27, 28, 29, 255] { v.push((1, 0, How::V(x))); }
    v
}
fn flipped() -> Vec<Sig> { let mut v = vec![]; for i in 0..65 { for b in [1, 128] { v.push((1, 0, How::Byte(i, b))); } } v }
#[derive(Clone, Debug)]
enum Act { Claim(u8, Sig), Pay(u8, u8, u128), Nobody(Sig) }
type M = BTreeMap<[u8; 20], u128>;
fn free(w: u8) -> u128 { Balances::free_balance(who(w)) }
fn step(a: &Act, m: &mut M) -> Result<bool, Wrong> {
    let map = || sp_io::with_ext(|e| e.map.clone());
    let old = map();
    let ok = match a.clone() {
        Act::Claim(w, s) => {
            let sig = EcdsaSignature(bytes(s));
            let want: Result<([u8; 20], u128), Error<Rt>> = match signer(s, w) { None => Err(Error::InvalidEthereumSignature), Some(x) => match m.get(&x) { Some(d) if *d > 0 => Ok((x, *d)), _ => Err(Error::NoClaimOrAlreadyClaimed) } };
            let c = RuntimeCall::Pay(pallet_claims::Call::claim { ethereum_signature: sig.clone() });
            let valid = ValidateClaim::<Rt>::new().validate(&who(w), &c, &DispatchInfo::default(), 0);
            let pre = ValidateClaim::<Rt>::new().pre_dispatch(&who(w), &c, &DispatchInfo::default(), 0);
            let told = match &want { Ok(_) => Ok(()), Err(Error::InvalidEthereumSignature) => Err(TransactionValidityError::Invalid(InvalidTransaction::Custom(0))), Err(_) => Err(TransactionValidityError::Invalid(InvalidTransaction::Custom(1))) };
            must!(valid.clone().map(|_| ()) == told && pre == told, "validation", "{s:?} by {w}: {valid:?}, {pre:?}, not {told:?}");
            must!(valid.map_or(true, |v| v == ValidTransaction::default()) && map() == old, "validation", "of {s:?} by {w} is not plain");
            let state = dry(|| want.as_ref().ok().and_then(|(x, d)| {
                use frame_support::traits::Imbalance;
                if free(w) == 0 && *d < ED || free(w).checked_add(*d).is_none() { return None }
                if Balances::deposit_creating(&who(w), *d).peek() != *d { return None }
                Claims::<Rt>::insert(EthereumAddress(*x), 0);
                System::deposit_event(Event::<Rt>::Claim(who(w), EthereumAddress(*x), *d));
                Some(map())
            }));
            let got = call(|| Pay::claim(RuntimeOrigin::signed(who(w)), sig).map_err(|e| e.error));
            let want: Result<_, DispatchError> = match (want, &state) { (Ok(_), None) => Err(Error::<Rt>::BalanceOverflow.into()), (Ok(x), _) => Ok(x), (Err(e), _) => Err(e.into()) };
            match (&want, &got) {
                (Ok((x, d)), Ok(p)) => {
                    must!(Some(map()) == state, "claimed", "the state after {s:?} by {w} differs from what is meant");
                    must!(p.pays_fee == frame_support::dispatch::Pays::Yes && p.actual_weight.is_none(), "claimed", "post info {p:?}");
                    let _ = d; m.insert(*x, 0); true
                }
                (Err(x), Err(y)) => { must!(x == y, "reason", "{s:?} by {w}: {y:?}, not {x:?}"); must!(map() == old, "refused", "refused {s:?} by {w} changed something"); false }
                _ => return wrong("accept", format!("{s:?} by {w}: {got:?}, not {want:?}")),
            }
        }
        Act::Pay(f, t, x) => call(|| Balances::transfer_allow_death(RuntimeOrigin::signed(who(f)), who(t), x)).is_ok(),
        Act::Nobody(s) => {
            for o in [RuntimeOrigin::none(), RuntimeOrigin::root()] { must!(call(|| Pay::claim(o, EcdsaSignature(bytes(s))).map_err(|e| e.error)).is_err() && map() == old, "refused", "nobody can claim"); }
            let c = RuntimeCall::System(frame_system::Call::remark { remark: bytes(s).to_vec() });
            must!(ValidateClaim::<Rt>::new().validate(&who(0), &c, &DispatchInfo::default(), 0) == Ok(ValidTransaction::default()), "validation", "another call is not as valid as it was");
            false
        }
    };
    System::reset_events();
    for (x, d) in m.iter() { must!(Pay::claims(EthereumAddress(*x)) == *d, "claims", "{x:?} can claim {}, not {d}", Pay::claims(EthereumAddress(*x))); }
    must!(Claims::<Rt>::iter().all(|(k, d)| m.get(&k.0).map_or(d == 0, |x| *x == d)), "claims", "there are claims nobody gave");
    Ok(ok)
}
fn begin(name: &str, due: &[(u64, u128)], rich: &[(u8, u128)]) -> Start<M> {
    start(name, || {
        System::set_block_number(1);
        for (w, x) in rich { let _ = Balances::deposit_creating(&who(*w), *x); }
        pallet_claims::GenesisConfig::<Rt> { claims: due.iter().map(|(k, d)| (EthereumAddress(eth(*k)), *d)).collect() }.build();
        let mut m = M::new();
        for (k, d) in due { *m.entry(eth(*k)).or_default() += *d; }
        for (x, d) in &m { assert_eq!(Pay::claims(EthereumAddress(*x)), *d, "genesis"); }
        m
    })
}
fn main() {
    let ck = kit::Check::new("P24");
    let mut t = HashMap::new();
    for s in all().into_iter().chain(flipped()) {
        let x = sign(s);
        let of = |w| sp_io::crypto::secp256k1_ecdsa_recover(&x, &message(TEXT, &who(w))).ok().map(|p| { let mut a = [0; 20]; a.copy_from_slice(&keccak_256(&p)[12..]); a });
        t.insert(s, (x, (0..WHO).map(of).collect::<Vec<_>>()));
    }
    assert!(t[&(1, 0, How::Plain)].1[0] == Some(eth(1)) && t[&(1, 0, How::Plain)].1[1] != Some(eth(1)));
    SIGS.set(t).ok();
    let mut acts = vec![Act::Nobody((1, 0, How::Plain)), Act::Pay(1, 0, 10), Act::Pay(1, 2, 9), Act::Pay(0, 1, 100), Act::Pay(3, 0, u128::MAX / 2)];
    for s in all() { for w in 0..WHO { if s.2 == How::Plain || w == s.1 { acts.push(Act::Claim(w, s)); } } }
    let mut more = acts.clone();
    for s in flipped() { more.push(Act::Claim(0, s)); }
    let starts = || vec![
        begin("some claims", &[(1, 100), (2, 9), (3, 10), (2, 1)], &[(1, 100)]),
        begin("little and much", &[(1, 9), (2, u128::MAX), (3, u128::MAX - 50), (4, 1)], &[(1, 49), (2, 50), (3, 60)]),
        begin("none", &[(3, 0)], &[(1, 100)]),
    ];
    World { name: "signatures", depth: 1, events: true, actions: &|_: &M| more.clone(), step: &step, prepare: &|| {} }.explore(&ck, starts());
    World { name: "claims", depth: ck.pick(4, 9), events: true, actions: &|_: &M| acts.clone(), step: &step, prepare: &|| {} }.explore(&ck, starts());
    ck.finish()
}
