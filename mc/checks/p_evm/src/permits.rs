//! P34: permits, through the extrinsic and through the precompile
use super::*;
use crate::tokens::{execute, Handle};
use codec::{Decode, Encode};
use orml_traits::MultiCurrency;
use pallet_evm::{Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, PrecompileFailure, Runner, RunnerError, Transfer};
use pallet_evm_precompile_call_permit::NoncesStorage;
use sp_runtime::traits::ValidateUnsigned;
use std::cell::RefCell;

// ---- the interpreter, as the contracts of the addresses below would have it
/// a call which was made in the name of `from`
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Ran { from: H160, to: H160, value: U256, data: Vec<u8>, gas: u64 }
const NOTHING: u8 = 0xc0; const REVERTS: u8 = 0xc1; const FAILS: u8 = 0xc2; const FATAL: u8 = 0xc3;
/// makes every call to the permit precompile which lies in its storage
const REPLAYS: u8 = 0xc4;
/// the whole transaction is refused
const REFUSED: u8 = 0xc5;
fn place(k: u8) -> H160 { H160([k; 20]) }
fn permits_at() -> H160 { H160::from_low_u64_be(0x80a) }
fn weth() -> H160 { H160::from_low_u64_be((1 << 32) + 3) }
thread_local! {
    /// calls made in someone's name, those which are undone included, with the permit nonce they are made at
    static TRIED: RefCell<Vec<(Ran, U256, u64, bool)>> = Default::default();
    static ODD: RefCell<Vec<String>> = Default::default();
}
fn runs() -> Vec<Ran> { unhashed::get_or(b":runs", vec![]) }
fn currency(a: H160) -> AssetId { MultiTransactionPayment::tx_fee_currency_override(account(a)).unwrap_or(77) }
fn interpret(caller: H160, to: H160, value: U256, input: Vec<u8>, gas: u64) -> (ExitReason, Vec<u8>) {
    let mut out = None;
    let _ = frame_support::storage::with_storage_layer(|| {
        let r = run(caller, to, value, input, gas);
        let good = matches!(r.0, ExitReason::Succeed(_));
        out = Some(r);
        if good { Ok(()) } else { Err(sp_runtime::DispatchError::Other("")) }
    });
    out.unwrap()
}
fn run(caller: H160, to: H160, value: U256, input: Vec<u8>, gas: u64) -> (ExitReason, Vec<u8>) {
    let ok = |o: Vec<u8>| (ExitReason::Succeed(ExitSucceed::Returned), o);
    unhashed::put(b":count", &(unhashed::get_or(b":count", 0u32) + 1));
    match to.0[0] {
        REVERTS => return (ExitReason::Revert(ExitRevert::Reverted), vec![0xe1, 0xe2]),
        FAILS => return (ExitReason::Error(ExitError::OutOfGas), vec![]),
        FATAL => return (ExitReason::Fatal(ExitFatal::NotSupported), vec![]),
        REPLAYS => { let all: Vec<Vec<u8>> = unhashed::get_or(b":replay", vec![]); let mut o = vec![]; for c in all { let r = interpret(to, permits_at(), U256::zero(), c, gas / 2); o.push(matches!(r.0, ExitReason::Succeed(_)) as u8); } return ok(o) }
        _ => (),
    }
    let mut h = Handle { code: to, ctx: Context { address: to, caller, apparent_value: value }, input, gas, fixed: false, used: 0, proof: 0, sub: Some(Box::new(sub)) };
    match execute(&mut h) { None => ok(vec![0xaa]), Some(Ok(o)) => ok(o), Some(Err(e)) => match e { PrecompileFailure::Revert { exit_status, output } => (ExitReason::Revert(exit_status), output), PrecompileFailure::Error { exit_status } => (ExitReason::Error(exit_status), vec![]), PrecompileFailure::Fatal { exit_status } => (ExitReason::Fatal(exit_status), vec![]) } }
}
/// what a precompile calls
fn sub(to: H160, t: Option<Transfer>, input: Vec<u8>, gas: Option<u64>, fixed: bool, c: &Context) -> (ExitReason, Vec<u8>) {
    let value = c.apparent_value;
    let right = c.address == to && !fixed && gas.is_some() && match &t { None => value.is_zero(), Some(t) => !value.is_zero() && t.value == value && t.source == c.caller && t.target == to };
    if !right { ODD.with(|o| o.borrow_mut().push(format!("the precompile calls {to:?} with {t:?}, gas {gas:?}, static {fixed}, {c:?}"))) }
    named(Ran { from: c.caller, to, value, data: input.clone(), gas: gas.unwrap_or(0) }, false);
    interpret(c.caller, to, value, input, gas.unwrap_or(0))
}
fn named(r: Ran, top: bool) {
    TRIED.with(|t| t.borrow_mut().push((r.clone(), NoncesStorage::get(r.from), Clock::now(), top)));
    let mut v = runs(); v.push(r); unhashed::put(b":runs", &v);
}
const USED: u64 = 3; // a third of the gas is used
pub struct Run;
impl Runner<Rt> for Run {
    type Error = pallet_evm::Error<Rt>;
    fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: Option<Weight>, _: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<(), RunnerError<Self::Error>> { Ok(()) }
    fn call(from: H160, to: H160, data: Vec<u8>, value: U256, gas: u64, max_fee: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, transactional: bool, validate: bool, weight: Option<Weight>, base: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<pallet_evm::CallInfo, RunnerError<Self::Error>> {
        let price = <Fee as pallet_evm::FeeCalculator>::min_gas_price().0;
        if (max_fee, tip, nonce, &list, transactional, validate, weight, base) != (Some(price), None, None, &vec![], true, true, None, None) { ODD.with(|o| o.borrow_mut().push(format!("the runner is given {:?}", (max_fee, tip, nonce, &list, transactional, validate, weight, base)))) }
        if to.0[0] == REFUSED { return Err(RunnerError { error: pallet_evm::Error::GasPriceTooLow, weight: Weight::from_parts(77, 7) }) }
        let (who, fee) = (account(from), gas as u128 * price.low_u128());
        if Currencies::withdraw(Weth::get(), &who, fee).is_err() { return Err(RunnerError { error: pallet_evm::Error::BalanceLow, weight: Weight::from_parts(78, 8) }) }
        frame_system::Pallet::<Rt>::inc_account_nonce(&who);
        let r = {
            unhashed::put(b":paid", &currency(from));
            frame_support::storage::with_storage_layer(|| { named(Ran { from, to, value, data: data.clone(), gas }, true); let r = interpret(from, to, value, data, gas); if matches!(r.0, ExitReason::Succeed(_)) { Ok(r) } else { LAST.with(|l| *l.borrow_mut() = Some(r)); Err(sp_runtime::DispatchError::Other("")) } }).unwrap_or_else(|_| LAST.with(|l| l.borrow_mut().take().unwrap()))
        };
        let used = gas / USED;
        let _ = Currencies::deposit(Weth::get(), &who, (gas - used) as u128 * price.low_u128());
        let w = if to.0[0] == NOTHING { None } else { Some(pallet_evm::EvmWeightInfo { ref_time_limit: None, proof_size_limit: None, ref_time_usage: Some(9), proof_size_usage: if to.0[0] == REPLAYS { None } else { Some(55) } }) };
        Ok(pallet_evm::CallInfo { exit_reason: r.0, value: r.1, used_gas: pallet_evm::UsedGas { standard: used.into(), effective: (used + 1000).into() }, weight_info: w, logs: vec![] })
    }
}
thread_local! { static LAST: RefCell<Option<(ExitReason, Vec<u8>)>> = Default::default(); }

// ---- permits
fn signer(k: u8) -> H160 { static S: std::sync::OnceLock<Vec<H160>> = std::sync::OnceLock::new(); S.get_or_init(|| (0..2).map(made).collect())[k as usize] }
fn made(k: u8) -> H160 { H160::from_slice(&keccak(&sp_io::crypto::secp256k1_public(k as u64 + 5))[12..]) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Odd { No, From, To, Value, Data, Gas, Nonce, Later, Sooner, Chain, Contract, Name, Version, Kind, Domain, R, S, V, OtherForm, HighS, Zero, BadV(u8) }
#[derive(Clone, Debug, PartialEq)]
struct Permit { by: u8, to: H160, value: u64, data: Vec<u8>, gas: u64, nonce: u64, deadline: U256, odd: Odd }
/// what the extrinsic and the precompile are given
#[derive(Clone, Debug)]
struct Signed { from: H160, to: H160, value: U256, data: Vec<u8>, gas: u64, deadline: U256, v: u8, r: H256, s: H256 }
fn separator(odd: Odd) -> [u8; 32] {
    let kind = if odd == Odd::Domain { "EIP712Domain(string name,string version,uint256 chainId)" } else { "EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)" };
    let name = if odd == Odd::Name { "Call Permit Precompiles" } else { "Call Permit Precompile" };
    let at = if odd == Odd::Contract { place(0x0a) } else { permits_at() };
    keccak(&[keccak(kind.as_bytes()).to_vec(), keccak(name.as_bytes()).to_vec(), keccak(if odd == Odd::Version { b"2" } else { b"1" }).to_vec(), word(U256::from(if odd == Odd::Chain { 1 } else { 222_222 })), [vec![0; 12], at.0.to_vec()].concat()].concat())
}
fn digest(p: &Permit) -> [u8; 32] {
    let kind = if p.odd == Odd::Kind { "CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 deadline,uint256 nonce)" } else { "CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 nonce,uint256 deadline)" };
    let adr = |a: H160| [vec![0; 12], a.0.to_vec()].concat();
    let body = keccak(&[keccak(kind.as_bytes()).to_vec(), adr(signer(p.by)), adr(p.to), word(U256::from(p.value)), keccak(&p.data).to_vec(), word(U256::from(p.gas)), word(U256::from(p.nonce)), word(p.deadline)].concat());
    keccak(&[b"\x19\x01".to_vec(), separator(p.odd).to_vec(), body.to_vec()].concat())
}
fn sign(p: &Permit) -> Signed {
    let mut sig = sp_io::crypto::secp256k1_sign(p.by as u64 + 5, &digest(p));
    if p.odd == Odd::HighS { sig = sp_io::crypto::secp256k1_flip_s(&sig) }
    let mut s = Signed { from: signer(p.by), to: p.to, value: p.value.into(), data: p.data.clone(), gas: p.gas, deadline: p.deadline, v: sig[64], r: H256::from_slice(&sig[..32]), s: H256::from_slice(&sig[32..64]) };
    match p.odd {
        Odd::From => s.from = signer(1 - p.by), Odd::To => s.to.0[19] ^= 1, Odd::Value => s.value += U256::one(), Odd::Data => s.data.push(0), Odd::Gas => s.gas += 1, Odd::Later => s.deadline += U256::one(), Odd::Sooner => s.deadline -= U256::one(),
        Odd::R => s.r.0[31] ^= 1, Odd::S => s.s.0[31] ^= 1, Odd::V => s.v ^= 1, Odd::OtherForm => s.v += 27, Odd::Zero => { s.r = H256::zero(); s.s = H256::zero() } Odd::BadV(v) => s.v = v, _ => (),
    }
    s
}
/// the signature is good in itself
fn genuine(p: &Permit) -> bool { matches!(p.odd, Odd::No | Odd::OtherForm | Odd::HighS) }
fn calldata(s: &Signed) -> Vec<u8> {
    let mut d = keccak(b"dispatch(address,address,uint256,bytes,uint64,uint256,uint8,bytes32,bytes32)")[..4].to_vec();
    d.extend(encode(&[Token::Address(s.from), Token::Address(s.to), Token::Uint(s.value), Token::Bytes(s.data.clone()), Token::Uint(s.gas.into()), Token::Uint(s.deadline), Token::Uint(s.v.into()), Token::FixedBytes(s.r.0.to_vec()), Token::FixedBytes(s.s.0.to_vec())]));
    d
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way { Gas(u64), Enough, Short, Static, Value, Cut }
#[derive(Clone, Debug)]
enum Act { Time(u64), Submit(usize, u8), Validate(usize), Call(usize, Way), Stored(Vec<usize>) }
struct Cat { permits: Vec<(Permit, Signed)> }
fn clean(mut m: sp_io::Map) -> sp_io::Map {
    // a nonce of zero is no nonce
    let zero: Vec<Vec<u8>> = (0..2).map(|k| NoncesStorage::hashed_key_for(signer(k))).collect();
    for z in zero { if m.get(&z).map_or(false, |v| v.iter().all(|b| *b == 0)) { m.remove(&z); } }
    m
}
/// the permits' nonces which were used
type M = Vec<(u8, u64)>;
fn by_who(a: H160) -> Option<u8> { (0..2).find(|k| signer(*k) == a) }
/// every call made in a signer's name is one which that signer permitted, and none is made twice
fn lawful(cat: &Cat, m: &mut M, what: &str, before: usize, n0: [u64; 2]) -> Result<(), Wrong> {
    if let Some(o) = ODD.with(|o| o.borrow_mut().pop()) { return Err(Wrong("called oddly".into(), format!("{what}: {o}"))) }
    let mut next = n0;
    let good = runs()[before.min(runs().len())..].to_vec();
    for (r, n, now, top) in TRIED.with(|t| std::mem::take(&mut *t.borrow_mut())) {
        let Some(k) = by_who(r.from) else { continue };

        let n = n.low_u64();
        let found = cat.permits.iter().any(|(p, s)| genuine(p) && p.by == k && (p.nonce == n || p.nonce + 1 == n) && Ran { from: s.from, to: s.to, value: s.value, data: s.data.clone(), gas: s.gas } == r && s.deadline >= U256::from(now / 1000));
        must!(found, "not permitted", "{what}: {r:02x?} was called (by the runtime: {top}) at the nonce {n}, which nobody permitted");
    }
    for r in good {
        let Some(k) = by_who(r.from) else { continue };
        let n = next[k as usize]; next[k as usize] += 1;
        must!(!m.contains(&(k, n)), "twice", "{what}: the permit {n} of {k} was used before");
        m.push((k, n));
    }
    m.sort();
    Ok(())
}
fn nonces() -> [u64; 2] { [0, 1].map(|k| NoncesStorage::get(signer(k)).low_u64()) }
fn submit(s: &Signed) -> multi_payment::Call<Rt> { multi_payment::Call::dispatch_permit { from: s.from, to: s.to, value: s.value, data: s.data.clone(), gas_limit: s.gas, deadline: s.deadline, v: s.v, r: s.r, s: s.s } }
fn asked_currency(data: &[u8], a: H160) -> AssetId {
    match RuntimeCall::decode(&mut &data[..]) { Ok(RuntimeCall::MultiTransactionPayment(multi_payment::Call::set_currency { currency })) if RuntimeCall::MultiTransactionPayment(multi_payment::Call::set_currency { currency }).encode() == data => currency, _ => multi_payment::Pallet::<Rt>::account_currency(&account(a)) }
}
fn pause() { Pause::pause_transaction(RuntimeOrigin::root(), b"MultiTransactionPayment".to_vec(), b"dispatch_permit".to_vec()).ok(); }
/// what the extrinsic is to do with a permit which is good: the state after it, whether the runner took it, and how the call ended
fn spec_submit(s: &Signed) -> (sp_io::Map, Result<(bool, Weight), Weight>) {
    dry(|| {
        let who = account(s.from);
        let old = map();
        let nonce = System::account_nonce(&who);
        NoncesStorage::insert(s.from, NoncesStorage::get(s.from) + U256::one());
        multi_payment::TransactionCurrencyOverride::<Rt>::insert(&who, asked_currency(&s.data, s.from));
        match <Run as Runner<Rt>>::call(s.from, s.to, s.data.clone(), s.value, s.gas, Some(<Fee as pallet_evm::FeeCalculator>::min_gas_price().0), None, None, vec![], true, true, None, None, <Rt as pallet_evm::Config>::config()) {
            Err(e) => { sp_io::with_ext(|x| x.map = old); pause(); (clean(map()), Err(e.weight)) }
            Ok(i) => {
                multi_payment::TransactionCurrencyOverride::<Rt>::remove(&who);
                frame_system::Account::<Rt>::mutate(&who, |a| a.nonce = nonce);
                let mut w = <Gas as pallet_evm::GasWeightMapping>::gas_to_weight(s.gas / USED, true);
                if s.to.0[0] != NOTHING && s.to.0[0] != REPLAYS { w = Weight::from_parts(w.ref_time(), 55) }
                (clean(map()), Ok((matches!(i.exit_reason, ExitReason::Succeed(_)), w)))
            }
        }
    })
}
fn forget() { TRIED.with(|t| t.borrow_mut().clear()); ODD.with(|o| o.borrow_mut().clear()); }
fn step(cat: &Cat, a: &Act, m: &mut M) -> Result<bool, Wrong> {
    let (old, before, n0) = (map(), runs().len(), nonces());
    let valid = |i: usize| { let (p, s) = &cat.permits[i]; genuine(p) && U256::from(p.nonce) == NoncesStorage::get(s.from) && s.deadline >= U256::from(Clock::now() / 1000) };
    let r = match a.clone() {
        Act::Time(t) => { if t == Clock::now() { return Ok(false) } unhashed::put(b":ms", &t); true }
        Act::Stored(v) => { let d: Vec<Vec<u8>> = v.iter().map(|i| calldata(&cat.permits[*i].1)).collect(); if unhashed::get::<Vec<Vec<u8>>>(b":replay").unwrap_or_default() == d { return Ok(false) } unhashed::put(b":replay", &d); true }
        Act::Submit(i, origin) => {
            let s = &cat.permits[i].1;
            let ok = valid(i);
            let o = match origin { 0 => RuntimeOrigin::none(), 1 => RuntimeOrigin::signed(Acc::new([1; 32])), _ => RuntimeOrigin::root() };
            let (want, ended) = if origin != 0 { (clean(old.clone()), None) } else if ok { let (m, e) = spec_submit(s); (m, Some(e)) } else { (dry(|| { pause(); clean(map()) }), None) };
            forget();
            let got = call(|| multi_payment::Pallet::<Rt>::dispatch_permit(o, s.from, s.to, s.value, s.data.clone(), s.gas, s.deadline, s.v, s.r, s.s).map_err(|e| e.error));
            must!(got.is_ok() == (origin == 0), "origin", "{a:?}: {got:?} from origin {origin}");
            must!(clean(map()) == want, "submitted", "{a:?} (valid: {ok}, ended {ended:?}): nonces {:?}, account nonce {:?}, runs {:?}", nonces(), System::account_nonce(account(s.from)), runs());
            if let (Ok(p), Some(e)) = (got, &ended) {
                let w = match e { Ok((_, w)) => (Some(*w), false), Err(w) => (Some(*w), true) };
                must!((p.actual_weight, p.pays_fee == frame_support::dispatch::Pays::Yes) == w, "weight", "{a:?}: {p:?}, not {w:?}");
            }
            must!(multi_payment::TransactionCurrencyOverride::<Rt>::get(account(s.from)).is_none(), "currency left", "{a:?}: the currency of the permit stays");
            matches!(ended, Some(Ok(_)))
        }
        Act::Validate(i) => {
            let s = &cat.permits[i].1;
            let want = valid(i) && matches!(spec_submit(s).1, Ok((true, _)));
            forget();
            let got = <multi_payment::Pallet<Rt> as ValidateUnsigned>::validate_unsigned(sp_runtime::transaction_validity::TransactionSource::External, &submit(s));
            must!(got.is_ok() == want, "validity", "{a:?}: {got:?}, valid: {want}");
            must!(map() == old, "validated", "{a:?}: the state changed");
            forget();
            want
        }
        Act::Call(i, way) => {
            let s = &cat.permits[i].1;
            let caller = place(0xee);
            let mut input = calldata(s);
            if way == Way::Cut { input.truncate(input.len() - 33) }
            let mut h = Handle { code: permits_at(), ctx: Context { address: permits_at(), caller, apparent_value: U256::from((way == Way::Value) as u8) }, input, gas: match way { Way::Short => s.gas.saturating_add(1000), Way::Gas(x) => s.gas.saturating_add(x), _ => u64::MAX / 2 }, fixed: way == Way::Static, used: 0, proof: 0, sub: Some(Box::new(sub)) };
            // with some gas over, the call is made with the gas signed for, or it is not made
            let made = || { forget(); let g = h.gas; let mut h = Handle { code: h.code, ctx: h.ctx.clone(), input: h.input.clone(), gas: g, fixed: false, used: 0, proof: 0, sub: Some(Box::new(sub)) }; dry(|| { execute(&mut h); }); TRIED.with(|t| !t.borrow().is_empty()) };
            let ok = valid(i) && match way { Way::Enough => s.gas < u64::MAX / 4, Way::Gas(_) => made(), _ => false };
            let (want, out) = if ok { dry(|| { NoncesStorage::insert(s.from, NoncesStorage::get(s.from) + U256::one()); let r = sub(s.to, if s.value.is_zero() { None } else { Some(Transfer { source: s.from, target: s.to, value: s.value }) }, s.data.clone(), Some(s.gas), false, &Context { address: s.to, caller: s.from, apparent_value: s.value }); let good = matches!(r.0, ExitReason::Succeed(_)); (if good { clean(map()) } else { clean(old.clone()) }, Some(r)) }) } else { (clean(old.clone()), None) };
            forget();
            let got = execute(&mut h);
            let (got_ok, got_out) = match &got { Some(Ok(o)) => (true, o.clone()), Some(Err(PrecompileFailure::Revert { output, .. })) => (false, output.clone()), Some(Err(_)) => (false, vec![]), None => (false, vec![9; 9]) };
            let done = out.as_ref().map_or(false, |r| matches!(r.0, ExitReason::Succeed(_)));
            must!(got_ok == done, "dispatched", "{a:?} (valid: {ok}): {got:02x?}, not {out:02x?}");
            if let Some((r, o)) = &out { let o = if done { [word(U256::from(32)), word(U256::from(o.len())), padded(o)].concat() } else { o.clone() }; let _ = r; must!(got_out == o || (!done && matches!(got, Some(Err(PrecompileFailure::Error { .. } | PrecompileFailure::Fatal { .. })))), "output", "{a:?}: {got_out:02x?}, not {o:02x?}"); }
            must!(clean(map()) == want, "left", "{a:?} (valid: {ok}): nonces {:?}, runs {:?}", nonces(), runs());
            done
        }
    };
    lawful(cat, m, &format!("{a:?}"), before, n0)?;
    for k in 0..2 {
        let mut h = Handle { code: permits_at(), ctx: Context { address: permits_at(), caller: place(1), apparent_value: U256::zero() }, input: [keccak(b"nonces(address)")[..4].to_vec(), vec![0; 12], signer(k).0.to_vec()].concat(), gas: 1_000_000, fixed: true, used: 0, proof: 0, sub: None };
        let got = execute(&mut h).and_then(|r| r.ok());
        must!(got == Some(word(NoncesStorage::get(signer(k)))), "nonce shown", "{got:?} for {k}");
        must!(NoncesStorage::get(signer(k)) >= U256::from(n0[k as usize]), "nonce falls", "{a:?}: {:?}", nonces());
    }
    Ok(r)
}
fn catalogue(thorough: bool) -> Cat {
    let sec = |x: u64| U256::from(x);
    let plain = Permit { by: 0, to: place(NOTHING), value: 0, data: vec![1, 2, 3], gas: 1000, nonce: 0, deadline: sec(5), odd: Odd::No };
    let mut v = vec![plain.clone()];
    for odd in [Odd::From, Odd::To, Odd::Value, Odd::Data, Odd::Gas, Odd::Later, Odd::Sooner, Odd::Chain, Odd::Contract, Odd::Name, Odd::Version, Odd::Kind, Odd::Domain, Odd::R, Odd::S, Odd::V, Odd::OtherForm, Odd::HighS, Odd::Zero, Odd::BadV(4), Odd::BadV(26), Odd::BadV(31), Odd::BadV(255)] { v.push(Permit { odd, ..plain.clone() }) }
    let currency = RuntimeCall::MultiTransactionPayment(multi_payment::Call::set_currency { currency: 1 }).encode();
    let pay = |x: u64| [keccak(b"transfer(address,uint256)")[..4].to_vec(), vec![0; 12], place(0xdd).0.to_vec(), word(U256::from(x))].concat();
    for (to, value, data, gas, deadline) in [(place(REVERTS), 0, vec![], 1000, sec(6)), (place(FAILS), 0, vec![7], 1000, sec(6)), (place(FATAL), 0, vec![7], 1000, sec(6)), (place(REPLAYS), 0, vec![7], 4_000_000, sec(6)), (place(REFUSED), 0, vec![7], 1000, sec(6)), (place(NOTHING), 5, vec![], 1000, sec(6)), (place(NOTHING), 0, vec![], 999_999_999, sec(6)), (place(NOTHING), 0, vec![], u64::MAX, sec(6)), (place(NOTHING), 0, currency, 1000, U256::MAX), (weth(), 0, pay(100_000_000 - 7_000_000), 1_000_000, sec(6)), (weth(), 0, pay(5), 1_000_000, sec(6))] {
        v.push(Permit { to, value, data, gas, deadline, ..plain.clone() })
    }
    for nonce in 1..if thorough { 4 } else { 3 } { for to in [NOTHING, REPLAYS] { v.push(Permit { nonce, to: place(to), gas: 1_000_000, deadline: sec(6), ..plain.clone() }) } }
    v.push(Permit { by: 1, ..plain.clone() });
    v.push(Permit { by: 1, to: place(REPLAYS), gas: 1_000_000, deadline: sec(6), ..plain.clone() });
    // one permit carries another one, signed by the other signer, to the precompile
    let inner = sign(&Permit { by: 1, ..plain.clone() });
    v.push(Permit { to: permits_at(), data: calldata(&inner), gas: 2_000_000, deadline: sec(6), ..plain.clone() });
    // and one of its own, of the next nonce
    let inner = sign(&Permit { nonce: 1, gas: 1_000_000, deadline: sec(6), ..plain.clone() });
    v.push(Permit { to: permits_at(), data: calldata(&inner), gas: 2_000_000, deadline: sec(6), ..plain.clone() });
    Cat { permits: v.into_iter().map(|p| { let s = sign(&p); (p, s) }).collect() }
}
pub fn check() {
    let ck = kit::Check::new("P34");
    let cat = catalogue(ck.pick(false, true));
    let mut acts = vec![Act::Time(5_000), Act::Time(5_999), Act::Time(6_000), Act::Time(7_000)];
    let n = cat.permits.len();
    let find = |f: &dyn Fn(&Permit) -> bool| cat.permits.iter().position(|(p, _)| f(p)).unwrap();
    for i in 0..n { acts.push(Act::Submit(i, 0)); acts.push(Act::Validate(i)); acts.push(Act::Call(i, Way::Enough)); }
    for o in [1, 2] { acts.push(Act::Submit(0, o)) }
    for w in [Way::Gas(0), Way::Gas(152_950), Way::Gas(90_000), Way::Gas(153_000), Way::Gas(155_500), Way::Gas(156_000), Way::Gas(200_000), Way::Short, Way::Static, Way::Value, Way::Cut] { acts.push(Act::Call(0, w)) }
    let replays = find(&|p| p.by == 0 && p.nonce == 0 && p.to == place(REPLAYS));
    let next = find(&|p| p.by == 0 && p.nonce == 1 && p.to == place(NOTHING));
    let other = find(&|p| p.by == 1 && p.to == place(REPLAYS));
    acts.extend([Act::Stored(vec![replays]), Act::Stored(vec![replays, next, next]), Act::Stored(vec![0, 0, other]), Act::Stored(vec![other, replays, next])]);
    let begin = |bound: bool, rich: bool| move || {
        System::set_block_number(1); unhashed::put(b":ms", &5_000u64);
        multi_payment::AcceptedCurrencies::<Rt>::insert(1, FixedU128::from(2)); multi_payment::AcceptedCurrencies::<Rt>::insert(Weth::get(), FixedU128::from(3));
        if bound { let mut b = [7; 32]; b[..20].copy_from_slice(&signer(0).0); EVMAccounts::bind_evm_address(RuntimeOrigin::signed(Acc::new(b))).unwrap(); }
        for k in 0..2 { if rich { Currencies::deposit(Weth::get(), &account(signer(k)), 100_000_000).unwrap(); } frame_system::Account::<Rt>::mutate(account(signer(k)), |a| a.nonce = (4 + k).into()); }
        vec![]
    };
    World { name: "permits", depth: ck.pick(4, 6), events: false, actions: &|_: &M| acts.clone(), step: &|a: &Act, m: &mut M| step(&cat, a, m), prepare: &|| forget() }.explore(&ck, vec![start("poor", begin(false, false)), start("rich", begin(false, true)), start("bound", begin(true, true))]);
    let mut h = Handle { code: permits_at(), ctx: Context { address: permits_at(), caller: place(1), apparent_value: U256::zero() }, input: keccak(b"DOMAIN_SEPARATOR()")[..4].to_vec(), gas: 1_000_000, fixed: true, used: 0, proof: 0, sub: None };
    let got = execute(&mut h).and_then(|r| r.ok());
    if got != Some(separator(Odd::No).to_vec()) { ck.violation("domain", format!("the domain separator is {got:02x?}"), serde_json::json!({ "part": "domain" })) }
    ck.finish()
}
