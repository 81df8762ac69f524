//! P33: the precompile set and the token precompile
use super::*;
use crate::evm::precompiles::{erc20_mapping::{is_asset_address, Erc20Mapping, HydraErc20Mapping}, HydraDXPrecompiles};
use frame_support::BoundedVec;
use orml_traits::{MultiCurrency, MultiReservableCurrency};
use pallet_evm::{Context, ExitError, ExitReason, ExitRevert, IsPrecompileResult, Precompile, PrecompileSet, Transfer};

pub struct Handle { pub code: H160, pub ctx: Context, pub input: Vec<u8>, pub gas: u64, pub fixed: bool, pub used: u64, pub proof: u64, pub sub: Option<Box<dyn FnMut(H160, Option<Transfer>, Vec<u8>, Option<u64>, bool, &Context) -> (ExitReason, Vec<u8>)>> }
impl PrecompileHandle for Handle {
    fn call(&mut self, to: H160, t: Option<Transfer>, i: Vec<u8>, g: Option<u64>, s: bool, c: &Context) -> (ExitReason, Vec<u8>) { let g = Some(g.unwrap_or(u64::MAX).min(self.gas - self.used)); match &mut self.sub { Some(f) => f(to, t, i, g, s, c), None => (ExitReason::Revert(ExitRevert::Reverted), vec![]) } }
    fn record_cost(&mut self, c: u64) -> Result<(), ExitError> { if c > self.gas - self.used { self.used = self.gas; Err(ExitError::OutOfGas) } else { self.used += c; Ok(()) } }
    fn record_external_cost(&mut self, _: Option<u64>, p: Option<u64>, _: Option<u64>) -> Result<(), ExitError> { self.proof += p.unwrap_or(0); Ok(()) }
    fn refund_external_cost(&mut self, _: Option<u64>, _: Option<u64>) {}
    fn remaining_gas(&self) -> u64 { self.gas - self.used }
    fn log(&mut self, _: H160, _: Vec<H256>, _: Vec<u8>) -> Result<(), ExitError> { Ok(()) }
    fn code_address(&self) -> H160 { self.code }
    fn input(&self) -> &[u8] { &self.input }
    fn context(&self) -> &Context { &self.ctx }
    fn is_static(&self) -> bool { self.fixed }
    fn gas_limit(&self) -> Option<u64> { Some(self.gas) }
}
/// Runs a precompile the way the interpreter does: what a failed one wrote is undone.  `None`: no precompile there.
pub fn execute(h: &mut Handle) -> Option<Result<Vec<u8>, pallet_evm::PrecompileFailure>> {
    let mut none = false;
    let r = frame_support::storage::with_storage_layer(|| match HydraDXPrecompiles::<Rt>::new().execute(h) { None => { none = true; Ok(Ok(vec![])) } Some(Ok(o)) => Ok(Ok(o.output)), Some(Err(e)) => { LAST.with(|l| *l.borrow_mut() = Some(e)); Err(sp_runtime::DispatchError::Other("")) } });
    if none { return None }
    Some(r.unwrap_or_else(|_| Err(LAST.with(|l| l.borrow_mut().take().unwrap()))))
}
thread_local! { static LAST: std::cell::RefCell<Option<pallet_evm::PrecompileFailure>> = Default::default(); }
fn coin(id: u32) -> H160 { let mut b = [0u8; 20]; b[15] = 1; b[16..].copy_from_slice(&id.to_be_bytes()); H160(b) }
/// 0: bound; 1, 2: not bound; 3: all zeros; 4: the address of the registered token 1; 5: as 1 but for its last byte
pub fn addr(k: u8) -> H160 { match k { 0 => H160([0xa1; 20]), 1 => H160([0xb2; 20]), 2 => H160::from_low_u64_be(0x1234), 3 => H160::zero(), 4 => coin(1), _ => { let mut a = [0xb2; 20]; a[19] = 0; H160(a) } } }
fn owner0() -> Acc { let mut b = [7; 32]; b[..20].copy_from_slice(&[0xa1; 20]); Acc::new(b) }
#[derive(Clone, Debug)]
enum Fun { Name, Symbol, Decimals, Supply, Balance(u8), Allowance, Transfer(u8, U256), Approve, TransferFrom, Unknown, Short }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Odd { No, Delegate, Static, Value, Cheap, Exact, Cut, Extra }
#[derive(Clone, Debug)]
enum Act { Call(u8, u32, Fun, Odd), Bind, Give(u8, u32, u128), Keep(u8, u32, u128), Register(u32) }
const READ: u64 = 25_000_000 / GAS;
fn sel(s: &str) -> Vec<u8> { keccak(s.as_bytes())[..4].to_vec() }
fn arg(a: H160) -> Vec<u8> { [vec![0; 12], a.0.to_vec()].concat() }
fn input(f: &Fun) -> Vec<u8> {
    let two = || [arg(addr(1)), arg(addr(2))].concat();
    match f {
        Fun::Name => sel("name()"), Fun::Symbol => sel("symbol()"), Fun::Decimals => sel("decimals()"), Fun::Supply => sel("totalSupply()"), Fun::Balance(k) => [sel("balanceOf(address)"), arg(addr(*k))].concat(),
        Fun::Allowance => [sel("allowance(address,address)"), two()].concat(), Fun::Approve => [sel("approve(address,uint256)"), arg(addr(1)), word(U256::from(5))].concat(),
        Fun::Transfer(k, x) => [sel("transfer(address,uint256)"), arg(addr(*k)), word(*x)].concat(), Fun::TransferFrom => [sel("transferFrom(address,address,uint256)"), two(), word(U256::from(1))].concat(),
        Fun::Unknown => [sel("mint(address,uint256)"), arg(addr(1)), word(U256::from(5))].concat(), Fun::Short => sel("name()")[..3].to_vec(),
    }
}
fn text(b: &[u8]) -> Vec<u8> { [word(U256::from(32)), word(U256::from(b.len())), padded(b)].concat() }
fn named(id: u32) -> Option<(Vec<u8>, Vec<u8>, u8)> { match id { 0 => Some((b"Native".to_vec(), b"NTV".to_vec(), 12)), 1 => Some((vec![b'x'; 32], b"ONE".to_vec(), 6)), 0x01020304 => Some((vec![b'y'; 33], b"BIG".to_vec(), 255)), _ => None } }
fn register(id: u32) { let (n, s, d) = named(id).unwrap(); let b = |v: Vec<u8>| BoundedVec::try_from(v).unwrap(); Registry::register(RuntimeOrigin::root(), Some(id), Some(b(n)), pallet_asset_registry::AssetType::Token, Some(1), Some(b(s)), Some(d), None, None, true).unwrap(); }
type M = Vec<u32>;
/// what the call is to answer, its effect made on the ledger; `None`: it fails
fn spec(k: u8, id: u32, f: &Fun, odd: Odd, m: &M) -> Option<Vec<u8>> {
    let num = |x: u128| Some(word(U256::from(x)));
    let args = !matches!(f, Fun::Name | Fun::Symbol | Fun::Decimals | Fun::Supply);
    match odd { Odd::Delegate | Odd::Value | Odd::Cheap => return None, Odd::Static if matches!(f, Fun::Transfer(..)) => return None, Odd::Cut if args => return None, Odd::Cut => return None, _ => () }
    let about = if m.contains(&id) { named(id) } else { None };
    match f {
        Fun::Name => about.map(|a| text(&a.0)), Fun::Symbol => about.map(|a| text(&a.1)), Fun::Decimals => about.and_then(|a| num(a.2 as u128)),
        Fun::Supply => num(if id == 0 { pallet_balances::TotalIssuance::<Rt>::get() } else { Tokens::total_issuance(id) }),
        Fun::Balance(k) => num(<Currencies as MultiCurrency<Acc>>::free_balance(id, &account(addr(*k)))),
        Fun::Transfer(to, x) => { let x = u128::try_from(*x).ok()?; call(|| <Currencies as MultiCurrency<Acc>>::transfer(id, &account(addr(k)), &account(addr(*to)), x)).ok()?; num(1) }
        _ => None,
    }
}
fn step(a: &Act, m: &mut M) -> Result<bool, Wrong> {
    match a.clone() {
        Act::Bind => return Ok(call(|| EVMAccounts::bind_evm_address(RuntimeOrigin::signed(owner0()))).is_ok()),
        Act::Give(k, id, x) => return Ok(call(|| <Currencies as MultiCurrency<Acc>>::deposit(id, &account(addr(k)), x)).is_ok()),
        Act::Keep(k, id, x) => return Ok(call(|| <Currencies as MultiReservableCurrency<Acc>>::reserve(id, &account(addr(k)), x)).is_ok()),
        Act::Register(id) => { if m.contains(&id) { return Ok(false) } register(id); m.push(id); m.sort(); return Ok(true) }
        Act::Call(k, id, f, odd) => {
            let old = map();
            let (want, then) = dry(|| { let w = spec(k, id, &f, odd, m); (w, map()) });
            let mut data = input(&f);
            match odd { Odd::Cut => { data.pop(); } Odd::Extra => data.extend([9; 40]), _ => () }
            let mut h = Handle { code: coin(id), ctx: Context { address: if odd == Odd::Delegate { addr(5) } else { coin(id) }, caller: addr(k), apparent_value: U256::from((odd == Odd::Value) as u8) }, input: data, gas: match odd { Odd::Cheap => READ - 1, Odd::Exact => READ, _ => 10 * READ }, fixed: odd == Odd::Static, used: 0, proof: 0, sub: None };
            let got = execute(&mut h);
            must!(got.is_some(), "not there", "{a:?}: nobody answers for the token's address");
            let got = got.unwrap().ok();
            must!(got == want, "answer", "{a:?}: {got:02x?}, not {want:02x?}");
            must!(got.is_none() || h.used >= READ, "cost", "{a:?}: {} gas for one read of storage", h.used);
            let new = map();
            must!(new == if want.is_some() { then } else { old }, "balances", "{a:?}: the ledger is not what a transfer of the caller's leaves");
            Ok(want.is_some())
        }
    }
}
/// Every address goes where it is to go, called or delegate called.
fn places(ck: &kit::Check) -> Result<u64, Wrong> {
    let mut n = 0;
    let mut v: Vec<H160> = (0..0x20).chain(0x3f8..0x408).chain(0x800..0x810).map(H160::from_low_u64_be).collect();
    for b in 0..160 { let mut x = [0u8; 20]; x[b / 8] = 1 << (b % 8); v.push(H160(x)); }
    for id in [0, 1, 9, 0x401, 0x80a, 0x01020304, 1 << 31, u32::MAX] { v.push(coin(id)); for i in 0..16 { for w in if ck.pick(false, true) { (1..=255).collect::<Vec<u8>>() } else { vec![1, 2, 0x80, 0xff] } { let mut c = coin(id); c.0[i] ^= w; v.push(c) } } }
    v.push(H160([0xff; 20]));
    v.sort(); v.dedup();
    let (coins, permit): (fn(&H160) -> bool, H160) = (|a| a.0[..15] == [0; 15] && a.0[15] == 1, H160::from_low_u64_be(0x80a));
    for a in &v { for delegate in [false, true] {
        n += 1;
        let low = a.to_low_u64_be();
        let small = a.0[..12] == [0; 12];
        let std = small && (1..=9).contains(&low);
        let disp = small && low == 0x401;
        let ours = disp || *a == permit || coins(a);
        let (data, tag) = if *a == permit { ([sel("nonces(address)"), arg(addr(1))].concat(), vec![]) } else if coins(a) { (sel("totalSupply()"), vec![]) } else { (vec![5, 6, 7, 8], vec![if disp { 200 } else { low as u8 }, 5, 6, 7, 8]) };
        let mut h = Handle { code: *a, ctx: Context { address: if delegate { addr(5) } else { *a }, caller: addr(1), apparent_value: U256::zero() }, input: data, gas: 10 * READ, fixed: false, used: 0, proof: 0, sub: None };
        let got = execute(&mut h).map(|r| r.ok());
        let want = if std || (disp && !delegate) { Some(Some(tag)) } else if ours { Some(if delegate { None } else { Some(word(U256::zero())) }) } else { None };
        must!(got == want, "place", "{a:?}, delegate call {delegate}: {got:02x?}, not {want:02x?}");
        let is = HydraDXPrecompiles::<Rt>::new().is_precompile(*a, 0);
        must!(is == IsPrecompileResult::Answer { is_precompile: std || ours, extra_cost: 0 }, "is precompile", "{a:?}: {is:?}");
        must!(HydraErc20Mapping::decode_evm_address(*a) == if coins(a) { Some(u32::from_be_bytes([a.0[16], a.0[17], a.0[18], a.0[19]])) } else { None } && is_asset_address(*a) == coins(a), "asset of address", "{a:?}: {:?}", HydraErc20Mapping::decode_evm_address(*a));
        // the token precompile itself answers for no address which is not a token's
        if !coins(a) { h.used = 0; let r = crate::evm::precompiles::multicurrency::MultiCurrencyPrecompile::<Rt>::execute(&mut h); must!(r.is_err(), "no token", "{a:?}: {r:?}"); }
    } }
    let ids: Vec<u32> = (0..33).map(|i| ((1u64 << i) - 1) as u32).chain((0..32).map(|i| 1 << i)).chain(0..=ck.pick(70_000, 3_000_000)).chain((0..4).flat_map(|s| (0..256u32).map(move |b| b << (8 * s)))).collect();
    for id in ids { n += 1; let e = HydraErc20Mapping::encode_evm_address(id); must!(e == Some(coin(id)) && HydraErc20Mapping::decode_evm_address(coin(id)) == Some(id), "address of asset", "{id}: {e:?}"); }
    // the author of a block
    for i in [None, Some(0u32), Some(1), Some(2)] {
        AUTHOR.with(|a| a.set(i)); n += 1;
        let got = <crate::evm::accounts_conversion::FindAuthorTruncated<Author> as crate::evm::FindAuthor<H160>>::find_author(std::iter::empty());
        must!(got == i.map(|i| H160::from_slice(&<Acc as AsRef<[u8]>>::as_ref(&Aura::authorities()[i as usize])[4..24])), "author", "{i:?}: {got:?}");
    }
    Ok(n)
}
thread_local! { static AUTHOR: std::cell::Cell<Option<u32>> = Default::default(); }
struct Author;
impl crate::evm::FindAuthor<u32> for Author { fn find_author<'a, I: 'a + IntoIterator<Item = (crate::evm::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<u32> { AUTHOR.with(|a| a.get()) } }
pub fn check() {
    let ck = kit::Check::new("P33");
    let whole = std::cell::Cell::new(0);
    // lone executions on an empty chain
    let old = sp_io::swap_ext(sp_io::Ext::default());
    let (n, w) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| places(&ck))) { Ok(Ok(n)) => (n, None), Ok(Err(w)) => (1, Some(w)), Err(_) => (1, Some(Wrong("panic".into(), "one of the addresses panics".into()))) };
    sp_io::swap_ext(old);
    ck.add_states(n); ck.add_transitions(n); ck.add_traces(n);
    ck.section("places", serde_json::json!({ "addresses and asset ids": n }));
    if let Some(Wrong(k, t)) = w { ck.violation(&format!("places {k}"), &t, serde_json::json!({ "part": "places", "what": t })) }
    let mut acts = vec![];
    use Fun::*;
    let ids = [0u32, 1, 2, 0x01020304];
    for id in ids { for k in 0..ck.pick(2, 3) { for to in 0..6u8 { for x in [U256::zero(), U256::one(), U256::from(30), U256::from(95), U256::from(100), U256::from(101), U256::from(u128::MAX), U256::from(u128::MAX) + 1, (U256::one() << 128) + 30, U256::one() << 255] {
        if x > U256::from(101) && to != 1 { continue }
        if ck.pick(true, false) && to > 3 && x != U256::from(30) { continue }
        acts.push(Act::Call(k, id, Transfer(to, x), Odd::No));
    } } } }
    for id in ids.into_iter().chain([3, u32::MAX]) {
        for f in [Name, Symbol, Decimals, Supply, Balance(0), Balance(1), Balance(2), Balance(5), Allowance, Approve, TransferFrom, Unknown, Short] { acts.push(Act::Call(1, id, f, Odd::No)) }
    }
    for odd in [Odd::Delegate, Odd::Static, Odd::Value, Odd::Cheap, Odd::Exact, Odd::Cut, Odd::Extra] { for id in [0, 1] { for f in [Name, Symbol, Decimals, Supply, Balance(1), Transfer(2, U256::from(30)), Approve, Unknown] { acts.push(Act::Call(1, id, f, odd)) } } }
    acts.extend([Act::Bind, Act::Give(0, 0, 100), Act::Give(0, 1, 100), Act::Give(1, 0, 100), Act::Give(2, 1, 50), Act::Give(1, 0x01020304, 40), Act::Keep(1, 0, 35), Act::Keep(1, 1, 35)]);
    for id in [0, 1, 0x01020304] { acts.push(Act::Register(id)) }
    World { name: "tokens", depth: ck.pick(3, 4), events: false, actions: &|_: &M| acts.clone(), step: &|a: &Act, m: &mut M| step(a, m), prepare: &|| {} }.explore(&ck, vec![
        start("new chain", || { System::set_block_number(1); vec![] }),
        start("funded", || { System::set_block_number(1); for id in ids { for k in [1, 4] { Currencies::deposit(id, &account(addr(k)), 100).unwrap(); } } Currencies::deposit(2, &account(addr(0)), 100).unwrap(); register(0); register(1); EVMAccounts::bind_evm_address(RuntimeOrigin::signed(owner0())).unwrap(); Currencies::deposit(1, &owner0(), 100).unwrap(); vec![0, 1] }),
    ]);
    ck.finish()
}
