//! P35: what EVM transactions pay, and who may send them
use super::*;
use crate::evm::{evm_fee::{DepositEvmFeeToTreasury, FeeCurrencyOverrideOrDefault, TransferEvmFees}, runner::WrapRunner};
use frame_support::traits::{fungibles, tokens::{Fortitude, Precision, Preservation}, OnUnbalanced};
use hydradx_traits::{AccountFeeCurrency, AccountFeeCurrencyBalanceInCurrency};
use orml_traits::{MultiCurrency, MultiLockableCurrency};
use pallet_currencies::fungibles::FungibleCurrencies;
use pallet_evm::{CallInfo, CreateInfo, Error, OnChargeEVMTransaction, Runner, RunnerError};
use sp_runtime::traits::Convert;
use std::cell::RefCell;
type Money = FungibleCurrencies<Rt>;
/// so many of the currency for a wrapped ether: `None`, there is no price
fn price(c: AssetId) -> Option<(u128, u128)> { unhashed::get(&(b":price", c).encode()) }
fn up(x: u128, (n, d): (u128, u128)) -> Option<u128> { let r = (U256::from(x) * U256::from(n) + U256::from(d) - U256::one()) / U256::from(d); if r.bits() > 128 { None } else { Some(r.as_u128()) } }
pub struct Conv;
impl Convert<(AssetId, AssetId, Balance), Option<(Balance, EmaPrice)>> for Conv {
    fn convert((from, to, x): (AssetId, AssetId, Balance)) -> Option<(Balance, EmaPrice)> {
        if from == to { return Some((x, EmaPrice::one())) }
        if from != Weth::get() { return None }
        let (n, d) = price(to)?;
        up(x, (n, d)).map(|v| (v, EmaPrice::new(n, d)))
    }
}
type Chosen = FeeCurrencyOverrideOrDefault<Weth>;
type Fees = TransferEvmFees<DepositEvmFeeToTreasury, Chosen, Weth, Conv, Money>;
fn who(k: u8) -> Acc { account(crate::tokens::addr(k)) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fee { Zero, One, Of(u128), Most, Huge }
#[derive(Clone, Copy, Debug, PartialEq)]
enum End { Nothing, Less, Odd, All, More, Huge }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Between { Nothing, Spend, SpendAll, Price, Other }
#[derive(Clone, Debug)]
enum Act { Pay(u8, Option<AssetId>, Fee, End, Between), Tip(u8, Option<AssetId>, u128), Price(AssetId, Option<(u128, u128)>), Give(u8, AssetId, u128), Lock(u8, AssetId, u128) }
fn money(c: AssetId, a: &Acc) -> u128 { <Currencies as MultiCurrency<Acc>>::total_balance(c, a) }
fn held(c: AssetId) -> u128 { <Currencies as MultiCurrency<Acc>>::total_issuance(c) }
fn pays_in(k: u8, c: Option<AssetId>) -> AssetId { match c { Some(c) => { multi_payment::TransactionCurrencyOverride::<Rt>::insert(who(k), c); c } None => Weth::get() } }
fn step(a: &Act) -> Result<bool, Wrong> { let r = go(a); for k in 0..3 { multi_payment::TransactionCurrencyOverride::<Rt>::remove(who(k)) } r }
fn go(a: &Act) -> Result<bool, Wrong> {
    match *a {
        Act::Price(c, p) => { if price(c) == p { return Ok(false) } match p { Some(p) => unhashed::put(&(b":price", c).encode(), &p), None => unhashed::kill(&(b":price", c).encode()) } Ok(true) }
        Act::Give(k, c, x) => Ok(call(|| Currencies::deposit(c, &who(k), x)).is_ok()),
        Act::Lock(k, c, x) => Ok(money(c, &who(k)) > 0 && call(|| <Currencies as MultiLockableCurrency<Acc>>::set_lock(*b"stakings", c, &who(k), x)).is_ok()),
        Act::Pay(k, c, fee, end, between) => {
            let (me, adr, gold) = (who(k), crate::tokens::addr(k), TreasuryAccount::get());
            let c = pays_in(k, c);
            must!(Chosen::get(&me) == c, "currency", "{a:?}: {}, not {c}", Chosen::get(&me));
            let rate = if c == Weth::get() { Some((1, 1)) } else { price(c) };
            let has = <Money as fungibles::Inspect<Acc>>::reducible_balance(c, &me, Preservation::Expendable, Fortitude::Polite);
            let fee: U256 = match fee { Fee::Zero => U256::zero(), Fee::One => U256::one(), Fee::Of(x) => x.into(), Fee::Huge => U256::MAX,
                // all that there is
                Fee::Most => match rate { Some((n, d)) if n > 0 => U256::from(has) * U256::from(d) / U256::from(n), _ => U256::one() } };
            let small = if fee.bits() > 128 { u128::MAX } else { fee.as_u128() };
            let cost = rate.and_then(|r| up(small, r)).filter(|x| *x > 0);
            let (m0, all0) = (map(), held(c));
            let can = Fees::can_withdraw_(&adr, fee);
            must!(map() == m0, "asked", "{a:?}: to ask changes the state");
            let paid = Fees::withdraw_(&adr, fee);
            if fee.is_zero() { must!(matches!(paid, Ok(None)) && map() == m0, "no fee", "{a:?}: a fee of zero"); return Ok(true) }
            must!(can == paid.is_ok(), "can withdraw", "{a:?}: can withdraw says {can}, a withdrawal succeeds {}", paid.is_ok());
            let Ok(paid) = paid else { must!(map() == m0, "refused", "{a:?}: a refused withdrawal changes the state"); must!(cost.map_or(true, |x| x > has), "refused for nothing", "{a:?}: costs {cost:?} of {has}"); return Ok(false) };
            let Some(cost) = cost else { return Err(Wrong("free".into(), format!("{a:?}: {fee} at {rate:?} is not to be had, yet it was withdrawn"))) };
            let now = map();
            let want = { sp_io::with_ext(|e| e.map = m0.clone()); let r = <Money as fungibles::Mutate<Acc>>::burn_from(c, &me, cost, Precision::Exact, Fortitude::Polite); let w = map(); sp_io::with_ext(|e| e.map = now.clone()); r.map(|x| (x, w)) };
            // what is left under the existential deposit may go along
            let took = want.as_ref().map_or(0, |x| x.0);
            must!(want.ok().map(|x| x.1) == Some(now), "withdrawn", "{a:?}: not exactly {cost} of {c} was taken: {} is left of {has}", money(c, &me));
            must!(took >= cost, "too little", "{a:?}: {took} of {cost}");
            match between { Between::Nothing => (), Between::Spend => { let _ = call(|| <Currencies as MultiCurrency<Acc>>::transfer(c, &me, &who(2), 1)); } Between::SpendAll => { let x = <Currencies as MultiCurrency<Acc>>::free_balance(c, &me); let _ = call(|| <Currencies as MultiCurrency<Acc>>::transfer(c, &me, &who(2), x)); } Between::Price => unhashed::put(&(b":price", c).encode(), &(999u128, 1u128)), Between::Other => { multi_payment::TransactionCurrencyOverride::<Rt>::insert(&me, (c + 1) % 3); } }
            let spent = match end { End::Nothing => U256::zero(), End::Less => fee / 2, End::Odd => fee / 3 + 1, End::All => fee, End::More => fee.saturating_add(U256::one() << 20), End::Huge => U256::MAX };
            let (mine, theirs, m1, all1) = (money(c, &me), money(c, &gold), map(), held(c));
            let spent_small = if spent.bits() > 128 { u128::MAX } else { spent.as_u128() };
            let charge = up(spent_small, rate.unwrap()).unwrap_or(took).min(took);
            // what is not charged goes back, if the account can have it
            let back = took - charge;
            let (lands, m2) = dry(|| { let l = <Money as fungibles::Mutate<Acc>>::mint_into(c, &me, back).is_ok(); (l, map()) });
            let (charge, back) = if lands { (charge, back) } else { (took, 0) };
            let r = Fees::correct_(&adr, spent, paid);
            must!(r, "corrected", "{a:?}: an error, or something is left to pay");
            must!(money(c, &gold) == theirs + charge, "treasury", "{a:?}: the treasury has {} more, not {charge}", money(c, &gold) - theirs);
            must!(money(c, &me) == mine + back, "refund", "{a:?}: {} came back, not {back}", money(c, &me) - mine);
            must!(held(c) == all1 + took && all0 - all1 >= took, "issuance", "{a:?}: {all0}, {all1} after the withdrawal of {cost}, {} at last", held(c));
            let got = map();
            let want = { sp_io::with_ext(|e| e.map = if lands { m2 } else { m1 }); if charge > 0 { Currencies::deposit(c, &gold, charge).unwrap(); } let w = map(); sp_io::with_ext(|e| e.map = got.clone()); w };
            must!(got == want, "left", "{a:?}: the ledger is not that of a refund of {back} and {charge} to the treasury");
            multi_payment::TransactionCurrencyOverride::<Rt>::remove(&me);
            if between == Between::Price { match rate { Some(p) if c != Weth::get() => unhashed::put(&(b":price", c).encode(), &p), _ => unhashed::kill(&(b":price", c).encode()) } }
            Ok(true)
        }
        Act::Tip(k, c, x) => {
            let (adr, gold) = (crate::tokens::addr(k), TreasuryAccount::get());
            let c = pays_in(k, c);
            let (theirs, all) = (money(c, &gold), held(c));
            let Ok(paid) = Fees::withdraw_(&adr, x.into()) else { return Ok(false) };
            let cost = all - held(c);
            must!(cost > 0 || x == 0, "withdrawn", "{a:?}: nothing was withdrawn");
            let some = paid.is_some();
            Fees::tip(paid);
let least = up(x, if c == Weth::get() { (1, 1) } else { price(c).unwrap_or((0, 1)) }).unwrap();
            let more = money(c, &gold) - theirs;
            must!((least..=cost).contains(&more) && cost - more < ED[c as usize] && held(c) == all - (cost - more) && some == (x > 0), "tip", "{a:?}: {more} to the treasury of {cost}, not {least}");
            Ok(true)
        }
    }
}
type Paid = <Fees as OnChargeEVMTransaction<Rt>>::LiquidityInfo;
impl Fees {
    fn can_withdraw_(a: &H160, x: U256) -> bool { <Self as OnChargeEVMTransaction<Rt>>::can_withdraw(a, x).is_ok() }
    fn withdraw_(a: &H160, x: U256) -> Result<Paid, Error<Rt>> { <Self as OnChargeEVMTransaction<Rt>>::withdraw_fee(a, x) }
    fn correct_(a: &H160, x: U256, p: Paid) -> bool { matches!(<Self as OnChargeEVMTransaction<Rt>>::correct_and_deposit_fee(a, x, U256::from(3), p), Ok(None)) }
    fn tip(p: Paid) { <Self as OnChargeEVMTransaction<Rt>>::pay_priority_fee(p) }
}
// ---- the runner
#[derive(Clone, Debug, PartialEq)]
struct Sent { kind: u8, from: H160, to: H160, data: Vec<u8>, salt: H256, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, trans: bool, valid: bool, weight: Option<Weight>, base: Option<u64> }
thread_local! { static SENT: RefCell<Vec<Sent>> = Default::default(); static ASKED: RefCell<Vec<(AssetId, Acc)>> = Default::default(); }
struct Inner;
fn info<T>(v: T) -> pallet_evm::ExecutionInfoV2<T> { pallet_evm::ExecutionInfoV2 { exit_reason: pallet_evm::ExitReason::Succeed(pallet_evm::ExitSucceed::Stopped), value: v, used_gas: pallet_evm::UsedGas { standard: 5.into(), effective: 6.into() }, weight_info: None, logs: vec![] } }
impl Runner<Rt> for Inner {
    type Error = Error<Rt>;
    fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: Option<Weight>, _: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<(), RunnerError<Self::Error>> { Ok(()) }
    fn call(from: H160, to: H160, data: Vec<u8>, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, trans: bool, valid: bool, weight: Option<Weight>, base: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>> { SENT.with(|s| s.borrow_mut().push(Sent { kind: 0, from, to, data, salt: H256::zero(), value, gas, max, tip, nonce, list, trans, valid, weight, base })); Ok(info(vec![4, 2])) }
    fn create(from: H160, data: Vec<u8>, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, trans: bool, valid: bool, weight: Option<Weight>, base: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> { SENT.with(|s| s.borrow_mut().push(Sent { kind: 1, from, to: H160::zero(), data, salt: H256::zero(), value, gas, max, tip, nonce, list, trans, valid, weight, base })); Ok(info(H160([4; 20]))) }
    fn create2(from: H160, data: Vec<u8>, salt: H256, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, trans: bool, valid: bool, weight: Option<Weight>, base: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> { SENT.with(|s| s.borrow_mut().push(Sent { kind: 2, from, to: H160::zero(), data, salt, value, gas, max, tip, nonce, list, trans, valid, weight, base })); Ok(info(H160([4; 20]))) }
}
struct Has;
impl AccountFeeCurrencyBalanceInCurrency<AssetId, Acc> for Has {
    type Output = (Balance, Weight);
    fn get_balance_in_currency(c: AssetId, a: &Acc) -> (Balance, Weight) { ASKED.with(|s| s.borrow_mut().push((c, a.clone()))); (unhashed::get_or(&(b":has", a).encode(), 0u128), Weight::from_parts(3, 4)) }
}
type Wrapped = WrapRunner<Rt, Inner, Has>;
fn runner(ck: &kit::Check) -> Result<u64, Wrong> {
    let mut n = 0u64;
    let (from, to) = (crate::tokens::addr(1), crate::tokens::addr(2));
    let base = <crate::Fee as pallet_evm::FeeCalculator>::min_gas_price().0.as_u128();
    let config = <Rt as pallet_evm::Config>::config();
    let some = |v: &[u128]| -> Vec<Option<U256>> { std::iter::once(None).chain(v.iter().map(|x| Some(U256::from(*x)))).collect() };
    for bound in [false, true] {
        if bound { let mut b = [7; 32]; b[..20].copy_from_slice(&from.0); EVMAccounts::bind_evm_address(RuntimeOrigin::signed(Acc::new(b))).unwrap(); }
        let me = account(from);
        frame_system::Account::<Rt>::mutate(&me, |a| a.nonce = 5u8.into());
        for has in [0u128, 30_000 * base - 1, 30_000 * base, 30_000 * (base + 1) + 9, 30_000 * (base + 1) + 10, u128::MAX] {
            unhashed::put(&(b":has", &me).encode(), &has);
            for nonce in some(&[4, 5, 6]) { for max in some(&[0, base - 1, base, base + 1, u128::MAX]) { for tip in some(&[0, base, base + 1]) { for gas in [0u64, 20_999, 30_000, 60_000, 60_001] { for value in [0u128, 1, 10] { for trans in [false, true] { for kind in 0..4u8 { for valid in [false, true] {
                if kind == 3 && !valid { continue }
                n += 1;
                let x = Sent { kind, from, to: if kind == 0 { to } else { H160::zero() }, data: vec![3, 1, 4], salt: if kind == 2 { H256([6; 32]) } else { H256::zero() }, value: value.into(), gas, max, tip, nonce, list: vec![(to, vec![H256([8; 32])])], trans, valid, weight: Some(Weight::from_parts(9, 9)), base: Some(2) };
                let good = {
                    let fee = match (max, tip) { (Some(m), Some(t)) => if t > m { None } else { Some(m) }, (Some(m), None) => Some(m), _ => if trans { None } else { Some(U256::zero()) } };
                    nonce.map_or(true, |x| x == 5.into()) && (!trans || (21_000..=60_000).contains(&gas)) && fee.map_or(false, |f| (f >= base.into() || (!trans && f.is_zero())) && { let all = f * U256::from(gas); (!trans && all.is_zero()) || U256::from(has) >= all + U256::from(value) })
                };
                let m0 = map();
                SENT.with(|s| s.borrow_mut().clear()); ASKED.with(|s| s.borrow_mut().clear());
                let y = x.clone();
                let (ok, out) = match kind {
                    0 => { let r = Wrapped::call(y.from, y.to, y.data, y.value, y.gas, y.max, y.tip, y.nonce, y.list, y.trans, y.valid, y.weight, y.base, config); (r.is_ok(), r.map_or(true, |i| i == info(vec![4, 2]))) }
                    1 => { let r = Wrapped::create(y.from, y.data, y.value, y.gas, y.max, y.tip, y.nonce, y.list, y.trans, y.valid, y.weight, y.base, config); (r.is_ok(), r.map_or(true, |i| i == info(H160([4; 20])))) }
                    2 => { let r = Wrapped::create2(y.from, y.data, y.salt, y.value, y.gas, y.max, y.tip, y.nonce, y.list, y.trans, y.valid, y.weight, y.base, config); (r.is_ok(), r.map_or(true, |i| i == info(H160([4; 20])))) }
                    _ => { let r = Wrapped::validate(y.from, Some(to), y.data, y.value, y.gas, y.max, y.tip, y.nonce, y.list, y.trans, y.weight, y.base, config); (r.is_ok(), true) }
                };
                let sent = SENT.with(|s| s.borrow().clone());
                must!(ok == (good || !valid), "let through", "{x:?} with {has}: {ok}");
                must!(map() == m0, "validated", "{x:?}: the state changed");
                must!(sent == if ok && kind < 3 { vec![Sent { valid: false, ..x.clone() }] } else { vec![] }, "passed on", "{x:?}: {sent:?}");
                must!(out, "answer", "{x:?}: not the answer of the runner");
                must!(ASKED.with(|s| s.borrow().iter().all(|a| *a == (Weth::get(), me.clone()))), "asked", "{x:?}: {:?}", ASKED.with(|s| s.borrow().clone()));
            } } } } } } } }
        }
        let _ = ck;
    }
    Ok(n)
}
pub fn check() {
    let ck = kit::Check::new("P35");
    let old = sp_io::swap_ext(sp_io::Ext::default());
    let (n, w) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| runner(&ck))) { Ok(Ok(n)) => (n, None), Ok(Err(w)) => (1, Some(w)), Err(_) => (1, Some(Wrong("panic".into(), "the runner panics".into()))) };
    sp_io::swap_ext(old);
    ck.add_states(n); ck.add_transitions(n); ck.add_traces(n);
    ck.section("runner", serde_json::json!({ "transactions": n }));
    if let Some(Wrong(k, t)) = w { ck.violation(format!("runner {k}"), t.clone(), serde_json::json!({ "part": "runner", "what": t })) }
    let mut acts = vec![];
    for c in [None, Some(0), Some(1), Some(2), Some(4)] { for fee in [Fee::Zero, Fee::One, Fee::Of(7), Fee::Of(50), Fee::Of(100), Fee::Most, Fee::Huge] { for end in [End::Nothing, End::Less, End::Odd, End::All, End::More, End::Huge] { for b in [Between::Nothing, Between::Spend, Between::SpendAll, Between::Price, Between::Other] {
        if fee == Fee::Zero && (end != End::Nothing || b != Between::Nothing) { continue }
        acts.push(Act::Pay(0, c, fee, end, b));
    } } } acts.push(Act::Tip(0, c, 50)); acts.push(Act::Tip(0, c, 0)); }
    for (c, p) in [(0, Some((3, 1))), (1, Some((2, 7))), (1, None), (2, Some((1, 1 << 60))), (1, Some((u128::MAX, 1))), (0, Some((0, 1)))] { acts.push(Act::Price(c, p)) }
    for c in [0, 1, 2, 3] { acts.push(Act::Give(0, c, 50)); acts.push(Act::Lock(0, c, 60)) }
    World { name: "fees", depth: ck.pick(2, 3), events: false, actions: &|_: &()| acts.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, [(0u8, 100u128, false), (1, 100, true), (2, 1_000_003, false), (3, 0, false)].into_iter().map(|(i, x, bound)| start(["plain", "bound", "rich", "nothing"][i as usize], move || {
        System::set_block_number(1);
        if bound { let mut b = [7; 32]; b[..20].copy_from_slice(&[0xa1; 20]); EVMAccounts::bind_evm_address(RuntimeOrigin::signed(Acc::new(b))).unwrap(); }
        for c in [0, 1, 2, 3, 4] { Currencies::deposit(c, &TreasuryAccount::get(), 1000).unwrap(); Currencies::deposit(c, &who(2), 500).unwrap(); if x > 0 { Currencies::deposit(c, &who(0), x).unwrap(); } }
        for (c, p) in [(0u32, (5u128, 3u128)), (1, (1, 2)), (2, (1, 1))] { unhashed::put(&(b":price", c).encode(), &p) }
    })).collect());
    let _ = <DepositEvmFeeToTreasury as OnUnbalanced<_>>::on_unbalanced;
    ck.finish()
}
