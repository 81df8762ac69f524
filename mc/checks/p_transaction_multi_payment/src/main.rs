//! P21: fees in the payer's currency, on the real pallet-transaction-multi-payment, pallet-currencies and
//! pallet-evm-accounts over the stand-in ledgers.  A transaction is: fee withdrawn, call dispatched, fee corrected.
use codec::{Decode, Encode};
use frame_support::dispatch::{DispatchErrorWithPostInfo, DispatchResultWithPostInfo, GetDispatchInfo, PostDispatchInfo};
use frame_support::{parameter_types, storage::unhashed, traits::{Contains, EnsureOrigin, Get, Hooks}, weights::{IdentityFee, Weight}};
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::{evm::InspectEvmAccounts, router::{AssetPair, PoolType, RouteProvider, Trade}, AccountFeeCurrency, NativePriceOracle, OraclePeriod, PriceOracle};
use orml_traits::{currency::MutationHooks, parameter_type_with_key, GetByKey, Happened, MultiCurrency};
use pallet_transaction_multi_payment as multi_payment;
use pallet_transaction_multi_payment::{AcceptedCurrencies, AcceptedCurrencyPrice, AccountCurrencyMap, AddTxAssetOnAccount, DepositAll, EVMPermit, Error, Event, PaymentInfo, RemoveTxAssetOnKilled, TransactionCurrencyOverride, TransferFees, TryCallCurrency};
use pallet_transaction_payment::OnChargeTransaction;
use sp_core::{crypto::AccountId32, H160, H256, U256};
use sp_runtime::{traits::{Dispatchable, ValidateUnsigned}, transaction_validity::*, DispatchError, DispatchResult, FixedU128};
use std::cell::RefCell;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Pay: multi_payment, TxPay: pallet_transaction_payment, Utility: pallet_utility, Evm: pallet_evm_accounts });
type Acc = AccountId32;
world::system!(Rt, pallet_balances::AccountData<u128>, AccountId32);
const ED: [u128; 6] = [10, 2, 5, 1, 1, 1];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED[*a as usize] }; }
pub struct Hk;
impl MutationHooks<Acc, AssetId, Balance> for Hk { type OnDust = (); type OnSlash = (); type PreDeposit = (); type PostDeposit = (); type PreTransfer = (); type PostTransfer = (); type OnNewTokenAccount = Born; type OnKilledTokenAccount = Died; }
world::tokens!(Rt, Eds, frame_support::traits::Nothing, Hk);
world::balances!(Rt, 10);
thread_local! { static ODD: RefCell<Option<String>> = RefCell::new(None); }
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
/// The real hooks, with what they are to do checked around them.
fn hooked(name: &str, who: &Acc, want: Option<AssetId>, f: impl FnOnce()) {
    let before = map(); f();
    let got = AccountCurrencyMap::<Rt>::get(who);
    let mut rest = map(); let mut old = before;
    let key = AccountCurrencyMap::<Rt>::hashed_key_for(who); rest.remove(&key); old.remove(&key);
    if got != want || rest != old { ODD.with(|o| *o.borrow_mut() = Some(format!("{name}: fee currency of {} becomes {got:?}, not {want:?}", n(who)))) }
}
pub struct Born;
impl Happened<(Acc, AssetId)> for Born { fn happened(k: &(Acc, AssetId)) {
    let old = AccountCurrencyMap::<Rt>::get(&k.0);
    let want = if old.is_none() && AcceptedCurrencies::<Rt>::get(k.1).is_some() && Currencies::total_balance(0, &k.0) == 0 { Some(k.1) } else { old };
    hooked("new token account", &k.0, want, || AddTxAssetOnAccount::<Rt>::happened(k))
} }
pub struct Died;
impl Happened<(Acc, AssetId)> for Died { fn happened(k: &(Acc, AssetId)) {
    let old = AccountCurrencyMap::<Rt>::get(&k.0);
    let want = if !System::account_exists(&k.0) { None } else { old.filter(|c| Currencies::total_balance(*c, &k.0) != 0) };
    hooked("token account gone", &k.0, want, || RemoveTxAssetOnKilled::<Rt>::happened(k))
} }
parameter_types! { pub const Native: AssetId = 0; pub const Weth: AssetId = 3; pub Treasury: Acc = Acc::new([9; 32]); }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u64>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
impl pallet_transaction_payment::Config for Rt { type RuntimeEvent = RuntimeEvent; type OnChargeTransaction = Charge; type OperationalFeeMultiplier = (); type WeightToFee = IdentityFee<Balance>; type LengthToFee = IdentityFee<Balance>; type FeeMultiplierUpdate = (); }
type Charge = TransferFees<Currencies, DepositAll<Rt>, Treasury>;
impl pallet_utility::Config for Rt { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
pub struct Nonces;
impl pallet_evm_accounts::EvmNonceProvider for Nonces { fn get_nonce(_: H160) -> U256 { U256::zero() } }
impl pallet_evm_accounts::Config for Rt { type RuntimeEvent = RuntimeEvent; type EvmNonceProvider = Nonces; type FeeMultiplier = frame_support::traits::ConstU32<10>; type ControllerOrigin = frame_system::EnsureRoot<Acc>; type WeightInfo = (); }
impl multi_payment::Config for Rt {
    type RuntimeEvent = RuntimeEvent; type AcceptedCurrencyOrigin = Council; type Currencies = Currencies; type RouteProvider = Routes; type OraclePriceProvider = Oracle; type WeightInfo = ();
    type WeightToFee = IdentityFee<Balance>; type NativeAssetId = Native; type EvmAssetId = Weth; type InspectEvmAccounts = Evm; type EvmPermit = Permits; type TryCallCurrency<'a> = TryCallCurrency<Rt>;
}
/// root or account 8
pub struct Council;
impl EnsureOrigin<RuntimeOrigin> for Council {
    type Success = ();
    fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match o.clone().into() { Ok(frame_system::RawOrigin::Root) => Ok(()), Ok(frame_system::RawOrigin::Signed(w)) if w == who(8) => Ok(()), _ => Err(o) } }
}
pub struct Routes;
impl RouteProvider<AssetId> for Routes { fn get_route(p: AssetPair<AssetId>) -> Vec<Trade<AssetId>> {
    let t = |a, b| Trade { pool: PoolType::XYK, asset_in: a, asset_out: b };
    if p.asset_in == 2 { vec![t(2, 3), t(3, p.asset_out)] } else { vec![t(p.asset_in, p.asset_out)] }
} }
fn okey(a: AssetId) -> Vec<u8> { (b":oracle", a).encode() }
fn quote(a: AssetId) -> Option<(u128, u128)> { unhashed::get(&okey(a)) }
pub struct Oracle;
impl PriceOracle<AssetId> for Oracle { type Price = EmaPrice; fn price(r: &[Trade<AssetId>], p: OraclePeriod) -> Option<EmaPrice> {
    let right = p == OraclePeriod::Short && !r.is_empty() && r == &Routes::get_route(AssetPair::new(r[0].asset_in, 0))[..];
    if right { quote(r[0].asset_in).map(|(n, d)| EmaPrice { n, d }) } else { Some(EmaPrice { n: 77, d: 1 }) }
} }
// ---- permits: a stand-in for the EVM, told what to answer, which writes down what it was given
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
struct Seen { from: H160, to: H160, data: Vec<u8>, value: U256, gas: u64, price: U256, tip: Option<U256>, nonce: Option<U256>, list: u32, currency: Option<AssetId> }
type Perm = (H160, H160, Vec<u8>, U256, u64, U256, u8, H256, H256);
const PRICE: u64 = 7;
pub struct Permits;
impl EVMPermit for Permits {
    fn validate_permit(a: H160, b: H160, data: Vec<u8>, value: U256, gas: u64, deadline: U256, v: u8, r: H256, s: H256) -> DispatchResult {
        let x: Perm = (a, b, data, value, gas, deadline, v, r, s);
        if unhashed::get::<Perm>(b":perm") != Some(x) { return Err(DispatchError::Other("not the permit")) }
        match unhashed::get_or(b":valid", 0u8) { 0 => Ok(()), 1 => Err(Error::<Rt>::EvmPermitExpired.into()), _ => Err(Error::<Rt>::EvmPermitInvalid.into()) }
    }
    fn dispatch_permit(from: H160, to: H160, data: Vec<u8>, value: U256, gas: u64, price: U256, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>) -> DispatchResultWithPostInfo { run(Seen { from, to, data, value, gas, price, tip, nonce, list: list.len() as u32, currency: TransactionCurrencyOverride::<Rt>::get(<Evm as InspectEvmAccounts<Acc, H160>>::account_id(from)) }) }
    fn gas_price() -> (U256, Weight) { (PRICE.into(), Weight::from_parts(1, 1)) }
    fn dispatch_weight(g: u64) -> Weight { Weight::from_parts(g * 3, 0) }
    fn permit_nonce(a: H160) -> U256 { (a.0[0] as u64 + unhashed::get_or(b":ran", 0u64)).into() }
    fn on_dispatch_permit_error() { unhashed::put(b":paused", &(unhashed::get_or(b":paused", 0u8).wrapping_add(1) % 4)) }
}
fn run(s: Seen) -> DispatchResultWithPostInfo {
    unhashed::put(b":seen", &s); unhashed::put(b":ran", &((unhashed::get_or(b":ran", 0u64) + 1) % 4));
    let fail = |e: Error<Rt>| Err(DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(Weight::from_parts(55, 0)), pays_fee: Default::default() }, error: e.into() });
    match unhashed::get_or(b":runner", 0u8) { 0 => Ok(PostDispatchInfo { actual_weight: Some(Weight::from_parts(77, 0)), pays_fee: frame_support::dispatch::Pays::No }), 1 => fail(Error::EvmPermitRunnerError), _ => fail(Error::EvmPermitCallExecutionError) }
}
// ---- the parties
fn who(i: u8) -> Acc { Acc::new(if i == 5 { let mut b = [0; 32]; b[..4].copy_from_slice(b"ETH\0"); b[4..24].copy_from_slice(&[5; 20]); b } else { [i; 32] }) }
fn n(a: &Acc) -> u8 { AsRef::<[u8; 32]>::as_ref(a)[10] }
fn sender(i: u8) -> RuntimeOrigin { if i == 0 { RuntimeOrigin::root() } else if i == 255 { RuntimeOrigin::none() } else { RuntimeOrigin::signed(who(i)) } }
fn set(c: AssetId) -> RuntimeCall { RuntimeCall::Pay(multi_payment::Call::set_currency { currency: c }) }
fn noop() -> RuntimeCall { RuntimeCall::System(frame_system::Call::remark { remark: vec![] }) }
fn give(c: AssetId, to: u8, x: u128) -> RuntimeCall { RuntimeCall::Currencies(pallet_currencies::Call::transfer { dest: who(to), currency_id: c, amount: x }) }
fn batch(k: u8, calls: Vec<RuntimeCall>) -> RuntimeCall { RuntimeCall::Utility(match k { 0 => pallet_utility::Call::batch { calls }, 1 => pallet_utility::Call::batch_all { calls }, _ => pallet_utility::Call::force_batch { calls } }) }
/// The currency a call asks to pay in: set_currency's, alone or first in a batch.
fn asked(c: &RuntimeCall) -> Option<AssetId> {
    let one = |c: &RuntimeCall| match c { RuntimeCall::Pay(multi_payment::Call::set_currency { currency }) => Some(*currency), _ => None };
    match c { RuntimeCall::Utility(pallet_utility::Call::batch { calls }) | RuntimeCall::Utility(pallet_utility::Call::batch_all { calls }) | RuntimeCall::Utility(pallet_utility::Call::force_batch { calls }) => calls.first().and_then(one), c => one(c) }
}
fn calls() -> Vec<RuntimeCall> {
    let mut v = vec![noop(), give(0, 3, 40), give(1, 3, 96), give(0, 3, 99), give(1, 2, 2), batch(0, vec![]), batch(1, vec![noop(), set(1)]), batch(2, vec![batch(0, vec![set(2)])])];
    for c in 0..6 { v.push(set(c)); }
    for k in 0..3 { v.push(batch(k, vec![set(1), noop()])); }
    v.push(batch(0, vec![set(2), set(1)])); v.push(batch(1, vec![set(4), noop()]));
    v
}
const FEES: [(u128, u128, u128); 9] = [(0, 0, 0), (20, 20, 0), (20, 7, 3), (20, 0, 0), (1, 1, 1), (7, 7, 7), (95, 1, 0), (100, 95, 90), (400, 399, 1)];
#[derive(Clone, Debug)]
enum Act { Tx(u8, usize, usize), Set(u8, AssetId), Add(u8, AssetId, u128), Remove(u8, AssetId), Reset(u8, u8), Quote(AssetId, Option<(u128, u128)>), Block, Give(u8, AssetId, u8, u128), Permit(u8, u8, u8, u8, u8), Valid(u8, u8, u8, u8) }
const ONE: u128 = 1_000_000_000_000_000_000;
/// The price of the native currency in `c`, in units of 10⁻¹⁸
fn rate(c: AssetId) -> Option<u128> {
    if c == 0 { return Some(ONE) }
    AcceptedCurrencyPrice::<Rt>::get(c).or_else(|| fresh(c)).or_else(|| AcceptedCurrencies::<Rt>::get(c)).map(|p| p.into_inner())
}
fn fresh(c: AssetId) -> Option<FixedU128> { quote(c).map(|(n, d)| FixedU128::from_inner(u128::try_from(U256::from(n) * U256::from(ONE) / U256::from(d)).unwrap())) }
fn fee_in(x: u128, rate: u128) -> Option<u128> { u128::try_from(U256::from(x) * U256::from(rate) / U256::from(ONE)).ok().map(|f| f.max(1)) }
fn mine(w: &Acc) -> AssetId { AccountCurrencyMap::<Rt>::get(w).unwrap_or(0) }
const PAYMENT: TransactionValidityError = TransactionValidityError::Invalid(InvalidTransaction::Payment);
type Paid = Option<PaymentInfo<u128, AssetId, FixedU128>>;
fn say(e: Event<Rt>) { System::deposit_event(RuntimeEvent::Pay(e)) }
/// What has to happen, done on the ledger; the inner `Err` is the refusal.
fn spec_tx(w: &Acc, c: &RuntimeCall, (fee, actual, _): (u128, u128, u128)) -> Result<Paid, TransactionValidityError> {
    let mut paid: Paid = None;
    let mut took = None;
    if fee > 0 {
        let cur = asked(c).unwrap_or_else(|| mine(w));
        let r = rate(cur).ok_or(PAYMENT)?;
        let x = fee_in(fee, r).ok_or(PAYMENT)?;
        Currencies::withdraw(cur, w, x).map_err(|_| PAYMENT)?;
        paid = Some(if cur == 0 { PaymentInfo::Native(fee) } else { PaymentInfo::NonNative(x, cur, FixedU128::from_inner(r)) });
        took = Some((cur, x, if cur == 0 { actual } else { fee_in(actual, r).ok_or(PAYMENT)? }));
    }
    let _ = call(|| c.clone().dispatch(RuntimeOrigin::signed(w.clone())).map_err(|e| e.error));
    if let Some((cur, x, keep)) = took {
        Currencies::deposit(cur, w, x - keep).map_err(|_| PAYMENT)?;
        Currencies::deposit(cur, &Treasury::get(), keep).map_err(|_| PAYMENT)?;
    }
    Ok(paid)
}
fn real_tx(w: &Acc, c: &RuntimeCall, (fee, actual, tip): (u128, u128, u128)) -> Result<Paid, TransactionValidityError> {
    let info = c.get_dispatch_info();
    let paid = <Charge as OnChargeTransaction<Rt>>::withdraw_fee(w, c, &info, fee, tip)?;
    let _ = call(|| c.clone().dispatch(RuntimeOrigin::signed(w.clone())).map_err(|e| e.error));
    <Charge as OnChargeTransaction<Rt>>::correct_and_deposit_fee(w, &info, &PostDispatchInfo::default(), actual, tip, paid.clone())?;
    Ok(paid)
}
fn perm(from: u8, data: u8, gas: u64) -> Perm {
    let d = match data { 0 => vec![], 1 => set(2).encode(), 2 => batch(1, vec![set(1), noop()]).encode(), 3 => noop().encode(), 4 => set(4).encode(), 5 => { let mut d = set(2).encode(); d.push(0); d } 6 => batch(0, vec![noop(), set(1)]).encode(), _ => { let mut c = set(1); for _ in 0..40 { c = batch(0, vec![c]); } c.encode() } };
    (H160([from; 20]), H160([77; 20]), d, 3.into(), gas, 99.into(), 27, H256([1; 32]), H256([2; 32]))
}
fn permit_call(p: &Perm) -> multi_payment::Call<Rt> { let (from, to, data, value, gas_limit, deadline, v, r, s) = p.clone(); multi_payment::Call::dispatch_permit { from, to, data, value, gas_limit, deadline, v, r, s } }
fn seen(p: &Perm) -> Seen {
    // the account: bound by its owner, or the one made from the address
    let bound = Evm::account(p.0).map(|tail| { let mut b = [0; 32]; b[..20].copy_from_slice(&p.0 .0); b[20..].copy_from_slice(&tail); Acc::new(b) });
    let acc = bound.unwrap_or_else(|| { let mut b = [0; 32]; b[..4].copy_from_slice(b"ETH\0"); b[4..24].copy_from_slice(&p.0 .0); Acc::new(b) });
    let cur = match p.2.first().and_then(|_| <RuntimeCall as codec::DecodeLimit>::decode_all_with_depth_limit(32, &mut &p.2[..]).ok()) { Some(c) => asked(&c).unwrap_or_else(|| mine(&acc)), None => mine(&acc) };
    Seen { from: p.0, to: p.1, data: p.2.clone(), value: p.3, gas: p.4, price: PRICE.into(), tip: None, nonce: None, list: 0, currency: Some(cur) }
}
fn prepare_permit(p: &Perm, valid: u8, runner: u8) { unhashed::put(b":perm", p); unhashed::put(b":valid", &valid); unhashed::put(b":runner", &runner); }
fn clear_permit() { for k in [&b":perm"[..], b":valid", b":runner", b":seen"] { unhashed::kill(k) } }
fn is_council(i: u8) -> bool { i == 0 || i == 8 }
fn spec(a: &Act) -> Result<(), ()> {
    match *a {
        Act::Set(w, c) => { if w == 0 || w == 255 || (c != 0 && AcceptedCurrencies::<Rt>::get(c).is_none()) { return Err(()) } AccountCurrencyMap::<Rt>::insert(who(w), c); say(Event::CurrencySet { account_id: who(w), asset_id: c }); }
        Act::Add(o, c, p) => { if !is_council(o) || c == 0 || AcceptedCurrencies::<Rt>::get(c).is_some() { return Err(()) } AcceptedCurrencies::<Rt>::insert(c, FixedU128::from_inner(p)); say(Event::CurrencyAdded { asset_id: c }); }
        Act::Remove(o, c) => { if !is_council(o) || c == 0 || AcceptedCurrencies::<Rt>::get(c).is_none() { return Err(()) } AcceptedCurrencies::<Rt>::remove(c); say(Event::CurrencyRemoved { asset_id: c }); }
        Act::Reset(o, w) => { if !is_council(o) { return Err(()) } let c = if w == 5 { AccountCurrencyMap::<Rt>::insert(who(w), 3); 3 } else { AccountCurrencyMap::<Rt>::remove(who(w)); 0 }; say(Event::CurrencySet { account_id: who(w), asset_id: c }); }
        Act::Block => { for c in 0..6 { AcceptedCurrencyPrice::<Rt>::remove(c); } System::set_block_number(System::block_number() + 1); for (c, p) in AcceptedCurrencies::<Rt>::iter().collect::<Vec<_>>() { AcceptedCurrencyPrice::<Rt>::insert(c, fresh(c).unwrap_or(p)); } }
        Act::Permit(o, from, data, valid, runner) => {
            if o != 255 { return Err(()) }
            if valid != 0 { Permits::on_dispatch_permit_error(); return Ok(()) }
            let _ = run(seen(&perm(from, data, 1000)));
            if runner == 1 { Permits::on_dispatch_permit_error(); }
        }
        _ => unreachable!(),
    }
    Ok(())
}
fn step(a: &Act) -> Result<bool, Wrong> {
    ODD.with(|o| *o.borrow_mut() = None);
    let r = step_(a);
    if let Some(x) = ODD.with(|o| o.borrow_mut().take()) { return wrong("hook", x) }
    r
}
fn same(want: &sp_io::Map) -> Result<(), Wrong> {
    let got = map();
    if got != *want {
        let d: Vec<String> = got.iter().filter(|(k, v)| want.get(*k) != Some(*v)).map(|(k, v)| format!("+{}={:?}", show(k), v)).chain(want.iter().filter(|(k, _)| !got.contains_key(*k)).map(|(k, _)| format!("-{}", show(k)))).take(4).collect();
        return wrong("effect", format!("the state is not what it has to be: {d:?}"))
    }
    Ok(())
}
fn show(k: &[u8]) -> String { if k.starts_with(b":") { String::from_utf8_lossy(k).into() } else { k.iter().rev().take(12).rev().map(|b| format!("{b:02x}")).collect() } }
fn step_(a: &Act) -> Result<bool, Wrong> {
    let (m0, a0) = (map(), a);
    if let Act::Tx(w, c, f) = *a {
        let (w, c, f) = (who(w), &calls()[c], FEES[f]);
        let (want, m) = dry(|| (call3(|| spec_tx(&w, c, f)), map()));
        let got = call3(|| real_tx(&w, c, f));
        must!(got == want, "payment", "the payment is {got:?}, not {want:?}");
        same(&m)?; return Ok(got.is_ok())
    }
    if let Act::Give(w, c, to, x) = *a { let r = call(|| give(c, to, x).dispatch(sender(w)).map_err(|e| e.error)); return Ok(r.is_ok()) }
    if let Act::Quote(c, q) = a { match q { Some(q) => unhashed::put(&okey(*c), q), None => unhashed::kill(&okey(*c)) } asks()?; return Ok(true) }
    if let Act::Valid(from, data, valid, runner) = *a {
        let p = perm(from, data, 1000);
        prepare_permit(&p, valid, runner);
        let m1 = map();
        let nonce = Permits::permit_nonce(p.0);
        for s in [TransactionSource::Local, TransactionSource::External, TransactionSource::InBlock] {
            let got = Pay::validate_unsigned(s, &permit_call(&p));
            let want = if valid == 0 && runner == 0 { Ok(ValidTransaction { priority: 0, requires: vec![], provides: vec![("EVMPermit", (nonce, p.0)).encode()], longevity: 64, propagate: true }) } else { let e: Error<Rt> = if valid == 1 { Error::EvmPermitExpired } else if valid == 2 { Error::EvmPermitInvalid } else if runner == 1 { Error::EvmPermitRunnerError } else { Error::EvmPermitCallExecutionError }; let DispatchError::Module(m) = e.into() else { unreachable!() }; Err(TransactionValidityError::Invalid(InvalidTransaction::Custom(m.error[0]))) };
            must!(got == want, "validate", "validity {got:?} instead of {want:?}");
            must!(map() == m1, "validate", "validation changed the state");
        }
        clear_permit();
        return Ok(true)
    }
    let ready = || if let Act::Permit(_, from, data, valid, runner) = *a { prepare_permit(&perm(from, data, 1000), valid, runner) };
    let (want, m, ev) = dry(|| { ready(); let r = spec(a); (r, map(), System::events()) });
    ready();
    let got = call(|| match *a {
        Act::Set(w, c) => Pay::set_currency(sender(w), c),
        Act::Add(o, c, p) => Pay::add_currency(sender(o), c, FixedU128::from_inner(p)),
        Act::Remove(o, c) => Pay::remove_currency(sender(o), c),
        Act::Reset(o, w) => Pay::reset_payment_currency(sender(o), who(w)),
        Act::Block => {
            let b = System::block_number(); Pay::on_finalize(b); System::set_block_number(b + 1); Pay::on_initialize(b + 1); Ok(())
        }
        Act::Permit(o, from, data, ..) => { let (a, b, d, v, g, dl, vv, r, s) = perm(from, data, 1000); Pay::dispatch_permit(sender(o), a, b, v, d, g, dl, vv, r, s).map(|p| ODD.with(|o| if let Act::Permit(_, _, _, valid, runner) = *a0 { let w = if valid != 0 { PostDispatchInfo::default() } else if runner == 0 { PostDispatchInfo { actual_weight: Some(Weight::from_parts(77, 0)), pays_fee: frame_support::dispatch::Pays::No } } else { PostDispatchInfo { actual_weight: Some(Weight::from_parts(55, 0)), pays_fee: Default::default() } }; if p != w { *o.borrow_mut() = Some(format!("permit reports {p:?}, not {w:?}")) } })).map_err(|e| e.error) }
        _ => unreachable!(),
    });
    must!(got.is_ok() == want.is_ok(), "accept", "{got:?}, which has to be {}", if want.is_ok() { "accepted" } else { "refused" });
    if want.is_err() { clear_permit(); must!(map() == m0, "refused", "a refused call changed the state"); return Ok(false) }
    must!(System::events() == ev, "event", "announces {:?}, not {:?}", System::events().last(), ev.last());
    same(&m)?;
    clear_permit();
    asks()?;
    Ok(true)
}
fn call3<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
    // a transaction that turns out invalid leaves nothing behind
    let mut r = None;
    let _ = frame_support::storage::with_storage_layer(|| -> Result<(), DispatchError> { let x = f(); let ok = x.is_ok(); r = Some(x); if ok { Ok(()) } else { Err(DispatchError::Other("")) } });
    r.unwrap()
}
fn asks() -> Result<(), Wrong> {
    for c in 0..6u32 {
        let p = if c == 0 { Some(FixedU128::from_inner(ONE)) } else { AcceptedCurrencyPrice::<Rt>::get(c).or_else(|| fresh(c)) };
        must!(<Pay as NativePriceOracle<AssetId, FixedU128>>::price(c) == p, "query", "price of {c}: {:?}, not {p:?}", <Pay as NativePriceOracle<AssetId, FixedU128>>::price(c));
        must!(<Pay as Contains<AssetId>>::contains(&c) == AcceptedCurrencies::<Rt>::get(c).is_some(), "query", "whether {c} is accepted");
        must!(<Pay as GetByKey<AssetId, Option<FixedU128>>>::get(&c) == AcceptedCurrencyPrice::<Rt>::get(c), "query", "price of {c}");
    }
    for w in 1..6 { must!(<Pay as AccountFeeCurrency<Acc>>::get(&who(w)) == mine(&who(w)) && Pay::account_currency(&who(w)) == mine(&who(w)), "query", "fee currency of {w}"); }
    Ok(())
}
fn begin(name: &str, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        for (c, p) in [(1, ONE * 3 / 2), (2, ONE / 2), (3, ONE)] { AcceptedCurrencies::<Rt>::insert(c, FixedU128::from_inner(p)); }
        Pay::on_initialize(1);
        for (w, c, x) in [(1, 0, 100), (1, 1, 100), (1, 2, 100), (1, 4, 100), (2, 1, 98), (4, 0, 30), (5, 3, 100)] { Currencies::deposit(c, &who(w), x).unwrap(); }
        for a in acts { match step(a) { Ok(true) => (), Ok(false) => panic!("start {name}: {a:?} refused"), Err(x) => panic!("start {name}: {a:?} gives {x:?}") } }
        asks().unwrap_or_else(|w| panic!("{w:?}"));
    })
}
fn main() {
    let ck = kit::Check::new("P21");
    let starts = || vec![
        begin("fallback prices", &[]),
        begin("pays in 1", &[Act::Set(1, 1), Act::Set(4, 2)]),
        begin("pays in 2, oracle prices", &[Act::Set(1, 2), Act::Quote(1, Some((1, 10))), Act::Quote(2, Some((3, 1))), Act::Block]),
        begin("oracle price of what is not accepted", &[Act::Set(1, 1), Act::Quote(4, Some((2, 1))), Act::Quote(2, Some((1, 3)))]),
        begin("1 no longer accepted", &[Act::Set(1, 1), Act::Remove(0, 1), Act::Block]),
        begin("1 no longer accepted, but priced", &[Act::Set(1, 1), Act::Remove(8, 1), Act::Quote(1, Some((1, 2))), Act::Block]),
        begin("prices beyond measure", &[Act::Set(1, 5 - 4), Act::Add(0, 5, u128::MAX), Act::Add(0, 4, 0), Act::Quote(1, Some((u128::MAX / ONE, 1))), Act::Block]),
    ];
    let mut txs = vec![];
    for w in [1, 2, 4, 3, 5] { for c in 0..calls().len() { for f in 0..FEES.len() { if w == 1 || (w < 5 && f > 0 && c < 14) || f == 1 { txs.push(Act::Tx(w, c, f)) } } } }
    World { name: "fees", depth: ck.pick(2, 3), events: true, actions: &|_: &()| txs.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts());
    let mut acts = vec![Act::Block, Act::Tx(1, 0, 2), Act::Tx(2, 0, 5), Act::Tx(5, 0, 2), Act::Tx(1, 9, 1), Act::Tx(4, 2, 6)];
    for w in [1, 2, 5, 255, 0] { for c in [0, 1, 2, 4] { acts.push(Act::Set(w, c)); } }
    for o in [0, 8, 1, 255] { for c in [0, 1, 4] { acts.push(Act::Add(o, c, ONE * 2)); acts.push(Act::Remove(o, c)); } for w in [1, 5] { acts.push(Act::Reset(o, w)); } }
    acts.push(Act::Add(0, 4, 0));
    for c in [1, 2, 4] { acts.push(Act::Quote(c, None)); acts.push(Act::Quote(c, Some((1, 4)))); }
    for (w, c, t, x) in [(1, 1, 3, 2), (1, 1, 3, 100), (1, 0, 3, 90), (2, 1, 3, 98), (2, 1, 1, 97), (1, 2, 3, 5), (1, 4, 3, 1), (1, 0, 2, 50), (3, 1, 1, 2), (3, 1, 1, 100), (1, 0, 3, 100), (5, 3, 1, 100)] { acts.push(Act::Give(w, c, t, x)); }
    World { name: "accounts and prices", depth: ck.pick(5, 6), events: true, actions: &|_: &()| acts.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, vec![begin("fallback prices", &[]), begin("priced", &[Act::Set(1, 1), Act::Quote(1, Some((1, 10))), Act::Block])]);
    let mut ps = vec![];
    for from in [5, 1, 4] { for data in 0..8 { for valid in 0..3 { for runner in 0..3 { ps.push(Act::Permit(255, from, data, valid, runner)); ps.push(Act::Valid(from, data, valid, runner)); } } } ps.push(Act::Permit(0, from, 1, 0, 0)); ps.push(Act::Permit(1, from, 1, 0, 0)); }
    for w in [1, 5] { for c in [0, 1, 2] { ps.push(Act::Set(w, c)); } }
    ps.push(Act::Remove(0, 2)); ps.push(Act::Reset(0, 5));
    let bound = || { let s = begin("bound", &[Act::Set(1, 1), Act::Set(4, 2)]); let old = sp_io::swap_ext(sp_io::Ext::default()); sp_io::with_ext(|e| e.map = s.map.clone()); Evm::bind_evm_address(RuntimeOrigin::signed(who(1))).unwrap(); let e = sp_io::swap_ext(old); Start { name: "an address bound".into(), map: e.map, model: () } };
    World { name: "permits", depth: ck.pick(3, 4), events: true, actions: &|_: &()| ps.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, vec![begin("unbound", &[]), bound()]);
    for c in [noop(), set(1)] { if let RuntimeCall::Pay(p) = &c { if Pay::validate_unsigned(TransactionSource::Local, p) != Err(TransactionValidityError::Invalid(InvalidTransaction::Call)) { ck.violation("validate", "a call that is not a permit is valid unsigned", serde_json::json!({})); } } }
    ck.finish()
}
