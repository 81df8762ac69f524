//! P22: settling OTC orders against the market, on the real pallet-otc-settlements, pallet-otc and pallet-currencies over
//! the stand-in ledgers and a constant-product router.  The off-chain worker runs on the state and store it is given.
use codec::{Decode, Encode};
use frame_support::{parameter_types, storage::unhashed, traits::{fungibles::Mutate, tokens::{Fortitude, Precision, Preservation}, Get, Hooks, Nothing}};
use hydradx_traits::{registry::{AssetKind, Inspect}, router::*};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use pallet_currencies::fungibles::FungibleCurrencies;
use pallet_otc::Orders;
use pallet_otc_settlements::{Error, Event};
use sp_core::{offchain::{Timestamp, STATE}, U256};
use sp_runtime::{traits::ValidateUnsigned, transaction_validity::*, DispatchError, DispatchResult, FixedU128, Perbill};
use std::collections::BTreeMap;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Otc: pallet_otc, Settle: pallet_otc_settlements });
world::system!(Rt, pallet_balances::AccountData<u128>);
const ED: [u128; 3] = [10, 2, 1];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED[*a as usize] }; }
world::tokens!(Rt, Eds, Nothing, ());
world::balances!(Rt, 10);
parameter_types! { pub const Native: AssetId = 0; pub const Mult: u8 = 5; pub const Treasury: u64 = 9; pub const MinTrade: u128 = 10; }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u64>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
pub struct Reg;
impl Inspect for Reg {
    type AssetId = AssetId; type Location = u8;
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(_: AssetId) -> bool { true }
    fn decimals(_: AssetId) -> Option<u8> { None }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { None }
}
impl pallet_otc::Config for Rt { type AssetId = AssetId; type AssetRegistry = Reg; type Currency = Currencies; type RuntimeEvent = RuntimeEvent; type ExistentialDeposits = Eds; type ExistentialDepositMultiplier = Mult; type WeightInfo = (); }
type Cur = FungibleCurrencies<Rt>;
impl pallet_otc_settlements::Config for Rt {
    type Currency = Cur; type RuntimeEvent = RuntimeEvent; type Router = Router; type ProfitReceiver = Treasury; type MinProfitPercentage = Cfg; type PricePrecision = Cfg;
    type MinTradingLimit = MinTrade; type MaxIterations = Cfg; type WeightInfo = (); type RouterWeightInfo = ();
}
type Xt = sp_runtime::testing::TestXt<RuntimeCall, ()>;
impl<C> frame_system::offchain::SendTransactionTypes<C> for Rt where RuntimeCall: From<C> { type OverarchingCall = RuntimeCall; type Extrinsic = Xt; }
/// what this start is configured with: least profit (per thousand), precision (per thousand), iterations
fn cfg() -> (u32, u32, u32) { unhashed::get_or(b":cfg", (10, 10, 40)) }
pub struct Cfg;
impl Get<Perbill> for Cfg { fn get() -> Perbill { Perbill::from_parts(cfg().0 * 1_000_000) } }
impl Get<FixedU128> for Cfg { fn get() -> FixedU128 { FixedU128::from_inner(cfg().1 as u128 * (ONE / 1000)) } }
impl Get<u32> for Cfg { fn get() -> u32 { cfg().2 } }
const ONE: u128 = 1_000_000_000_000_000_000;
/// the market: pools of 0 with 1 and of 1 with 2; 0 and 2 trade over 1.  0: fine, 1: sells fail, 2: no price,
/// 3: sells keep what they are given, 4: routes changed
fn mood() -> u8 { unhashed::get_or(b":mood", 0) }
fn pool(a: AssetId, b: AssetId) -> Option<u64> { match (a.min(b), a.max(b)) { (0, 1) => Some(100), (1, 2) => Some(101), _ => None } }
fn have(a: AssetId, w: u64) -> u128 { Currencies::free_balance(a, &w) }
pub struct Router;
impl RouteProvider<AssetId> for Router { fn get_route(p: AssetPair<AssetId>) -> Vec<Trade<AssetId>> {
    let t = |a, b| Trade { pool: if mood() == 4 { PoolType::LBP } else { PoolType::XYK }, asset_in: a, asset_out: b };
    if p.asset_in + p.asset_out == 2 && p.asset_in != 1 { vec![t(p.asset_in, 1), t(1, p.asset_out)] } else { vec![t(p.asset_in, p.asset_out)] }
} }
impl RouteSpotPriceProvider<AssetId> for Router { fn spot_price_with_fee(r: &[Trade<AssetId>]) -> Option<FixedU128> {
    if mood() == 2 || r.is_empty() { return None }
    let mut p = FixedU128::from_inner(ONE);
    for t in r { let w = pool(t.asset_in, t.asset_out)?; p = FixedU128::from_inner(mul(p.into_inner(), have(t.asset_in, w), have(t.asset_out, w))?); }
    Some(p)
} }
/// floor(a·b/c)
fn mul(a: u128, b: u128, c: u128) -> Option<u128> { if c == 0 { None } else { u128::try_from(U256::from(a) * U256::from(b) / U256::from(c)).ok() } }
impl RouterT<RuntimeOrigin, AssetId, Balance, Trade<AssetId>, AmountInAndOut<Balance>> for Router {
    fn sell(o: RuntimeOrigin, i: AssetId, _: AssetId, x: Balance, min: Balance, r: Vec<Trade<AssetId>>) -> DispatchResult {
        let who = frame_system::ensure_signed(o)?; let bad = DispatchError::Other("market");
        if mood() == 1 || x == 0 || r.is_empty() || r[0].asset_in != i { return Err(bad) }
        let mut x = x;
        for t in r {
            let w = pool(t.asset_in, t.asset_out).ok_or(bad)?;
            let out = mul(have(t.asset_out, w), x, have(t.asset_in, w) + x).ok_or(bad)?;
            Currencies::transfer(RuntimeOrigin::signed(who), w, t.asset_in, x)?;
            if mood() == 3 { return Ok(()) }
            Currencies::transfer(RuntimeOrigin::signed(w), who, t.asset_out, out)?;
            x = out;
        }
        if x < min { Err(bad) } else { Ok(()) }
    }
    fn buy(_: RuntimeOrigin, _: AssetId, _: AssetId, _: Balance, _: Balance, _: Vec<Trade<AssetId>>) -> DispatchResult { unreachable!() }
    fn calculate_sell_trade_amounts(_: &[Trade<AssetId>], _: Balance) -> Result<Vec<AmountInAndOut<Balance>>, DispatchError> { unreachable!() }
    fn calculate_buy_trade_amounts(_: &[Trade<AssetId>], _: Balance) -> Result<Vec<AmountInAndOut<Balance>>, DispatchError> { unreachable!() }
    fn set_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<Trade<AssetId>>) -> frame_support::dispatch::DispatchResultWithPostInfo { unreachable!() }
    fn force_insert_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<Trade<AssetId>>) -> frame_support::dispatch::DispatchResultWithPostInfo { unreachable!() }
}
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
fn kitty() -> u64 { Settle::account_id() }
fn orders() -> Vec<u32> { let mut v: Vec<u32> = Orders::<Rt>::iter_keys().collect(); v.sort(); v }
fn route_of(id: u32) -> Vec<Trade<AssetId>> { let o = Orders::<Rt>::get(id).unwrap(); Router::get_route(AssetPair::new(o.asset_out, o.asset_in)) }
fn origin(k: u8) -> RuntimeOrigin { match k { 0 => RuntimeOrigin::none(), 1 => root(), _ => RuntimeOrigin::signed(k as u64) } }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Why { Other, High, Low }
type Said = Result<u128, (Why, DispatchError)>;
/// What settling is to do, on the storage, as one transaction; Ok is the profit.
fn spec(id: u32, amount: u128, route: &[Trade<AssetId>]) -> Said {
    let mut said = Err((Why::Other, DispatchError::Other("")));
    let _ = call(|| -> DispatchResult { said = legs(id, amount, route); said.map(|_| ()).map_err(|e| e.1) });
    said
}
fn legs(id: u32, amount: u128, route: &[Trade<AssetId>]) -> Said {
    let no = |e: DispatchError| (Why::Other, e);
    let fail = |e: Error<Rt>| Err((match e { Error::TradeAmountTooHigh => Why::High, Error::TradeAmountTooLow => Why::Low, _ => Why::Other }, e.into()));
    let Some(o) = Orders::<Rt>::get(id) else { return fail(Error::OrderNotFound) };
    if !o.partially_fillable && amount != o.amount_in { return fail(Error::NotPartiallyFillable) }
    if route != route_of(id) { return fail(Error::InvalidRoute) }
    let (a, b, me) = (o.asset_in, o.asset_out, kitty());
    let was = (have(a, me), have(b, me));
    Cur::mint_into(a, &me, amount).map_err(no)?;
    let price = mul(o.amount_out, ONE, o.amount_in).unwrap();
    if amount == o.amount_in { Otc::fill_order(RuntimeOrigin::signed(me), id).map_err(no)?; } else { Otc::partial_fill_order(RuntimeOrigin::signed(me), id, amount).map_err(no)?; }
    let got = have(b, me) - was.1;
    if Router::sell(RuntimeOrigin::signed(me), b, a, got, 1, route.to_vec()).is_err() { return fail(Error::TradeAmountTooHigh) }
    let Some(now) = Router::spot_price_with_fee(route) else { return fail(Error::PriceNotAvailable) };
    if o.partially_fillable {
        let (now, slack) = (now.into_inner(), price * cfg().1 as u128 / 1000);
        if now > price && now - price > slack { return fail(Error::TradeAmountTooHigh) }
        if now < price && price - now > slack { return fail(Error::TradeAmountTooLow) }
    }
    let Some(profit) = have(a, me).checked_sub(was.0).and_then(|x| x.checked_sub(amount)) else { return Err((Why::Other, sp_runtime::ArithmeticError::Overflow.into())) };
    if profit < o.amount_in * cfg().0 as u128 / 1000 { return fail(Error::TradeAmountTooLow) }
    <Cur as Mutate<u64>>::transfer(a, &me, &9, profit, Preservation::Expendable).map_err(no)?;
    Cur::burn_from(a, &me, amount, Precision::Exact, Fortitude::Force).map_err(no)?;
    if (have(a, me), have(b, me)) != was { return fail(Error::BalanceInconsistency) }
    System::deposit_event(Event::<Rt>::Executed { asset_id: a, profit });
    Ok(profit)
}
/// The amount to settle an order with: the whole, or what halving the interval comes to; what is found is settled.
fn find(id: u32) -> Option<u128> {
    let o = Orders::<Rt>::get(id).unwrap(); let route = route_of(id);
    let (mut lo, mut hi, mut x) = (10, o.amount_in, o.amount_in);
    for _ in 0..if o.partially_fillable { cfg().2 } else { 1 } {
        match spec(id, x, &route) { Ok(_) => return Some(x), Err((Why::High, _)) => hi = x, Err((Why::Low, _)) => lo = x, Err(_) => return None }
        if lo == hi { return None }
        x = (lo + hi) / 2;
    }
    None
}
#[derive(Clone, Copy, Debug)]
enum Amt { N(u128), Part(u128, u128), Plus(i128), Found(i128) }
use Amt::*;
#[derive(Clone, Debug)]
enum Act {
    Settle(u8, u32, Amt, u8), Place(u64, AssetId, AssetId, u128, u128, bool), Cancel(u64, u32), Fill(u64, u32, Amt), Swap(AssetId, AssetId, u128), Give(AssetId, u128), Mood(u8),
    Worker(i64, bool, u8), Sent(u8),
}
#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct M { db: BTreeMap<Vec<u8>, Vec<u8>>, sent: Vec<Vec<u8>> }
const LIST: &[u8] = b"hydradx/otc-settlements/data/";
const LAST: &[u8] = b"hydradx/otc-settlements/data-last-update/";
const LOCK: &[u8] = b"hydradx/otc-settlements/lock/";
fn amt(x: Amt, id: u32) -> u128 {
    let whole = Orders::<Rt>::get(id).map_or(100, |o| o.amount_in);
    match x { N(n) => n, Part(p, q) => whole * p / q, Plus(d) => (whole as i128 + d) as u128, Found(d) => Orders::<Rt>::get(id).and_then(|_| dry(|| find(id))).map_or(33, |x| (x as i128 + d).max(0) as u128) }
}
fn issued() -> Vec<u128> { (0..3).map(|a| Currencies::total_issuance(a)).collect() }
fn own() -> Vec<u128> { (0..3).map(|a| Currencies::total_balance(a, &kitty())).collect() }
fn settle(who: u8, id: u32, amount: u128, route: Vec<Trade<AssetId>>) -> Result<bool, Wrong> {
    let (want, state) = dry(|| { let w = spec(id, amount, &route); (w, map()) });
    let (old, had, all) = (map(), own(), issued());
    let rich: Vec<u128> = (0..3).map(|a| Currencies::total_balance(a, &9)).collect();
    let order = Orders::<Rt>::get(id);
    let got = call(|| Settle::settle_otc_order(origin(who), id, amount, route));
    match (&got, &want) {
        (Ok(_), Ok(profit)) => {
            must!(map() == state, "settled", "order {id} settled with {amount}: the state differs from what is meant");
            must!(issued() == all, "issuance", "issuances {all:?} become {:?}", issued());
            must!(own() == had, "pallet account", "the pallet's balances {had:?} become {:?}", own());
            let o = order.unwrap();
            for a in 0..3 { let g = Currencies::total_balance(a, &9) - rich[a as usize]; must!(g == if a == o.asset_in { *profit } else { 0 }, "profit", "the receiver gains {g} of {a}, not {profit} of {}", o.asset_in); }
            Ok(true)
        }
        (Err(_), Err(_)) => {
            must!(map() == old, "refused", "a refused settlement changed something");
            must!(got.clone().unwrap_err() == want.unwrap_err().1, "reason", "settling {id} with {amount}: {got:?}, not {want:?}");
            Ok(false)
        }
        _ => wrong("settle", format!("settling {id} with {amount}: {got:?}, not {want:?}")),
    }
}
fn step(a: &Act, m: &mut M) -> Result<bool, Wrong> {
    let ok = match a.clone() {
        Act::Settle(w, id, x, r) => {
            let right = if Orders::<Rt>::contains_key(id) { route_of(id) } else { vec![] };
            let route = match r { 0 => right, 1 => inverse_route(right), 2 => vec![], 3 => right.iter().take(1).map(|t| Trade { asset_out: t.asset_out ^ 1, ..*t }).collect(), _ => right.iter().map(|t| Trade { pool: PoolType::Omnipool, ..*t }).collect() };
            let x = amt(x, id);
            let call_ = pallet_otc_settlements::Call::<Rt>::settle_otc_order { otc_id: id, amount: x, route: route.clone() };
            for s in [TransactionSource::External, TransactionSource::Local, TransactionSource::InBlock] {
                let v = Settle::validate_unsigned(s, &call_);
                if s == TransactionSource::External { must!(v == Err(InvalidTransaction::Call.into()), "validate", "an unsigned transaction off the network is {v:?}") }
                else { let v = v.map_err(|e| Wrong("validate".into(), format!("{s:?}: {e:?}")))?; must!(v.provides == vec![("settle-otc-with-router", b"settle_otc_order".to_vec()).encode()] && v.requires.is_empty() && v.longevity == 3 && !v.propagate && v.priority == 100, "validate", "{s:?}: {v:?}") }
            }
            settle(w, id, x, route)?
        }
        Act::Place(w, i, o, x, y, p) => call(|| Otc::place_order(signed(w), i, o, x, y, p)).is_ok(),
        Act::Cancel(w, id) => call(|| Otc::cancel_order(signed(w), id)).is_ok(),
        Act::Fill(w, id, x) => { let x = amt(x, id); if Orders::<Rt>::get(id).map_or(false, |o| o.amount_in == x) { call(|| Otc::fill_order(signed(w), id)).is_ok() } else { call(|| Otc::partial_fill_order(signed(w), id, x)).is_ok() } }
        Act::Swap(i, o, x) => call(|| Router::sell(signed(1), i, o, x, 0, Router::get_route(AssetPair::new(i, o)))).is_ok(),
        Act::Give(a, x) => call(|| Currencies::transfer(signed(1), kitty(), a, x)).is_ok(),
        Act::Mood(k) => { if mood() == k { return Ok(false) } unhashed::put(b":mood", &k); true }
        Act::Worker(ahead, validator, lock) => worker(m, ahead, validator, lock)?,
        Act::Sent(k) => {
            // someone's block with a transaction of the worker's in it, whatever happened meanwhile
            let Some(tx) = m.sent.get(k as usize).cloned() else { return Ok(false) };
            m.sent.remove(k as usize);
            let RuntimeCall::Settle(pallet_otc_settlements::Call::settle_otc_order { otc_id, amount, route }) = Xt::decode(&mut &tx[..]).unwrap().call else { unreachable!() };
            settle(0, otc_id, amount, route)?; true
        }
    };
    System::reset_events();
    Ok(ok)
}
/// The off-chain worker of a block `ahead` of the last; `lock`: 0 nobody holds it, 1 another holds it, 2 another held it too long ago.
fn worker(m: &mut M, ahead: i64, validator: bool, lock: u8) -> Result<bool, Wrong> {
    let last = m.db.get(LAST).map_or(0, |v| u64::decode(&mut &v[..]).unwrap());
    let n = (last as i64 + ahead).max(0) as u64;
    let now = 1_000_000;
    if lock > 0 { m.db.insert(LOCK.to_vec(), Timestamp::from_unix_millis(if lock == 1 { now + 1 } else { now - 1 }).encode()); }
    let before = m.db.clone();
    // what is to happen
    let mut list: Vec<u32> = m.db.get(LIST).map_or(vec![], |v| Decode::decode(&mut &v[..]).unwrap());
    if validator && n > last && lock != 1 {
        let mut v: Vec<(u128, usize, u32)> = vec![];
        for (k, (id, o)) in Orders::<Rt>::iter().enumerate() {
            let p = mul(o.amount_out, ONE, o.amount_in).unwrap();
            if let Some(r) = Router::spot_price_with_fee(&Router::get_route(AssetPair::new(o.asset_out, o.asset_in))) { if r.into_inner() <= p { v.push((p - r.into_inner(), k, id)) } }
        }
        v.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)));
        list = v.iter().map(|x| x.2).collect();
    }
    let want: Vec<Xt> = if !validator { vec![] } else { dry(|| list.iter().filter(|id| Orders::<Rt>::contains_key(**id)).filter_map(|id| { let route = route_of(*id); find(*id).map(|amount| Xt::new(RuntimeCall::Settle(pallet_otc_settlements::Call::settle_otc_order { otc_id: *id, amount, route }), None)) }).collect()) };
    // what happens
    STATE.with(|s| { let mut s = s.borrow_mut(); s.db = m.db.clone(); s.now = now; s.validator = validator; s.pool.clear(); });
    dry(|| Settle::offchain_worker(n));
    let (db, sent) = STATE.with(|s| { let s = s.borrow(); (s.db.clone(), s.pool.clone()) });
    let got: Vec<Xt> = sent.iter().map(|x| Xt::decode(&mut &x[..]).unwrap()).collect();
    must!(got == want, "submitted", "the worker of block {n} sends {got:?}, not {want:?}");
    let mut meant = before.clone();
    if validator && n > last {
        meant.insert(LAST.to_vec(), n.encode());
        if lock != 1 { meant.insert(LIST.to_vec(), list.encode()); meant.remove(LOCK); }
    }
    must!(db == meant, "store", "the worker of block {n} leaves {:?} in its store, not {:?}", show(&db), show(&meant));
    // every transaction goes through, one after the other, as unsigned transactions of this node
    dry(|| -> Result<(), Wrong> { for x in &got {
        let RuntimeCall::Settle(c) = &x.call else { return wrong("submitted", format!("{x:?}")) };
        must!(x.signature.is_none() && Settle::validate_unsigned(TransactionSource::Local, c).is_ok(), "submitted", "{x:?} is not accepted");
        let pallet_otc_settlements::Call::settle_otc_order { otc_id, amount, route } = c.clone() else { unreachable!() };
        must!(settle(0, otc_id, amount, route)?, "submitted", "{x:?} fails");
    } Ok(()) })?;
    m.db = db; m.db.remove(LOCK); m.sent = sent;
    Ok(m.db != before || !m.sent.is_empty())
}
fn show(db: &BTreeMap<Vec<u8>, Vec<u8>>) -> Vec<(String, Vec<u8>)> { db.iter().map(|(k, v)| (String::from_utf8_lossy(k).into(), v.clone())).collect() }
fn begin(name: &str, c: (u32, u32, u32), acts: &[Act]) -> Start<M> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":cfg", &c);
        for (w, a, x) in [(100, 0, 20_000), (100, 1, 40_000), (101, 1, 30_000), (101, 2, 10_000), (1, 0, 100_000), (1, 1, 100_000), (1, 2, 100_000), (2, 0, 12_000), (2, 1, 12_000), (2, 2, 12_000), (3, 1, 4_000), (9, 0, 10)] { Currencies::deposit(a, &w, x).unwrap(); }
        let mut m = M::default();
        for a in acts { match step(a, &mut m) { Ok(true) => (), Ok(false) => panic!("start {name}: {a:?} refused"), Err(x) => panic!("start {name}: {a:?} gives {x:?}") } }
        m
    })
}
fn main() {
    let ck = kit::Check::new("P22");
    let mut acts = vec![];
    for id in 0..3 {
        for x in [N(0), N(1), N(9), N(10), N(u128::MAX), Part(1, 4), Part(1, 2), Part(3, 4), Part(10, 11), Plus(-60), Plus(-1), Plus(0), Plus(1), Found(0), Found(-1), Found(1), Found(-40), Found(40)] { acts.push(Act::Settle(0, id, x, 0)); }
        for (w, r) in [(0, 1), (0, 2), (2, 3), (0, 4), (1, 0), (2, 0)] { acts.push(Act::Settle(w, id, Found(0), r)); }
        acts.push(Act::Fill(1, id, Part(1, 3)));
        acts.push(Act::Cancel(2, id));
    }
    for a in 0..3 { acts.push(Act::Give(a, 50)); }
    for k in 0..5 { acts.push(Act::Mood(k)); }
    for (i, o, x) in [(0, 1, 700), (1, 0, 1500), (1, 2, 900), (2, 1, 300)] { acts.push(Act::Swap(i, o, x)); }
    // market: 2 of 1 per 0, 3 of 1 per 2
    let place = |i, o, x, y, p| Act::Place(2, i, o, x, y, p);
    let starts = || vec![
        begin("dear orders", (10, 10, 40), &[place(0, 1, 1000, 2500, true), place(0, 1, 1000, 2600, false), place(2, 1, 500, 1700, true)]),
        begin("fair orders", (10, 10, 40), &[place(0, 1, 1000, 2010, true), place(1, 0, 1000, 500, false), place(1, 2, 3000, 1000, true)]),
        begin("no least profit", (0, 1, 40), &[place(0, 1, 1000, 2300, true), place(1, 2, 900, 300, false), place(1, 2, 1200, 420, true)]),
        begin("two hops", (10, 10, 40), &[place(0, 2, 2000, 1500, true), place(2, 0, 1000, 1800, false), place(2, 0, 1000, 1800, true)]),
        begin("coarse search", (5, 40, 4), &[place(0, 1, 2000, 4999, true), place(1, 0, 4000, 2300, true), place(1, 2, 3000, 1100, false)]),
        begin("at the upper edge", (0, 250, 40), &[place(0, 1, 4000, 10000, true), place(2, 1, 6, 30, true)]),
        begin("at the lower edge", (0, 200, 40), &[place(0, 1, 2816, 11000, true), place(1, 2, 10, 5, true)]),
        begin("own money", (10, 10, 40), &[place(0, 1, 1000, 2500, true), place(1, 0, 3000, 1700, true), place(2, 1, 500, 1700, false), Act::Give(0, 500), Act::Give(1, 500)]),
    ];
    World { name: "settling", depth: ck.pick(3, 4), events: true, actions: &|_: &M| acts.clone(), step: &step, prepare: &|| {} }.explore(&ck, starts());
    let mut acts = vec![place(0, 1, 1000, 2500, true), place(1, 2, 2000, 800, false), Act::Fill(1, 0, Part(1, 3)), Act::Fill(1, 1, Plus(0)), Act::Cancel(2, 0), Act::Cancel(2, 1), Act::Swap(1, 0, 2500), Act::Swap(0, 1, 2500), Act::Mood(2), Act::Mood(4), Act::Mood(0), Act::Sent(0), Act::Sent(1)];
    for n in [-1, 0, 1] { for (v, l) in [(true, 0), (true, 1), (true, 2), (false, 0)] { if n == 1 || (v && l < 2) { acts.push(Act::Worker(n, v, l)); } } }
    World { name: "worker", depth: ck.pick(4, 5), events: true, actions: &|_: &M| acts.clone(), step: &step, prepare: &|| {} }.explore(&ck, starts());
    ck.finish()
}
